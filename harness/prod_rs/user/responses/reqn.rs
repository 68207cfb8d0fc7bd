use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
pub enum Response { First(protocol::ResA), Second(protocol::ResB) }
pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::ReqN, scope: &mut Scope<'_, E, C>) -> Result<Response, protocol::Err> {
    let w = request.what;
    let to = crate::rig::enter(2, w, request.to, request.act, scope).await;
    if w % 2 == 1 { return Err(protocol::Err { what: w }); }
    Ok(if w == 0 { Response::First(protocol::ResA { what: w }) } else { Response::Second(protocol::ResB { what: w }) })
}
