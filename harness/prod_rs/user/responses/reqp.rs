use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;

pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::ReqP, scope: &mut Scope<'_, E, C>) -> Result<protocol::ResA, protocol::Err> {
    let w = request.what;
    let to = crate::rig::enter(0, w, request.to, request.act, scope).await;
    if w % 2 == 1 { return Err(protocol::Err { what: w }); }
    Ok(protocol::ResA { what: w })
}
