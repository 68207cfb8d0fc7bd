use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
type BroadcastBcX = (Vec<Uuid>, protocol::BcX);
type BroadcastBcY = Option<(Vec<Uuid>, protocol::BcY)>;
pub enum Response { Response((protocol::ResA, BroadcastBcX, BroadcastBcY)) }
pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::ReqS, scope: &mut Scope<'_, E, C>) -> Result<Response, protocol::Err> {
    let w = request.what;
    let to = crate::rig::enter(1, w, request.to, request.act, scope).await;
    if w % 2 == 1 { return Err(protocol::Err { what: w }); }
    Ok(Response::Response((protocol::ResA { what: w }, (to, protocol::BcX { what: w }), if w == 2 { Some((crate::rig::second(), protocol::BcY { what: w })) } else { None })))
}
