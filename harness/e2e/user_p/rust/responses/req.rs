use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
type BroadcastBc = (Vec<Uuid>, protocol::Bc);
pub enum Response { Response((protocol::ResA, BroadcastBc)) }
pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::Req, scope: &mut Scope<'_, E, C>) -> Result<Response, protocol::Err> {
    let what = request.what;
    let to = crate::rig::handled("req", what, scope, what % 2 == 0);
    if what % 2 == 1 { return Err(protocol::Err { what }); }
    Ok(Response::Response((protocol::ResA { what, text: request.text.clone() }, (to, protocol::Bc { what }))))
}
