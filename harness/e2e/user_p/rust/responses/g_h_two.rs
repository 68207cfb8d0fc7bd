use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
type BroadcastGHNote = Option<(Vec<Uuid>, protocol::G::H::Note)>;
pub enum Response { First(protocol::ResA), Second((protocol::G::H::ResB, BroadcastGHNote)) }
pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::G::H::Two, scope: &mut Scope<'_, E, C>) -> Result<Response, protocol::G::Err> {
    let what = request.what;
    let to = crate::rig::handled("two", what, scope, what % 4 == 1);
    match what % 4 {
        0 => Ok(Response::First(protocol::ResA { what, text: None })),
        1 => Ok(Response::Second((protocol::G::H::ResB { what }, Some((to, protocol::G::H::Note { what }))))),
        2 => Ok(Response::Second((protocol::G::H::ResB { what }, None))),
        _ => Err(protocol::G::Err { what }),
    }
}
