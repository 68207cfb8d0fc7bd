use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
type OptionalBroadcastBcX = Option<(Vec<Uuid>, protocol::BcX)>;
type BroadcastBcX = (Vec<Uuid>, protocol::BcX);
type BroadcastGBcZ = Option<(Vec<Uuid>, protocol::G::BcZ)>;
pub enum Response { First((protocol::G::ResA, OptionalBroadcastBcX)), Second((protocol::ResB, BroadcastBcX, BroadcastGBcZ)) }
pub async fn response<E: server::Error, C: server::Control<E>>(request: &protocol::G::ReqM, scope: &mut Scope<'_, E, C>) -> Result<Response, protocol::G::Err> {
    let w = request.what;
    let to = crate::rig::enter(3, w, request.to, request.act, scope).await;
    if w % 2 == 1 { return Err(protocol::G::Err { what: w }); }
    Ok(match w {
        0 => Response::First((protocol::G::ResA { what: w }, None)),
        2 => Response::First((protocol::G::ResA { what: w }, Some((to, protocol::BcX { what: w })))),
        4 => Response::Second((protocol::ResB { what: w }, (to, protocol::BcX { what: w }), None)),
        _ => Response::Second((protocol::ResB { what: w }, (to, protocol::BcX { what: w }), Some((crate::rig::second(), protocol::G::BcZ { what: w })))),
    })
}
