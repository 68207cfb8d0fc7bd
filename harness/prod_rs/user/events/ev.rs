use super::{identification, producer::Control, protocol, Context, scope::AnonymousScope};
use clibri::server;
use uuid::Uuid;
type BroadcastBcX = (Vec<Uuid>, protocol::BcX);
type BroadcastGBcZ = Option<(Vec<Uuid>, protocol::G::BcZ)>;
pub async fn emit<E: server::Error, C: server::Control<E>>(event: protocol::Ev, scope: &mut AnonymousScope<'_, E, C>) -> Result<(BroadcastBcX, BroadcastGBcZ), String> {
    let w = event.what;
    let to = crate::rig::enter_anonymous(0, w, event.to, event.act, scope).await;
    if w % 2 == 1 { return Err(String::from("refused")); }
    Ok(((to, protocol::BcX { what: w }), if w == 2 { Some((crate::rig::second(), protocol::G::BcZ { what: w })) } else { None }))
}
