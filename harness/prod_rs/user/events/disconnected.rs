use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
type BroadcastBcY = (Vec<Uuid>, protocol::BcY);
pub async fn emit<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>) -> Result<BroadcastBcY, String> {
    let (w, to, act) = crate::rig::mode(1);
    let to = crate::rig::enter(11, w, to, act, scope).await;
    if w % 2 == 1 { return Err(String::from("refused")); }
    Ok((to, protocol::BcY { what: w }))
}
