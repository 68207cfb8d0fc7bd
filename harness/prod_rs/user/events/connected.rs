use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
type BroadcastBcX = Option<(Vec<Uuid>, protocol::BcX)>;
pub async fn emit<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>) -> Result<BroadcastBcX, String> {
    let (w, to, act) = crate::rig::mode(0);
    let to = crate::rig::enter(10, w, to, act, scope).await;
    if w % 2 == 1 { return Err(String::from("refused")); }
    Ok(if w == 2 { Some((to, protocol::BcX { what: w })) } else { None })
}
