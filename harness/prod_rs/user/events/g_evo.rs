use super::{identification, producer::Control, protocol, Context, scope::AnonymousScope};
use clibri::server;
use uuid::Uuid;
type BroadcastBcY = Option<(Vec<Uuid>, protocol::BcY)>;
pub async fn emit<E: server::Error, C: server::Control<E>>(event: protocol::G::EvO, scope: &mut AnonymousScope<'_, E, C>) -> Result<BroadcastBcY, String> {
    let w = event.what;
    let to = crate::rig::enter_anonymous(1, w, event.to, event.act, scope).await;
    if w % 2 == 1 { return Err(String::from("refused")); }
    Ok(if w == 2 { Some((to, protocol::BcY { what: w })) } else { None })
}
