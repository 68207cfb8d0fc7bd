use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
type BroadcastJoined = (Vec<Uuid>, protocol::Joined);
pub async fn emit<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>) -> Result<BroadcastJoined, String> {
    let to = crate::rig::handled("connected", 0, scope, true);
    Ok((to, protocol::Joined { id: scope.identification.key.as_ref().map(|k| k.id).unwrap_or(0) }))
}
