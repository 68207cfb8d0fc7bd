use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
use uuid::Uuid;
type BroadcastLeft = (Vec<Uuid>, protocol::Left);
pub async fn emit<E: server::Error, C: server::Control<E>>(scope: &mut Scope<'_, E, C>) -> Result<BroadcastLeft, String> {
    let to = crate::rig::handled("disconnected", 0, scope, true);
    Ok((to, protocol::Left { id: scope.identification.key.as_ref().map(|k| k.id).unwrap_or(0) }))
}
