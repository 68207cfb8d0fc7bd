use super::{identification, producer::Control, protocol, Context, scope::AnonymousScope};
use clibri::server;
use uuid::Uuid;
type BroadcastTock = (Vec<Uuid>, protocol::Tock);
pub async fn emit<E: server::Error, C: server::Control<E>>(event: protocol::Tick, scope: &mut AnonymousScope<'_, E, C>) -> Result<BroadcastTock, String> {
    let to = scope.filter.all();
    crate::rig::heard("tick", event.what, 0, 0, &to);
    Ok((to, protocol::Tock { what: event.what }))
}
