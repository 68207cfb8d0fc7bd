use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
pub async fn emit<E: server::Error, C: server::Control<E>>(beacon: &protocol::G::Beb, scope: &mut Scope<'_, E, C>) -> Result<(), String> {
    crate::rig::enter(5, beacon.what, 0, beacon.act, scope).await;
    if beacon.what % 2 == 1 { Err(String::from("refused")) } else { Ok(()) }
}
