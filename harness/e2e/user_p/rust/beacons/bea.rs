use super::{identification, producer::Control, protocol, Context, scope::Scope};
use clibri::server;
pub async fn emit<E: server::Error, C: server::Control<E>>(beacon: &protocol::Bea, scope: &mut Scope<'_, E, C>) -> Result<(), String> {
    crate::rig::handled("bea", beacon.what, scope, false);
    if beacon.what % 2 == 1 { Err(String::from("refused")) } else { Ok(()) }
}
