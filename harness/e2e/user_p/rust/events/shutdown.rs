use super::{producer::Control, Context};
use clibri::server;
pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(_context: &mut Context, _control: &Control<E, C>) -> Result<(), String> {
    crate::rig::note(0, String::from("shutdown"));
    Ok(())
}
