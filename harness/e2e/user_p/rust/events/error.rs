use super::{identification, producer::Control, Context, ProducerError};
use clibri::server;
use uuid::Uuid;
pub async fn emit<E: server::Error, C: server::Control<E> + Send + Clone>(error: ProducerError<E>, uuid: Option<Uuid>, _context: &mut Context, _identification: Option<&identification::Identification>, _control: &Control<E, C>) -> Result<(), String> {
    crate::rig::note(0, format!("E {} {}", uuid.map(crate::rig::num).unwrap_or(0), error));
    Ok(())
}
