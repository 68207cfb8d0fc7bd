use super::{Consumer, ConsumerError, Context};
use clibri::client;
pub async fn handler<E: client::Error>(error: Option<ConsumerError<E>>, _context: &mut Context, consumer: Consumer<E>) { crate::rig::handled(crate::rig::Ev::Shutdown(error.is_some()), 0, consumer).await }
