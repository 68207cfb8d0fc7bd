use super::{protocol, Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(event: protocol::BcX, _context: &mut Context, consumer: Consumer<E>) { crate::rig::handled(crate::rig::Ev::Bc(0, event.what), event.what, consumer).await }
