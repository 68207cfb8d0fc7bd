use super::{protocol, Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(event: protocol::BcY, _context: &mut Context, consumer: Consumer<E>) { crate::rig::handled(crate::rig::Ev::Bc(1, event.what), event.what, consumer).await }
