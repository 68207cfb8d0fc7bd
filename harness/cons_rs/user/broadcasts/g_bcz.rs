use super::{protocol, Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(event: protocol::G::BcZ, _context: &mut Context, consumer: Consumer<E>) { crate::rig::handled(crate::rig::Ev::Bc(2, event.what), event.what, consumer).await }
