use super::{Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(_context: &mut Context, consumer: Consumer<E>) { crate::rig::handled(crate::rig::Ev::Disconnected, crate::rig::sh(|s| s.off), consumer).await }
