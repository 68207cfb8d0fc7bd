use super::{controller, protocol, Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(_context: &mut Context, consumer: Consumer<E>) { crate::rig::handled(crate::rig::Ev::Connected, crate::rig::sh(|s| s.on), consumer).await }
