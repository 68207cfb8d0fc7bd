use super::{protocol, Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(event: protocol::Joined, context: &mut Context, _consumer: Consumer<E>) { crate::rig::note(context.who, format!("bc Joined {}", event.id)) }
