use super::{protocol, Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(event: protocol::Bc, context: &mut Context, _consumer: Consumer<E>) { crate::rig::note(context.who, format!("bc Bc {}", event.what)) }
