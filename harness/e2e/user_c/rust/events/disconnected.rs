use super::{Consumer, Context};
use clibri::client;
pub async fn handler<E: client::Error>(context: &mut Context, _consumer: Consumer<E>) { crate::rig::note(context.who, String::from("disconnected")) }
