use super::{Consumer, ConsumerError, Context};
use clibri::client;
pub async fn handler<E: client::Error>(error: Option<ConsumerError<E>>, context: &mut Context, _consumer: Consumer<E>) { crate::rig::note(context.who, format!("shutdown{}", if error.is_some() { " error" } else { "" })) }
