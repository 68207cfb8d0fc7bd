use super::Context;
pub async fn handler(_timeout: u64, context: &mut Context) -> bool { crate::rig::note(context.who, String::from("reconnect")); true }
