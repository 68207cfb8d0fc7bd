use super::Context;
pub async fn handler(timeout: u64, _context: &mut Context) -> bool { crate::rig::reconnect(timeout) }
