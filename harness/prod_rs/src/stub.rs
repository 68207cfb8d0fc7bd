//! Transport which is driven by the harness.
use crate::rig::*;
use async_trait::async_trait;
use clibri::server;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use uuid::Uuid;

#[derive(Clone, Debug)]
pub struct StubErr;
impl std::fmt::Display for StubErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "stub") } }
impl std::error::Error for StubErr {}
impl server::Error for StubErr {}
#[derive(Clone)]
pub struct StubCtl;
struct Listen;
impl std::future::Future for Listen {
    type Output = Result<(), StubErr>;
    fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        match sh(|s| s.listen) { 0 => std::task::Poll::Pending, 1 => std::task::Poll::Ready(Ok(())), _ => std::task::Poll::Ready(Err(StubErr)) }
    }
}
#[async_trait]
impl server::Control<StubErr> for StubCtl {
    async fn shutdown(&self) -> Result<(), StubErr> { note(Obs::SrvDown); Ok(()) }
    async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), StubErr> {
        let u = client.map(num).unwrap_or(0);
        let (fail, gone) = sh(|s| (s.fail >> u & 1 == 1, s.gone >> u & 1 == 1));
        if fail { note(Obs::Fail(u)); return Err(StubErr); }
        if !gone { for (q, m) in crate::decode(&buffer) { note(Obs::Send(u, q, m)) } }
        Ok(())
    }
    async fn disconnect(&self, client: Uuid) -> Result<(), StubErr> { note(Obs::Disc(num(client))); if sh(|s| s.fail_disc) { Err(StubErr) } else { Ok(()) } }
    async fn disconnect_all(&self) -> Result<(), StubErr> { note(Obs::Disc(0)); Ok(()) }
}
pub struct Stub { rx: Option<UnboundedReceiver<server::Events<StubErr>>> }
pub fn stub() -> (Stub, UnboundedSender<server::Events<StubErr>>) { let (tx, rx) = unbounded_channel(); (Stub { rx: Some(rx) }, tx) }
#[async_trait]
impl server::Impl<StubErr, StubCtl> for Stub {
    async fn listen(&mut self) -> Result<(), StubErr> { Listen.await }
    fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<StubErr>>, StubErr> { self.rx.take().ok_or(StubErr) }
    fn control(&self) -> StubCtl { StubCtl }
}
