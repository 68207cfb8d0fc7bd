//! Transport which is driven by the harness.
use crate::rig::*;
use async_trait::async_trait;
use clibri::client;
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

#[derive(Clone, Debug)]
pub struct StubErr;
impl std::fmt::Display for StubErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "stub") } }
impl std::error::Error for StubErr {}
impl client::Error for StubErr {}
#[derive(Clone)]
pub struct StubCtl;
struct Work;
impl std::future::Future for Work {
    type Output = Result<(), StubErr>;
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        match sh(|s| s.end) { 0 => { sh(|s| s.wakers.push(cx.waker().clone())); std::task::Poll::Pending } 1 => std::task::Poll::Ready(Ok(())), _ => std::task::Poll::Ready(Err(StubErr)) }
    }
}
#[async_trait]
impl client::Control<StubErr> for StubCtl {
    async fn shutdown(&self) -> Result<(), StubErr> { note(Obs::Down); Ok(()) }
    async fn send(&self, m: client::Message) -> Result<(), StubErr> {
        if sh(|s| s.fail) { note(Obs::Fail); return Err(StubErr); }
        match m { client::Message::Binary(b) => for (q, m) in crate::decode(&b) {
            sh(|s| match m { Msg::Req(_, id) | Msg::Bea(_, id) => { s.seqs.insert(id, q); } Msg::Key(..) => s.hand[0] = q, Msg::Hash(_) => s.hand[1] = q, _ => {} });
            note(Obs::Send(q, m))
        }, _ => note(Obs::Send(0, Msg::Other)) }
        Ok(())
    }
}
pub struct Stub;
pub type Tx = UnboundedSender<client::Event<StubErr>>;
#[async_trait]
impl client::Impl<StubErr, StubCtl> for Stub {
    async fn connect(&mut self) -> Result<(), StubErr> { note(Obs::Connect); sh(|s| { s.end = 0; s.gens += 1; s.hand = [u32::MAX; 2]; s.seqs.clear() }); Work.await }
    fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<StubErr>>, StubErr> { let (tx, rx) = unbounded_channel(); sh(|s| s.tx = Some(Box::new(tx))); Ok(rx) }
    fn control(&self) -> StubCtl { StubCtl }
}
