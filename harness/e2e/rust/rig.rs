//! What the agents note, and the transports they are given.
use async_trait::async_trait;
use clibri::{client, server};
use std::{any::Any, cell::RefCell, collections::BTreeMap};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};
use uuid::Uuid;

#[derive(Default)]
pub struct Shared { pub out: Vec<String>, pub control: Option<Box<dyn Any>>, pub links: BTreeMap<u8, UnboundedSender<client::Event<StubErr>>>, pub ended: BTreeMap<u8, bool>, pub wakers: Vec<std::task::Waker>, pub choose: u8, pub count: u32 }
thread_local! { pub static S: RefCell<Shared> = RefCell::new(Shared::default()); }
pub fn sh<R>(f: impl FnOnce(&mut Shared) -> R) -> R { S.with(|s| f(&mut s.borrow_mut())) }
pub fn note(agent: u8, s: String) { sh(|x| x.out.push(format!("{} {}", agent, s.replace('\n', " ")))) }
pub fn wake() { for w in sh(|s| std::mem::take(&mut s.wakers)) { w.wake() } }
/// select! asks here which of its branches is polled first.
#[no_mangle]
pub fn vf_choose(n: u32) -> u32 { sh(|s| { s.count += 1; match s.choose { 0 => 0, 1 => n - 1, 2 => s.count % n, _ => (s.count / 2) % n } }) }

pub fn num(u: Uuid) -> u8 { u.as_bytes()[15] }
pub fn uid(n: u8) -> Uuid { let mut b = [0u8; 16]; b[15] = n; Uuid::from_bytes(b) }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn bytes(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

use crate::p::implementation::{producer::Control, scope::Scope};
pub fn heard(kind: &str, what: u8, who: u8, key: u16, to: &[Uuid]) { let mut l: Vec<u8> = to.iter().map(|u| num(*u)).collect(); l.sort(); note(0, format!("H {} {} {} {} {}", kind, what, who, key, l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))) }
pub fn handled<E: server::Error, C: server::Control<E>>(kind: &str, what: u8, s: &mut Scope<'_, E, C>, all: bool) -> Vec<Uuid> {
    let to = if all { s.filter.all() } else { vec![] };
    heard(kind, what, num(s.identification.uuid()), s.identification.key.as_ref().map(|k| k.id).unwrap_or(0), &to); to
}
pub fn ready<E: server::Error, C: server::Control<E>>(c: &Control<E, C>) { sh(|s| s.control = Some(Box::new(c.clone()))); note(0, String::from("ready")) }

#[derive(Clone, Debug)]
pub struct StubErr;
impl std::fmt::Display for StubErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "stub") } }
impl std::error::Error for StubErr {}
impl server::Error for StubErr {}
impl client::Error for StubErr {}

struct Never;
impl std::future::Future for Never { type Output = (); fn poll(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<()> { std::task::Poll::Pending } }
#[derive(Clone)]
pub struct ServerCtl;
#[async_trait]
impl server::Control<StubErr> for ServerCtl {
    async fn shutdown(&self) -> Result<(), StubErr> { note(0, String::from("down")); Ok(()) }
    async fn send(&self, buffer: Vec<u8>, client: Option<Uuid>) -> Result<(), StubErr> { note(0, format!("tx {} {}", client.map(num).unwrap_or(0), hex(&buffer))); Ok(()) }
    async fn disconnect(&self, client: Uuid) -> Result<(), StubErr> { note(0, format!("disc {}", num(client))); Ok(()) }
    async fn disconnect_all(&self) -> Result<(), StubErr> { note(0, String::from("disc 0")); Ok(()) }
}
pub struct ServerStub { pub rx: Option<UnboundedReceiver<server::Events<StubErr>>> }
#[async_trait]
impl server::Impl<StubErr, ServerCtl> for ServerStub {
    async fn listen(&mut self) -> Result<(), StubErr> { Never.await; Ok(()) }
    fn observer(&mut self) -> Result<UnboundedReceiver<server::Events<StubErr>>, StubErr> { self.rx.take().ok_or(StubErr) }
    fn control(&self) -> ServerCtl { ServerCtl }
}
struct Work(u8);
impl std::future::Future for Work {
    type Output = ();
    fn poll(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> { sh(|s| if s.ended.get(&self.0) == Some(&true) { std::task::Poll::Ready(()) } else { s.wakers.push(cx.waker().clone()); std::task::Poll::Pending }) }
}
#[derive(Clone)]
pub struct ClientCtl(u8);
#[async_trait]
impl client::Control<StubErr> for ClientCtl {
    async fn shutdown(&self) -> Result<(), StubErr> { note(self.0, String::from("down")); Ok(()) }
    async fn send(&self, m: client::Message) -> Result<(), StubErr> { match m { client::Message::Binary(b) => note(self.0, format!("tx 0 {}", hex(&b))), _ => note(self.0, String::from("odd message")) } Ok(()) }
}
pub struct ClientStub(pub u8);
#[async_trait]
impl client::Impl<StubErr, ClientCtl> for ClientStub {
    async fn connect(&mut self) -> Result<(), StubErr> { note(self.0, String::from("dial")); sh(|s| s.ended.insert(self.0, false)); Work(self.0).await; Ok(()) }
    fn observer(&mut self) -> Result<UnboundedReceiver<client::Event<StubErr>>, StubErr> { let (tx, rx) = unbounded_channel(); sh(|s| s.links.insert(self.0, tx)); Ok(rx) }
    fn control(&self) -> ClientCtl { ClientCtl(self.0) }
}
