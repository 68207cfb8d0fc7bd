// Stand-in for everything around a generated consumer: inputs are given by hand, time is virtual, what it does is noted in a log.
#![allow(warnings)]
#[path = "c/mod.rs"] mod c;
mod rig; mod stub;
use c::implementation::{consumer::{hash, ConsumerGetter}, protocol};
use clibri::client::{Event, Message};
use protocol::{PackingStruct, InternalServiceGroup as I};
use rig::*;
use stub::*;
use tokio::time::{sleep, Duration};
pub fn decode(b: &[u8]) -> Vec<(u32, Msg)> {
    use protocol::{AvailableMessages as A, InternalServiceGroup::AvailableMessages as I, G::AvailableMessages as G};
    let mut r: protocol::Buffer<protocol::AvailableMessages> = protocol::Buffer::new();
    let mut out = vec![];
    if r.chunk(&b.to_vec(), None).is_err() { out.push((0, Msg::Other)) }
    while let Some(x) = r.next() {
        out.push((x.header.sequence, match x.msg {
            A::SelfId(k) => Msg::Key(k.id, k.name),
            A::InternalServiceGroup(I::HashRequest(h)) => Msg::Hash(h.protocol == hash::PROTOCOL && h.workflow == hash::WORKFLOW),
            A::ReqP(m) => Msg::Req(0, m.what), A::ReqS(m) => Msg::Req(1, m.what), A::ReqN(m) => Msg::Req(2, m.what), A::G(G::ReqM(m)) => Msg::Req(3, m.what),
            A::Bea(m) => Msg::Bea(4, m.what), A::G(G::Beb(m)) => Msg::Bea(5, m.what),
            _ => Msg::Other,
        }));
    }
    out
}

pub fn uuid() -> String { String::from("00000000-0000-0000-0000-000000000001") }
pub fn give(e: Event<StubErr>) { sh(|s| { let tx: &Tx = s.tx.as_ref().unwrap().downcast_ref().unwrap(); let _ = tx.send(e); }) }
pub fn bytes(b: Result<Vec<u8>, String>) { give(Event::Message(Message::Binary(b.expect("packing")))) }
pub async fn settle() { sleep(Duration::from_millis(1)).await }
pub fn log() -> Vec<Obs> { sh(|s| std::mem::take(&mut s.log)) }
pub fn number(id: u8) -> u32 { sh(|s| s.seqs.get(&id).copied()).expect("the call was not sent") }
pub fn wake() { for w in sh(|s| std::mem::take(&mut s.wakers)) { w.wake() } }
/// The transport ends (1 - without an error, 2 - with one).
pub fn end(n: u8) { sh(|s| s.end = n); wake() }
pub async fn start(timeout: u64, reconnect: Option<u64>) -> ConsumerGetter<StubErr> {
    sh(|s| s.hand = [u32::MAX; 2]);
    let g = c::connect(Stub, c::Context::new(), c::Options { reconnection: match reconnect { Some(n) => c::ReconnectionStrategy::Reconnect(n), None => c::ReconnectionStrategy::DoNotReconnect }, request_timeout: timeout, key: protocol::SelfId { id: 2, name: Some(4) } }).await.ok().unwrap();
    settle().await; g
}
pub async fn shake(ok: bool) {
    give(Event::Connected("127.0.0.1:1".parse().unwrap())); settle().await;
    bytes(I::ConnectConfirmationBeacon {}.pack(0, None)); settle().await;
    bytes(I::SelfKeyResponse { uuid: uuid() }.pack(sh(|s| s.hand[0]), Some(uuid()))); settle().await;
    bytes(I::HashResponse { error: if ok { None } else { Some("no".into()) } }.pack(sh(|s| s.hand[1]), Some(uuid()))); settle().await;
}
/// Starts a call (0-3 requests, 4, 5 beacons, 6 shutdown); its outcome is noted as Done(id, outcome).
pub fn begin(c: &c::Consumer<StubErr>, kind: u8, id: u8) -> tokio::task::JoinHandle<()> { let c = c.clone(); tokio::spawn(async move { let o = call(c, kind, id).await; note(Obs::Done(id, o)) }) }
pub fn answer(id: u8, what: u8) { bytes(protocol::ResA { what }.pack(number(id), Some(uuid()))) }
pub fn run(f: impl std::future::Future<Output = ()> + 'static) {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(200)); std::process::exit(5) });
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(f);
}
