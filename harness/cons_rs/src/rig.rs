//! What the user of a generated consumer writes: handlers which note what they see and act as the message tells them to.
use crate::c::implementation::protocol;
use crate::c::{Consumer, ConsumerError};
use clibri::client;
use std::{any::Any, cell::RefCell, collections::BTreeMap, future::Future, pin::Pin, task::{Context as TaskContext, Poll}};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev { Connected, Disconnected, Shutdown(bool), Error, Bc(u8, u8) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Msg { Key(u16, Option<u8>), Hash(bool), Req(u8, u8), Bea(u8, u8), Other }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Out { Resp(u8, u8), Err(u8), Ok, Refused, Timeout, Unexpected, Failed }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Obs { In(usize), Quiet, Connect, Down, Send(u32, Msg), Fail, Ev(Ev), Reconnect(u64), Done(u8, Out), Yield, Resume }
#[derive(Default)]
pub struct Shared {
    pub log: Vec<Obs>, pub on: u8, pub off: u8, pub again: bool, pub resumed: bool, pub fail: bool, pub nested: u8, pub choices: Vec<(u32, u32)>, pub prefix: Vec<u32>,
    pub end: u8, pub wakers: Vec<std::task::Waker>, pub tx: Option<Box<dyn Any>>, pub seqs: BTreeMap<u8, u32>, pub hand: [u32; 2], pub gens: u8,
}
thread_local! { pub static S: RefCell<Shared> = RefCell::new(Shared::default()); }
pub fn sh<R>(f: impl FnOnce(&mut Shared) -> R) -> R { S.with(|s| f(&mut s.borrow_mut())) }
pub fn note(o: Obs) { sh(|s| s.log.push(o)) }
#[no_mangle]
pub fn vf_choose(n: u32) -> u32 { sh(|s| { let i = s.choices.len(); let v = s.prefix.get(i).copied().unwrap_or(0); s.choices.push((v, n)); if v < n { v } else { 0 } }) }

struct Gate(bool);
impl Future for Gate {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut TaskContext<'_>) -> Poll<()> {
        if !self.0 { self.0 = true; note(Obs::Yield); }
        if sh(|s| s.resumed) { note(Obs::Resume); return Poll::Ready(()) }
        sh(|s| s.wakers.push(cx.waker().clone())); Poll::Pending
    }
}
pub fn reconnect(timeout: u64) -> bool { note(Obs::Reconnect(timeout)); sh(|s| s.again) }
pub async fn handled<E: client::Error>(ev: Ev, act: u8, consumer: Consumer<E>) {
    note(Obs::Ev(ev));
    if (7..9).contains(&act) { let id = sh(|s| { s.nested += 1; 99 + s.nested }); let o = call(consumer, if act == 8 { 0 } else { 6 }, id).await; note(Obs::Done(id, o)) }
    if act == 9 { Gate(false).await }
}
fn failed<E: client::Error>(e: ConsumerError<E>) -> Out { match e { ConsumerError::Timeout => Out::Timeout, ConsumerError::UnexpectedResponse(_) => Out::Unexpected, ConsumerError::Broadcast(s) => if s == "refused" || s.is_empty() { Out::Refused } else { Out::Failed }, _ => Out::Failed } }
pub async fn call<E: client::Error>(mut c: Consumer<E>, kind: u8, id: u8) -> Out {
    use crate::c::implementation::controller::*;
    let (what, to, act) = (id, 0, 0);
    match kind {
        0 => match c.reqp(protocol::ReqP { what, to, act }).await { Ok(ReqPResponse::Response(m)) => Out::Resp(0, m.what), Ok(ReqPResponse::Err(m)) => Out::Err(m.what), Err(e) => failed(e) },
        1 => match c.reqs(protocol::ReqS { what, to, act }).await { Ok(ReqSResponse::Response(m)) => Out::Resp(0, m.what), Ok(ReqSResponse::Err(m)) => Out::Err(m.what), Err(e) => failed(e) },
        2 => match c.reqn(protocol::ReqN { what, to, act }).await { Ok(ReqNResponse::First(m)) => Out::Resp(1, m.what), Ok(ReqNResponse::Second(m)) => Out::Resp(2, m.what), Ok(ReqNResponse::Err(m)) => Out::Err(m.what), Err(e) => failed(e) },
        3 => match c.g_reqm(protocol::G::ReqM { what, to, act }).await { Ok(GReqMResponse::First(m)) => Out::Resp(1, m.what), Ok(GReqMResponse::Second(m)) => Out::Resp(2, m.what), Ok(GReqMResponse::Err(m)) => Out::Err(m.what), Err(e) => failed(e) },
        4 => match c.beacon_bea(protocol::Bea { what, act }).await { Ok(()) => Out::Ok, Err(e) => failed(e) },
        5 => match c.beacon_g_beb(protocol::G::Beb { what, act }).await { Ok(()) => Out::Ok, Err(e) => failed(e) },
        _ => match c.shutdown().await { Ok(()) => Out::Ok, Err(e) => failed(e) },
    }
}
