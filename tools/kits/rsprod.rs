// Stand-in for everything around a generated producer: inputs are given with ev/from, what it does is noted in a log.
#![allow(warnings)]
#[path = "p/mod.rs"] mod p;
mod rig; mod stub;
use clibri::server::Events;
use p::implementation::{hash, producer::{self, ConsumerErrorHandelingStrategy as Ce, Control, ProducerIdentificationStrategy as Pi}, protocol};
use protocol::PackingStruct;
use rig::*;
use std::{future::Future, pin::Pin, sync::{atomic::{AtomicBool, Ordering::SeqCst}, Arc}, task::{Context as TaskContext, Poll, Wake, Waker}};
use stub::*;

pub fn decode(b: &[u8]) -> Vec<(u32, Msg)> {
    use protocol::{AvailableMessages as A, InternalServiceGroup::AvailableMessages as I, G::AvailableMessages as G};
    let mut r: protocol::Buffer<protocol::AvailableMessages> = protocol::Buffer::new();
    let mut out = vec![];
    if r.chunk(&b.to_vec(), None).is_err() { out.push((0, Msg::Other)) }
    while let Some(x) = r.next() {
        out.push((x.header.sequence, match x.msg {
            A::InternalServiceGroup(I::ConnectConfirmationBeacon(_)) => Msg::Confirm,
            A::InternalServiceGroup(I::SelfKeyResponse(k)) => Msg::KeyResp(uuid::Uuid::parse_str(&k.uuid).map(num).unwrap_or(255)),
            A::InternalServiceGroup(I::HashResponse(h)) => Msg::HashResp(h.error.is_some()),
            A::InternalServiceGroup(I::BeaconConfirmation(h)) => Msg::BeaConf(h.error.is_some()),
            A::ResA(m) => Msg::ResA(m.what), A::ResB(m) => Msg::ResB(m.what), A::Err(m) => Msg::Err(m.what),
            A::BcX(m) => Msg::X(m.what), A::BcY(m) => Msg::Y(m.what),
            A::G(G::ResA(m)) => Msg::GResA(m.what), A::G(G::Err(m)) => Msg::GErr(m.what), A::G(G::BcZ(m)) => Msg::Z(m.what),
            _ => Msg::Other,
        }));
    }
    out
}
pub fn key(q: u32, id: u16, name: Option<u8>) -> Vec<u8> { protocol::SelfId { id, name }.pack(q, None).unwrap() }
pub fn hello(q: u32, good: bool) -> Vec<u8> { protocol::InternalServiceGroup::HashRequest { protocol: hash::PROTOCOL.into(), workflow: if good { hash::WORKFLOW.into() } else { "x".into() } }.pack(q, None).unwrap() }
pub fn req(k: u8, q: u32, what: u8, to: u8, act: u8) -> Vec<u8> { match k { 0 => protocol::ReqP { what, to, act }.pack(q, None), 1 => protocol::ReqS { what, to, act }.pack(q, None), 2 => protocol::ReqN { what, to, act }.pack(q, None), _ => protocol::G::ReqM { what, to, act }.pack(q, None) }.unwrap() }
pub fn bea(q: u32, what: u8, act: u8) -> Vec<u8> { protocol::Bea { what, act }.pack(q, None).unwrap() }
pub fn garbage() -> Vec<u8> { let mut b = req(0, 1, 0, 0, 0); b[4] ^= 0x55; b }
struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, SeqCst) } }
type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub struct Run { main: Option<Fut>, tx: tokio::sync::mpsc::UnboundedSender<Events<StubErr>>, apps: Vec<Fut> }
impl Run {
    pub fn new(ident: Pi, err: Ce) -> Self {
        let (stub, tx) = stub();
        let mut o = producer::Options::new(); o.producer_indentification_strategy(ident); o.consumer_error_handeling_strategy(err);
        sh(|s| { s.gone = 0xffff });
        let mut r = Run { main: Some(Box::pin(async move { let r = p::run(stub, o, p::Context::new()).await; note(Obs::End(r.is_ok())) })), tx, apps: vec![] };
        r.ev(Events::Ready); r
    }
    pub fn settle(&mut self) {
        let flag = Arc::new(Flag(AtomicBool::new(true))); let w = Waker::from(flag.clone()); let mut cx = TaskContext::from_waker(&w);
        for _ in 0..500 {
            flag.0.store(false, SeqCst);
            if let Some(f) = self.main.as_mut() { if f.as_mut().poll(&mut cx).is_ready() { self.main = None } }
            self.apps.retain_mut(|f| f.as_mut().poll(&mut cx).is_pending());
            if !flag.0.load(SeqCst) { break }
        }
    }
    /// Gives an event of the transport and waits until everything has settled; what was noted meanwhile is returned.
    pub fn ev(&mut self, e: Events<StubErr>) -> Vec<Obs> {
        match &e { Events::Connected(u) => sh(|s| s.gone &= !(1 << num(*u))), Events::Disconnected(u) => sh(|s| s.gone |= 1 << num(*u)), _ => {} }
        let _ = self.tx.send(e); self.settle(); sh(|s| std::mem::take(&mut s.log))
    }
    pub fn from(&mut self, u: u8, b: Vec<u8>) -> Vec<Obs> { self.ev(Events::Received(uid(u), b)) }
    pub fn join(&mut self, u: u8) { self.ev(Events::Connected(uid(u))); self.from(u, key(1, u as u16, Some(4))); let l = self.from(u, hello(2, true)); assert!(l.contains(&Obs::Send(u, 2, Msg::HashResp(false))), "{:?}", l); }
    pub fn control(&self) -> Control<StubErr, StubCtl> { sh(|s| s.ctl.as_ref().and_then(|c| c.downcast_ref::<Control<StubErr, StubCtl>>().cloned())).expect("control") }
    pub fn app(&mut self, f: impl Future<Output = ()> + 'static) -> Vec<Obs> { self.apps.push(Box::pin(f)); self.settle(); sh(|s| std::mem::take(&mut s.log)) }
}
pub fn handled(l: &[Obs]) -> usize { l.iter().filter(|o| matches!(o, Obs::H { .. })).count() }
pub fn sends(l: &[Obs]) -> Vec<(u8, u32, Msg)> { l.iter().filter_map(|o| if let Obs::Send(u, q, m) = o { Some((*u, *q, *m)) } else { None }).collect() }
