//! What the user of a generated producer writes: handlers which note what they see and act as the message tells them to.
use crate::p::implementation::{consumer::identification::{Filter, Identification}, producer::Control, protocol, scope::{AnonymousScope, Scope}};
use clibri::server;
use std::{any::Any, cell::RefCell, future::Future, pin::Pin, task::{Context as TaskContext, Poll}};
use uuid::Uuid;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Ident { pub key: Option<(u16, Option<u8>)>, pub asg: Option<(Option<u32>, Option<bool>, u8)> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Msg { Confirm, KeyResp(u8), HashResp(bool), BeaConf(bool), ResA(u8), ResB(u8), GResA(u8), Err(u8), GErr(u8), X(u8), Y(u8), Z(u8), Other }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Obs {
    In(usize), Quiet, Send(u8, u32, Msg), Fail(u8), Disc(u8), Ready, Shut, Error(u8), SrvDown, End(bool), WaitDone(bool), Yield, Resume, Deferred,
    H { kind: u8, u: u8, w: u8, to: u8, ident: Ident, all: u16, k2: u16, a7: u16 },
}
pub struct Shared { pub log: Vec<Obs>, pub mode: [(u8, u8, u8); 2], pub ctl: Option<Box<dyn Any>>, pub resumed: bool, pub fail: u16, pub fail_disc: bool, pub gone: u16, pub choices: Vec<(u32, u32)>, pub prefix: Vec<u32>, pub listen: u8, pub woken: bool }
thread_local! { pub static S: RefCell<Shared> = RefCell::new(Shared { log: vec![], mode: [(0, 0, 0); 2], ctl: None, resumed: false, fail: 0, fail_disc: false, gone: 0, choices: vec![], prefix: vec![], listen: 0, woken: false }); }
pub fn sh<R>(f: impl FnOnce(&mut Shared) -> R) -> R { S.with(|s| f(&mut s.borrow_mut())) }
pub fn note(o: Obs) { sh(|s| s.log.push(o)) }
pub fn uid(n: u8) -> Uuid { Uuid::from_u128(n as u128) }
pub fn num(u: Uuid) -> u8 { u.as_u128() as u8 }
#[no_mangle]
pub fn vf_choose(n: u32) -> u32 { sh(|s| { let i = s.choices.len(); let v = s.prefix.get(i).copied().unwrap_or(0); s.choices.push((v, n)); if v < n { v } else { 0 } }) }

pub fn second() -> Vec<Uuid> { vec![uid(1), uid(2), uid(3)] }
pub fn mode(n: usize) -> (u8, u8, u8) { sh(|s| s.mode[n]) }
fn mask(l: Vec<Uuid>) -> u16 { let mut m = 0; for u in l { let b = 1 << num(u); assert!(m & b == 0, "one consumer twice"); m |= b; } m }
fn ident(i: &Identification) -> Ident { Ident { key: i.key.as_ref().map(|k| (k.id, k.name)), asg: i.assigned.as_ref().map(|a| (a.uid, a.auth, a.level)) } }
fn recipients(f: &Filter<'_>, to: u8, own: Option<Uuid>) -> Vec<Uuid> {
    let mut l = match to {
        0 => f.all(),
        1 => f.except(&own.unwrap_or(uid(1))),
        2 => vec![],
        3 => second(),
        4 => f.filter(|i| i.key.as_ref().map(|k| k.id == 2).unwrap_or(false)),
        _ => f.exclude(vec![own.unwrap_or(uid(1)), uid(9)]),
    };
    l.sort(); l
}
struct Gate(bool);
impl Future for Gate {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut TaskContext<'_>) -> Poll<()> {
        if !self.0 { self.0 = true; note(Obs::Yield); }
        if sh(|s| s.resumed) { note(Obs::Resume); Poll::Ready(()) } else { Poll::Pending }
    }
}
fn watch<E: server::Error, C: server::Control<E>>(c: &Control<E, C>) { sh(|s| if s.ctl.is_none() { s.ctl = Some(Box::new(c.clone())) }) }
fn seen(kind: u8, u: u8, w: u8, to: u8, i: Ident, f: &Filter<'_>) {
    let (all, k2, a7) = (mask(f.all()), mask(f.filter(|i| i.key.as_ref().map(|k| k.id == 2).unwrap_or(false))), mask(f.filter(|i| i.assigned.as_ref().map(|a| a.uid == Some(7)).unwrap_or(false))));
    // selection by identifiers: nobody, one (listed or not), several in either order
    assert!(mask(f.exclude(vec![])) == all, "exclude of nobody");
    for x in 1..4u8 {
        assert!(mask(f.except(&uid(x))) == all & !(1 << x), "except of one");
        for y in 1..4u8 { assert!(mask(f.exclude(vec![uid(x), uid(y)])) == all & !(1 << x | 1 << y), "exclude of two"); }
    }
    note(Obs::H { kind, u, w, to, ident: i, all, k2, a7 });
}
fn asg(uid: Option<u32>, auth: Option<bool>, level: u8) -> protocol::AssignedId { protocol::AssignedId { uid, auth, level } }
async fn act_common<E: server::Error, C: server::Control<E>>(act: u8, f: &Filter<'_>, c: &Control<E, C>) {
    match act {
        8 => { let _ = c.shutdown(false).await; }
        9 => Gate(false).await,
        10 => { let mut l = f.all(); l.sort(); for u in l { f.filter(|i| { if i.uuid() == u { let _ = i.set_assign(asg(Some(7), None, 9), false); } false }); } }
        11 => { let _ = c.events.ev(protocol::Ev { what: 0, to: 0, act: 0 }).await; }
        12 => { f.filter(|i| { if num(i.uuid()) == 2 { let _ = i.set_key(protocol::SelfId { id: 2, name: Some(9) }, false); } false }); }
        _ => {}
    }
}
pub async fn enter<E: server::Error, C: server::Control<E>>(kind: u8, w: u8, to: u8, act: u8, s: &mut Scope<'_, E, C>) -> Vec<Uuid> {
    watch(s.control);
    let i = s.identification;
    seen(kind, num(i.uuid()), w, to, ident(i), s.filter);
    match act {
        1 => { let _ = i.set_key(protocol::SelfId { id: 2, name: None }, false); }
        2 => { let _ = i.set_key(protocol::SelfId { id: 2, name: Some(5) }, true); }
        3 => { let _ = i.set_assign(asg(Some(7), None, 1), false); }
        4 => { let _ = i.set_assign(asg(None, Some(true), 2), false); }
        5 => { let _ = i.set_assign(asg(Some(8), None, 3), true); }
        6 => s.deferred(Box::pin(async { note(Obs::Deferred) })),
        7 => { let _ = s.control.disconnect(i.uuid()).await; }
        13 => { let _ = i.set_key(protocol::SelfId { id: 3, name: None }, true); }
        _ => act_common(act, s.filter, s.control).await,
    }
    recipients(s.filter, to, Some(i.uuid()))
}
pub async fn enter_anonymous<E: server::Error, C: server::Control<E>>(kind: u8, w: u8, to: u8, act: u8, s: &mut AnonymousScope<'_, E, C>) -> Vec<Uuid> {
    watch(s.control);
    seen(20 + kind, 0, w, to, Ident::default(), s.filter);
    if act == 6 { s.deferred(Box::pin(async { note(Obs::Deferred) })) } else { act_common(act, s.filter, s.control).await }
    recipients(s.filter, to, None)
}
pub fn ready<E: server::Error, C: server::Control<E>>(c: &Control<E, C>) { watch(c); note(Obs::Ready) }
pub fn shutdown<E: server::Error, C: server::Control<E>>(_: &Control<E, C>) { note(Obs::Shut) }
pub fn error(u: Option<Uuid>) { note(Obs::Error(u.map(num).unwrap_or(0))) }
