//! What the consumer has to do, written from the properties, as an acceptor of the observed log.
use crate::rig::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, Debug, Default)]
pub struct Cfg { pub recon: bool, pub again: bool, pub on: u8, pub off: u8 }
pub const RECON: u64 = 5700;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum R { ResA, ResB, Err, GResA, GErr, Conf, Refuse, Other }
#[derive(Clone, Debug, PartialEq)]
pub enum Item { Confirm, KeyResp(u8), HashResp(bool), Odd(u8), Bc(u8, u8), Reply(u8, R, u8), Stray, Foreign, Bad(u8) }
#[derive(Clone, Debug, PartialEq)]
pub enum Input { Up, Recv(Vec<(u32, Item)>), Part(u32, Item, bool), Text, TErr, TDis, End(u8), Call(u8, u8, u8), Drop(u8), Wait, WaitR, Nap, NapR, Resume, FailSend }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum C { New, Sent(u32), Fin(Out, bool), Gone(u32), Lost, Over }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Auth { Idle, NeedKey, Key(u32), NeedHash, Hash(u32), Done }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Busy { No, Gate, Call(u8) }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct E { ev: Ev, sure: bool, opt: bool }
#[derive(Clone, Debug)]
pub struct St {
    gen: u8, phase: u8, auth: Auth, s: VecDeque<E>, ready: bool, ready_sure: bool, t: VecDeque<Ev>, serr: u8, rec: u8, calls: BTreeMap<u8, (u8, u8, C)>, busy: Busy,
    asked: bool, down: bool, causes: u8, slept: bool, nested: u8, failing: bool, asker: u8,
}

pub struct Model<'a> { pub cfg: Cfg, pub inputs: &'a [Input], pub log: &'a [Obs], pub best: usize, pub work: u64 }
impl<'a> Model<'a> {
    fn begin(&self, st: &mut St, error: bool, flag: bool, rec: u8) {
        if st.phase > 2 { return; }
        st.causes += 1;
        if st.phase == 2 { st.serr = 2; st.t.retain(|x| *x != Ev::Error); st.rec = if st.rec == rec || !self.cfg.recon { st.rec } else { 2 }; return; }
        st.phase = 2; st.serr = flag as u8; st.rec = if self.cfg.recon { rec } else { 0 };
        if error { st.t.push_back(Ev::Error) }
        st.t.push_back(Ev::Disconnected); st.t.push_back(Ev::Shutdown(false));
    }
    fn item(&self, st: &mut St, seq: u32, item: &Item) {
        if st.phase > 2 { return; }
        let push = |st: &mut St, ev: Ev, opt: bool| st.s.push_back(E { ev, sure: false, opt });
        match item {
            Item::Confirm => { if st.auth == Auth::Idle { st.auth = Auth::NeedKey } }
            Item::KeyResp(_) | Item::HashResp(_) | Item::Odd(_) => match (st.auth, item) {
                (Auth::Key(q), Item::KeyResp(0)) if q == seq => st.auth = Auth::NeedHash,
                // an address which is not one is noticed when the handshake ends
                (Auth::Key(q), Item::KeyResp(_)) if q == seq => { st.auth = Auth::NeedHash; st.failing = true }
                (Auth::Hash(q), Item::HashResp(false)) if q == seq => { st.auth = Auth::Done; if st.failing { self.begin(st, false, true, 0) } else { st.ready = true; st.ready_sure = false } }
                (Auth::Key(q), _) | (Auth::Hash(q), _) if q == seq => { st.auth = Auth::Done; self.begin(st, true, true, 0) }
                _ => push(st, Ev::Error, true),
            },
            Item::Bc(k, w) => push(st, Ev::Bc(*k, *w), false),
            Item::Reply(_, r, v) => {
                let id = st.calls.iter().find(|(_, c)| c.1 == st.gen && matches!(c.2, C::Sent(q) | C::Gone(q) if q == seq)).map(|x| *x.0);
                match id { None => push(st, Ev::Error, true), Some(id) => { let c = st.calls.get_mut(&id).unwrap(); if let C::Gone(_) = c.2 { c.2 = C::Over; push(st, Ev::Error, true); return; }
                    c.2 = C::Fin(match (c.0, r) {
                        (0, R::ResA) | (1, R::ResA) => Out::Resp(0, *v), (0, R::Err) | (1, R::Err) | (2, R::Err) | (3, R::GErr) => Out::Err(*v),
                        (2, R::ResA) | (3, R::GResA) => Out::Resp(1, *v), (2, R::ResB) | (3, R::ResB) => Out::Resp(2, *v),
                        (4, R::Conf) | (5, R::Conf) => Out::Ok, (4, R::Refuse) | (5, R::Refuse) => Out::Refused, _ => Out::Unexpected }, false) } }
            }
            Item::Stray | Item::Foreign => push(st, Ev::Error, false),
            Item::Bad(_) => {}
        }
    }
    fn absorb(&self, st: &mut St, i: usize) {
        match &self.inputs[i] {
            Input::Up | Input::TDis => {}
            Input::Recv(items) => {
                if items.iter().any(|(_, i)| matches!(i, Item::Bad(_))) && st.phase <= 2 { st.s.push_back(E { ev: Ev::Error, sure: false, opt: false }) }
                for (q, x) in items { self.item(st, *q, x) }
            }
            Input::Part(q, x, first) => if !first { self.item(st, *q, x) },
            Input::Text | Input::TErr => if st.phase <= 2 { st.s.push_back(E { ev: Ev::Error, sure: false, opt: false }) },
            Input::End(n) => self.begin(st, *n == 2, *n == 2, (*n == 1) as u8),
            Input::Call(kind, id, gen) => self.call(st, *kind, *id, *gen),
            Input::Drop(id) => if let Some(c) = st.calls.get_mut(id) { c.2 = match c.2 { C::New => C::Lost, C::Sent(q) => C::Gone(q), _ => C::Over } },
            Input::Wait => { for c in st.calls.values_mut() { if c.0 < 4 { if let C::Sent(q) = c.2 { c.2 = C::Gone(q | 1 << 31) } } } if st.phase == 4 { st.slept = true } }
            Input::WaitR => if st.phase == 4 { st.slept = true },
            // most of the time, but not all of it
            Input::Nap | Input::NapR => {},
            Input::Resume => {}
            Input::FailSend => {}
        }
    }
    fn call(&self, st: &mut St, kind: u8, id: u8, gen: u8) {
        st.calls.insert(id, (kind, gen, C::New));
        if kind == 6 && gen == st.gen && st.phase <= 2 { if !st.asked { st.asker = id } st.asked = true; self.begin(st, false, false, 0) }
    }
    fn accept(&self, st: &St, o: &Obs) -> Vec<St> {
        let mut s = st.clone(); let one = |s: St| vec![s];
        match o {
            Obs::In(i) => { self.absorb(&mut s, *i); one(s) }
            Obs::Connect => { if !(st.phase == 0 || st.phase == 4 && st.slept) { return vec![]; }
                s.gen += 1; s.phase = 1; s.auth = Auth::Idle; s.s.clear(); s.ready = false; s.t.clear(); s.asked = false; s.down = false; s.causes = 0; s.slept = false; s.failing = false; one(s) }
            Obs::Down => { if !st.asked || st.down { return vec![]; } s.down = true; one(s) }
            Obs::Fail => { self.begin(&mut s, false, true, 0); one(s) }
            Obs::Send(seq, m) => {
                let taken = |q: u32| st.calls.values().any(|c| c.1 == st.gen && matches!(c.2, C::Sent(x) | C::Gone(x) if x == q)) || st.auth == Auth::Key(q) || st.auth == Auth::Hash(q);
                if st.phase > 2 || taken(*seq) { return vec![]; }
                match m {
                    Msg::Key(2, Some(4)) if st.auth == Auth::NeedKey => { s.auth = Auth::Key(*seq); one(s) }
                    Msg::Hash(true) if st.auth == Auth::NeedHash => { s.auth = Auth::Hash(*seq); one(s) }
                    Msg::Req(k, id) | Msg::Bea(k, id) => match s.calls.get_mut(id) {
                        Some((kind, gen, c)) if *gen == st.gen && k == kind && matches!(c, C::New | C::Lost) => { *c = if *c == C::New { C::Sent(*seq) } else { C::Gone(*seq) }; one(s) }
                        _ => vec![],
                    },
                    _ => vec![],
                }
            }
            Obs::Done(id, out) => {
                if st.busy == Busy::Call(*id) { s.busy = Busy::No }
                let c = match s.calls.get_mut(id) { Some(c) => c, None => return vec![] };
                let ending = c.1 != st.gen || st.phase >= 2;
                let ok = match c.2 {
                    C::Fin(x, sure) => x == *out || ending && !sure && *out == Out::Failed,
                    C::Gone(q) if q >> 31 == 1 => { if *out == Out::Timeout { c.2 = C::Gone(q & !(1 << 31)); return one(s); } false }
                    C::New | C::Sent(_) => ending && (*out == Out::Failed && (c.0 != 6 || c.1 != st.gen || st.asker != *id || st.causes > 1) || c.0 == 6 && c.1 == st.gen && st.down && *out == Out::Ok),
                    _ => false,
                };
                if !ok { return vec![]; } c.2 = C::Over; one(s)
            }
            Obs::Ev(e) => {
                if st.busy != Busy::No { return vec![]; }
                let mut l = vec![];
                if st.phase == 1 || st.phase == 2 {
                    for k in 0..st.s.len() {
                        if st.s[k].ev == *e { let mut n = st.clone(); n.s.drain(..=k); l.push(n); }
                        if !(st.s[k].opt || st.phase == 2 && !st.s[k].sure) { break; }
                    }
                    if *e == Ev::Connected && st.ready { let mut n = st.clone(); n.ready = false; l.push(n) }
                }
                if st.phase == 2 {
                    let must = st.s.iter().any(|x| x.sure && !x.opt) || st.ready && st.ready_sure;
                    match (st.t.front(), e) {
                        (Some(Ev::Error), Ev::Error) => { let mut n = st.clone(); n.t.pop_front(); l.push(n) }
                        (Some(Ev::Disconnected), Ev::Disconnected) if !must => { let mut n = st.clone(); n.t.pop_front(); l.push(n) }
                        (Some(Ev::Shutdown(_)), Ev::Shutdown(b)) if !must && (st.serr == 2 || (st.serr == 1) == *b) => { let mut n = st.clone(); n.t.pop_front(); n.s.clear(); n.ready = false; n.phase = 3; l.push(n) }
                        _ => {}
                    }
                    if *e == Ev::Error { l.push(st.clone()) }
                }
                let act = match e { Ev::Connected => self.cfg.on, Ev::Disconnected => self.cfg.off, Ev::Bc(_, w) => *w, _ => 0 };
                for n in l.iter_mut() { match act {
                    9 => n.busy = Busy::Gate,
                    7 | 8 => { n.nested += 1; let id = 99 + n.nested; n.busy = Busy::Call(id); let g = n.gen; self.call(n, if act == 8 { 0 } else { 6 }, id, g) }
                    _ => {}
                } }
                l
            }
            Obs::Yield => if st.busy == Busy::Gate { one(s) } else { vec![] },
            Obs::Resume => if st.busy == Busy::Gate { s.busy = Busy::No; one(s) } else { vec![] },
            Obs::Reconnect(t) => { if st.phase != 3 || st.rec == 0 || *t != RECON { return vec![]; } s.phase = if self.cfg.again { 4 } else { 5 }; one(s) }
            Obs::Quiet => {
                let busy = st.busy != Busy::No;
                if let Busy::Call(id) = st.busy { if st.calls[&id].0 == 6 { return vec![] } }
                for c in st.calls.values() {
                    let dead = c.1 != st.gen || st.phase >= 2;
                    match c.2 { C::New | C::Fin(..) if !(c.0 == 6 && busy) => return vec![], C::Sent(_) if dead => return vec![], C::Gone(q) if q >> 31 == 1 => return vec![], _ => {} }
                }
                match st.phase {
                    0 => return vec![],
                    1 => if !busy && (st.s.iter().any(|x| !x.opt) || st.ready) || matches!(st.auth, Auth::NeedKey | Auth::NeedHash) { return vec![] },
                    2 => if !busy { return vec![] },
                    3 => if st.rec == 1 { return vec![] },
                    4 => if st.slept { return vec![] },
                    _ => {}
                }
                if st.phase <= 2 && st.asked && !st.down && st.causes == 1 { return vec![] }
                if st.phase == 1 { for x in s.s.iter_mut() { x.sure = true } s.ready_sure = true; } if !busy { s.s.retain(|x| !x.opt) }
                one(s)
            }
        }
    }
    fn go(&mut self, st: &St, pos: usize) -> bool {
        self.best = self.best.max(pos); self.work += 1;
        if self.work > 100_000 { return false; }
        match self.log.get(pos) { None => true, Some(o) => { for n in self.accept(st, o) { if self.go(&n, pos + 1) { return true; } } false } }
    }
    pub fn holds(&mut self) -> bool {
        let st = St { gen: 0, phase: 0, auth: Auth::Idle, s: VecDeque::new(), ready: false, ready_sure: false, t: VecDeque::new(), serr: 0, rec: 0, calls: BTreeMap::new(), busy: Busy::No, asked: false, down: false, causes: 0, slept: false, nested: 0, failing: false, asker: 0 };
        self.go(&st, 0)
    }
}
