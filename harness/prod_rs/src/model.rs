//! What the producer has to do, written from the properties: a sequential machine with four queues. Which queue is served
//! next is open; everything else is fixed, except where several behaviours are listed as alternatives.
use crate::rig::*;
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Copy, Debug, Default)]
pub struct Cfg { pub ident: u8, pub err: u8, pub mode: [(u8, u8, u8); 2] }
#[derive(Clone, Debug, PartialEq)]
pub enum Item { Key(u16, Option<u8>), HashOk, HashBad(u8), Req(u8, u8, u8, u8), Bea(u8, u8, u8), Stray, Bad(u8) }
#[derive(Clone, Debug, PartialEq)]
pub enum Input { Ready, Conn(u8), Dis(u8), Recv(u8, Vec<(u32, Item)>), Part(u8, u32, Item, bool), App(u8, u8, u8, u8), Shutdown(u8), Resume, Fail(u8), FailDisc, TErr(u8), ConnErr(u8), SrvErr, SrvShutdown, Listen(u8) }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Change { Key(u16, Option<u8>, bool), Asg(Option<u32>, Option<bool>, u8, bool) }
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Con { conf: bool, hash: bool, disc: bool, id: Ident }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Exp { O(Obs), Gate, Stop, Emit }
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct St { srv: VecDeque<usize>, app: VecDeque<(u8, u8, u8, u8)>, idq: VecDeque<(u8, Change)>, conf: VecDeque<u8>, cons: BTreeMap<u8, Con>, gone: u16, fail: u16, stop: bool, asked: bool, down: bool, shut: bool, end: bool, listen: u8 }
type Alt = Vec<(St, Vec<Exp>)>;

pub struct Model<'a> { pub cfg: Cfg, pub inputs: &'a [Input], pub log: &'a [Obs], pub best: std::cell::Cell<usize>, pub work: std::cell::Cell<u64> }

impl<'a> Model<'a> {
    fn all(st: &St) -> u16 { st.cons.keys().fold(0, |m, u| m | 1 << u) }
    fn keyed(st: &St) -> u16 { st.cons.iter().filter(|(_, c)| c.id.key.map(|k| k.0 == 2).unwrap_or(false)).fold(0, |m, (u, _)| m | 1 << u) }
    fn asged(st: &St) -> u16 { st.cons.iter().filter(|(_, c)| c.id.asg.map(|a| a.0 == Some(7)).unwrap_or(false)).fold(0, |m, (u, _)| m | 1 << u) }
    fn enter(&self, st: &mut St, o: &mut Vec<Exp>, kind: u8, u: u8, id: Ident, w: u8, to: u8, act: u8) -> Vec<u8> {
        o.push(Exp::O(Obs::H { kind, u, w, to, ident: id, all: Self::all(st), k2: Self::keyed(st), a7: Self::asged(st) }));
        if u != 0 { match act {
            1 => st.idq.push_back((u, Change::Key(2, None, false))),
            2 => st.idq.push_back((u, Change::Key(2, Some(5), true))),
            13 => st.idq.push_back((u, Change::Key(3, None, true))),
            3 => st.idq.push_back((u, Change::Asg(Some(7), None, 1, false))),
            4 => st.idq.push_back((u, Change::Asg(None, Some(true), 2, false))),
            5 => st.idq.push_back((u, Change::Asg(Some(8), None, 3, true))),
            7 => o.push(Exp::O(Obs::Disc(u))),
            _ => {}
        } }
        match act {
            8 => o.push(Exp::Stop),
            9 => o.push(Exp::Gate),
            10 => { let l: Vec<u8> = st.cons.keys().copied().collect(); for v in l { st.idq.push_back((v, Change::Asg(Some(7), None, 9, false))) } }
            12 => { if st.cons.contains_key(&2) { st.idq.push_back((2, Change::Key(2, Some(9), false))) } }
            11 => o.push(Exp::Emit),
            _ => {}
        }
        let own = if u == 0 { 1 } else { u };
        let m = match to { 0 => Self::all(st), 1 | 5 => Self::all(st) & !(1 << own), 2 => 0, 3 => 14, 4 => Self::keyed(st), _ => Self::all(st) & !(1 << own) };
        (1..16).filter(|b| m >> b & 1 == 1).collect()
    }
    fn send(st: &St, o: &mut Vec<Exp>, u: u8, seq: u32, m: Msg) -> bool { let f = st.fail >> u & 1 == 1; o.push(Exp::O(if f { Obs::Fail(u) } else { Obs::Send(u, seq, m) })); !f }
    fn cast(st: &St, o: &mut Vec<Exp>, to: &[u8], m: Msg) { for u in to { Self::send(st, o, *u, 0, m); } }
    fn disconnect(st: &mut St, o: &mut Vec<Exp>, u: u8) { if let Some(c) = st.cons.get_mut(&u) { if !c.disc { c.disc = true; o.push(Exp::O(Obs::Disc(u))) } } }
    fn refuse(&self, st: &mut St, o: &mut Vec<Exp>, u: u8) {
        if self.cfg.err == 1 || self.cfg.err == 2 { Self::disconnect(st, o, u) }
        if self.cfg.err == 0 || self.cfg.err == 2 { o.push(Exp::O(Obs::Error(u))) }
    }
    fn message(&self, mut st: St, mut o: Vec<Exp>, u: u8, seq: u32, item: &Item) -> Alt {
        let c = match st.cons.get(&u) { Some(c) if !c.disc => c.clone(), _ => return vec![(st, o)] };
        match item {
            Item::Bad(_) => {}
            Item::Key(id, name) if !c.hash => {
                st.cons.get_mut(&u).unwrap().id.key = Some((*id, *name));
                if !Self::send(&st, &mut o, u, seq, Msg::KeyResp(u)) { self.refuse(&mut st, &mut o, u) }
            }
            Item::HashOk => {
                st.cons.get_mut(&u).unwrap().hash = true;
                if !Self::send(&st, &mut o, u, seq, Msg::HashResp(false)) { self.refuse(&mut st, &mut o, u) }
            }
            Item::HashBad(_) => {
                if !Self::send(&st, &mut o, u, seq, Msg::HashResp(true)) { self.refuse(&mut st, &mut o, u) }
                Self::disconnect(&mut st, &mut o, u); o.push(Exp::O(Obs::Error(u)));
            }
            _ if !c.hash || c.id.key.is_none() => { Self::disconnect(&mut st, &mut o, u); o.push(Exp::O(Obs::Error(u))) }
            _ if c.id.asg.is_none() && (1..4).contains(&self.cfg.ident) => {
                if self.cfg.ident >= 2 { Self::disconnect(&mut st, &mut o, u) }
                if self.cfg.ident != 2 { o.push(Exp::O(Obs::Error(u))) }
            }
            Item::Req(kind, w, to, act) => {
                let to = self.enter(&mut st, &mut o, *kind, u, c.id, *w, *to, *act); let w = *w;
                let second = [1u8, 2, 3]; let mut bc: Vec<(Vec<u8>, Msg)> = vec![];
                let resp = if w % 2 == 1 { if *kind == 3 { Msg::GErr(w) } else { Msg::Err(w) } } else { match kind {
                    0 => Msg::ResA(w),
                    1 => { bc.push((to, Msg::X(w))); if w == 2 { bc.push((second.to_vec(), Msg::Y(w))) } Msg::ResA(w) }
                    2 => if w == 0 { Msg::ResA(w) } else { Msg::ResB(w) },
                    _ => { if w >= 2 { bc.push((to, Msg::X(w))) } if w == 6 { bc.push((second.to_vec(), Msg::Z(w))) } if w < 4 { Msg::GResA(w) } else { Msg::ResB(w) } }
                } };
                if Self::send(&st, &mut o, u, seq, resp) { for (t, m) in &bc { Self::cast(&st, &mut o, t, *m) } if *act == 6 { o.push(Exp::O(Obs::Deferred)) } }
                else {
                    // whether broadcasts of an answer which could not be delivered are sent is left open
                    let (mut st2, mut o2) = (st.clone(), o.clone());
                    for (t, m) in &bc { Self::cast(&st2, &mut o2, t, *m) }
                    self.refuse(&mut st, &mut o, u); self.refuse(&mut st2, &mut o2, u);
                    return vec![(st, o), (st2, o2)];
                }
            }
            Item::Bea(kind, w, act) => {
                self.enter(&mut st, &mut o, 4 + *kind, u, c.id, *w, 0, *act);
                if *w % 2 == 1 {
                    let mut p = o.clone();
                    Self::send(&st, &mut o, u, seq, Msg::BeaConf(true)); o.push(Exp::O(Obs::Error(u)));
                    p.push(Exp::O(Obs::Error(u))); Self::send(&st, &mut p, u, seq, Msg::BeaConf(true));
                    return vec![(st.clone(), o), (st, p)];
                }
                if Self::send(&st, &mut o, u, seq, Msg::BeaConf(false)) { if *act == 6 { o.push(Exp::O(Obs::Deferred)) } }
                else { let (mut st2, mut o2) = (st.clone(), o.clone()); o.push(Exp::O(Obs::Error(u))); self.refuse(&mut st2, &mut o2, u); return vec![(st, o), (st2, o2)]; }
            }
            _ => {}
        }
        vec![(st, o)]
    }
    fn chunk(&self, mut st: St, u: u8, items: &[(u32, Item)]) -> Alt {
        let mut o = vec![];
        match st.cons.get(&u) {
            None => { self.refuse(&mut st, &mut o, u); return vec![(st, o)] }
            Some(c) if !c.conf => {
                let again = c.disc; Self::disconnect(&mut st, &mut o, u);
                let quiet = (st.clone(), o.clone()); o.push(Exp::O(Obs::Error(u)));
                return if again { vec![(st, o), quiet] } else { vec![(st, o)] };
            }
            Some(c) if c.disc => return vec![(st, o)],
            _ => {}
        }
        if items.iter().any(|(_, i)| matches!(i, Item::Bad(_))) { self.refuse(&mut st, &mut o, u) }
        let mut alt = vec![(st, o)];
        for (q, i) in items { alt = alt.into_iter().flat_map(|(s, o)| self.message(s, o, u, *q, i)).collect() }
        alt
    }
    fn handler_cast(&self, st: &mut St, o: &mut Vec<Exp>, n: usize, u: u8, id: Ident) {
        let (w, to, act) = self.cfg.mode[n];
        let to = self.enter(st, o, 10 + n as u8, u, id, w, to, act);
        if w % 2 == 1 { return; }
        if n == 0 { if w == 2 { Self::cast(st, o, &to, Msg::X(w)) } } else { Self::cast(st, o, &to, Msg::Y(w)) }
        if act == 6 { o.push(Exp::O(Obs::Deferred)) }
    }
    fn step(&self, st: &St, q: u8) -> Alt {
        let mut s = st.clone(); let mut o = vec![];
        match q {
            0 => { let i = match s.srv.pop_front() { Some(i) => i, None => return vec![] };
                match &self.inputs[i] {
                    Input::Ready => o.push(Exp::O(Obs::Ready)),
                    Input::Conn(u) => {
                        self.handler_cast(&mut s, &mut o, 0, *u, Ident::default());
                        s.cons.insert(*u, Con::default()); s.conf.push_back(*u);
                    }
                    Input::Dis(u) => if let Some(c) = s.cons.remove(u) { self.handler_cast(&mut s, &mut o, 1, *u, c.id) },
                    Input::Recv(u, items) => return self.chunk(s, *u, items),
                    Input::Part(u, q, item, first) => return self.chunk(s, *u, &if *first { vec![] } else { vec![(*q, item.clone())] }),
                    Input::TErr(u) | Input::ConnErr(u) => o.push(Exp::O(Obs::Error(*u))),
                    Input::SrvErr => o.push(Exp::O(Obs::Error(0))),
                    Input::SrvShutdown => { s.stop = true; s.asked = true },
                    _ => unreachable!(),
                } }
            1 => { let (kind, w, to, act) = match s.app.pop_front() { Some(x) => x, None => return vec![] };
                let to = self.enter(&mut s, &mut o, 20 + kind, 0, Ident::default(), w, to, act);
                if w % 2 == 0 {
                    if kind == 0 { Self::cast(&s, &mut o, &to, Msg::X(w)); if w == 2 { Self::cast(&s, &mut o, &[1, 2, 3], Msg::Z(w)) } } else if w == 2 { Self::cast(&s, &mut o, &to, Msg::Y(w)) }
                    if act == 6 { o.push(Exp::O(Obs::Deferred)) }
                } }
            2 => { let (u, ch) = match s.idq.pop_front() { Some(x) => x, None => return vec![] };
                match s.cons.get_mut(&u) {
                    None => return vec![(s.clone(), vec![Exp::O(Obs::Error(u))]), (s, vec![])],
                    Some(c) => match ch {
                        Change::Key(id, name, over) => c.id.key = Some(match c.id.key { Some(k) if !over => (id, name.or(k.1)), _ => (id, name) }),
                        Change::Asg(a, b, l, over) => c.id.asg = Some(match c.id.asg { Some(k) if !over => (a.or(k.0), b.or(k.1), l), _ => (a, b, l) }),
                    },
                } }
            _ => { let u = match s.conf.pop_front() { Some(u) => u, None => return vec![] };
                match s.cons.get_mut(&u) {
                    None => return vec![(s.clone(), vec![Exp::O(Obs::Error(u))]), (s, vec![])],
                    Some(c) => { c.conf = true; if !Self::send(&s, &mut o, u, 0, Msg::Confirm) { let x = (s.clone(), o.clone()); self.refuse(&mut s, &mut o, u); return vec![(s, o), x] } }
                } }
        }
        vec![(s, o)]
    }
    fn absorb(&self, st: &mut St, i: usize) {
        match &self.inputs[i] {
            Input::App(k, w, t, a) => st.app.push_back((*k, *w, *t, *a)),
            Input::Shutdown(_) => { st.stop = true; st.asked = true },
            Input::Listen(n) => { st.stop = true; st.listen = *n }
            Input::Resume | Input::FailDisc => {}
            Input::Fail(u) => st.fail ^= 1 << u,
            x => { if let Input::Dis(u) = x { st.gone |= 1 << u } if let Input::Conn(u) = x { st.gone &= !(1 << u) } st.srv.push_back(i) }
        }
    }
    /// Everything which may be logged between or inside of steps.
    fn aside(&self, st: &mut St, pos: usize) -> bool {
        match self.log.get(pos) {
            Some(Obs::In(i)) => { self.absorb(st, *i); true }
            Some(Obs::SrvDown) if st.stop && !st.down => { st.down = true; true }
            Some(Obs::WaitDone(_)) if st.down => true,
            _ => false,
        }
    }
    fn outputs(&self, mut st: St, outs: &[Exp], mut pos: usize) -> Option<(St, usize)> {
        for e in outs {
            match e {
                Exp::O(x) => loop {
                    self.best.set(self.best.get().max(pos));
                    if self.log.get(pos) == Some(x) { pos += 1; break; }
                    if let Obs::Send(u, _, _) = x { if st.gone >> u & 1 == 1 { break; } }
                    if self.aside(&mut st, pos) { pos += 1; continue; }
                    return None;
                },
                Exp::Stop => { st.stop = true; st.asked = true }
                Exp::Emit => st.app.push_back((0, 0, 0, 0)),
                Exp::Gate => {
                    loop { if self.log.get(pos) == Some(&Obs::Yield) { pos += 1; break; } if self.aside(&mut st, pos) { pos += 1; continue; } return None; }
                    loop { match self.log.get(pos) { Some(Obs::Resume) => { pos += 1; break; } Some(Obs::Quiet) => pos += 1, _ => { if self.aside(&mut st, pos) { pos += 1 } else { return None } } } }
                }
            }
        }
        Some((st, pos))
    }
    fn go(&self, st: &St, pos: usize) -> bool {
        self.best.set(self.best.get().max(pos)); self.work.set(self.work.get() + 1);
        if self.work.get() > 200_000 { return false; }
        let idle = st.srv.is_empty() && st.app.is_empty() && st.idq.is_empty() && st.conf.is_empty();
        match self.log.get(pos) {
            None => return if st.stop { st.end } else { idle },
            Some(Obs::Quiet) => if (st.stop && st.end) || (!st.stop && idle) { return self.go(st, pos + 1); },
            Some(Obs::Shut) if st.down && !st.shut => { let mut s = st.clone(); s.shut = true; if self.go(&s, pos + 1) { return true; } }
            Some(Obs::End(ok)) if st.shut && !st.end && (*ok == (st.listen != 2) || *ok && st.asked) => { let mut s = st.clone(); s.end = true; return self.go(&s, pos + 1); }
            _ => {}
        }
        if !st.shut {
            for q in 0..4 { for (s, o) in self.step(st, q) { if let Some((s, p)) = self.outputs(s, &o, pos) { if self.go(&s, p) { return true; } } } }
        }
        let mut s = st.clone();
        if self.aside(&mut s, pos) && self.go(&s, pos + 1) { return true; }
        false
    }
    pub fn holds(&self) -> bool { self.go(&St { gone: !0, ..Default::default() }, 0) }
}
