#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_parens)]
//! Explores the generated Rust consumer: every script of the family, every bounded choice of which ready channel is served.
#[path = "c/mod.rs"] mod c;
mod rig; mod stub; mod model; mod families;
use c::implementation::{consumer::{hash, ConsumerGetter}, protocol};
use clibri::client::{Event, Message};
use model::{Cfg, Input, Item, Model, R, RECON};
use protocol::PackingStruct;
use rig::*;
use std::{collections::BTreeMap, future::Future, pin::Pin, sync::{atomic::{AtomicBool, Ordering::SeqCst}, Arc, Mutex}, task::{Context as TaskContext, Poll, Wake, Waker}};
use stub::*;
use tokio::time::{sleep, Duration};

/// How an input follows the one before it: after everything has settled, at once, or after every task had some turns.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Join { Quiet, Burst, Turn(u8) }
#[derive(Clone, Debug)]
pub struct Job { pub cfg: Cfg, pub script: Vec<(Join, Input)>, pub dev: u32 }
pub const TIMEOUT: u64 = 20700;

pub fn decode(b: &[u8]) -> Vec<(u32, Msg)> {
    use protocol::{AvailableMessages as A, InternalServiceGroup::AvailableMessages as I, G::AvailableMessages as G};
    let mut r: protocol::Buffer<protocol::AvailableMessages> = protocol::Buffer::new();
    let mut out = vec![];
    if r.chunk(&b.to_vec(), None).is_err() { out.push((0, Msg::Other)) }
    while let Some(x) = r.next() {
        out.push((x.header.sequence, match x.msg {
            A::SelfId(k) => Msg::Key(k.id, k.name),
            A::InternalServiceGroup(I::HashRequest(h)) => Msg::Hash(h.protocol == hash::PROTOCOL && h.workflow == hash::WORKFLOW),
            A::ReqP(m) => Msg::Req(0, m.what), A::ReqS(m) => Msg::Req(1, m.what), A::ReqN(m) => Msg::Req(2, m.what), A::G(G::ReqM(m)) => Msg::Req(3, m.what),
            A::Bea(m) => Msg::Bea(4, m.what), A::G(G::Beb(m)) => Msg::Bea(5, m.what),
            _ => Msg::Other,
        }));
    }
    out
}
fn uuid() -> Option<String> { Some(String::from("00000000-0000-0000-0000-000000000001")) }
fn pack(seq: u32, i: &Item) -> Vec<u8> {
    use protocol::InternalServiceGroup as I;
    let r = match i {
        Item::Confirm => I::ConnectConfirmationBeacon {}.pack(seq, None),
        Item::KeyResp(n) => I::SelfKeyResponse { uuid: if *n == 0 { uuid().unwrap() } else { "none".into() } }.pack(seq, uuid()),
        Item::HashResp(e) => I::HashResponse { error: if *e { Some(String::new()) } else { None } }.pack(seq, uuid()),
        Item::Odd(n) => match n { 0 => I::BeaconConfirmation { error: None }.pack(seq, None), 1 => protocol::BcX { what: 0 }.pack(seq, None), 2 => I::HashResponse { error: None }.pack(seq, None), _ => I::SelfKeyResponse { uuid: uuid().unwrap() }.pack(seq, None) },
        Item::Bc(k, w) => { let what = *w; match k { 0 => protocol::BcX { what }.pack(0, None), 1 => protocol::BcY { what }.pack(0, None), _ => protocol::G::BcZ { what }.pack(0, uuid()) } }
        Item::Reply(_, r, v) => { let what = *v; match r {
            R::ResA => protocol::ResA { what }.pack(seq, uuid()), R::ResB => protocol::ResB { what }.pack(seq, uuid()), R::Err => protocol::Err { what }.pack(seq, uuid()),
            R::GResA => protocol::G::ResA { what }.pack(seq, uuid()), R::GErr => protocol::G::Err { what }.pack(seq, uuid()),
            R::Conf => I::BeaconConfirmation { error: None }.pack(seq, uuid()), R::Refuse => I::BeaconConfirmation { error: Some(if what == 4 { "" } else { "refused" }.into()) }.pack(seq, uuid()), R::Other => protocol::Stray { what }.pack(seq, None) } }
        Item::Stray => protocol::ResA { what: 0 }.pack(7777, uuid()),
        Item::Foreign => protocol::Stray { what: 1 }.pack(0, None),
        Item::Bad(n) => { let mut b = protocol::BcX { what: 0 }.pack(0, None).unwrap(); match n { 0 => b[4] ^= 0x55, 1 => b[0..4].copy_from_slice(&0xfffffff0u32.to_le_bytes()), _ => b[26] ^= 0x7f } Ok(b) }
    };
    r.expect("packing")
}
struct Nop;
impl Wake for Nop { fn wake(self: Arc<Self>) {} }

async fn drive(cfg: Cfg, script: Vec<(Join, Input)>) -> Vec<Input> {
    let mut inputs: Vec<Input> = vec![];
    let mut tasks: BTreeMap<u8, tokio::task::JoinHandle<()>> = BTreeMap::new();
    let mut cons: Vec<c::Consumer<StubErr>> = vec![];
    let getter: ConsumerGetter<StubErr> = c::connect(Stub, c::Context::new(), c::Options { reconnection: if cfg.recon { c::ReconnectionStrategy::Reconnect(RECON) } else { c::ReconnectionStrategy::DoNotReconnect }, request_timeout: TIMEOUT, key: protocol::SelfId { id: 2, name: Some(4) } }).await.ok().unwrap();
    let mut confirmed = 0;
    let settle = || sleep(Duration::from_millis(1));
    settle().await; note(Obs::Quiet);
    for (k, (join, inp)) in script.iter().enumerate() {
        match join { _ if k == 0 => {} Join::Quiet => { settle().await; note(Obs::Quiet) } Join::Turn(n) => for _ in 0..*n { tokio::task::yield_now().await }, Join::Burst => {} }
        while cons.len() < sh(|s| s.gens) as usize { match getter.get().await { Ok(x) => cons.push(x), Err(_) => break } }
        let mut inp = inp.clone();
        // numbers of answers are those which the consumer gave to its messages
        let known = |q: &mut u32, i: &Item| -> bool { match i {
            Item::KeyResp(_) => *q = sh(|s| s.hand[0]), Item::HashResp(_) => *q = sh(|s| s.hand[1]),
            Item::Odd(n) => *q = sh(|s| s.hand[(*n == 0 || *n == 3) as usize]),
            Item::Reply(id, ..) => *q = sh(|s| s.seqs.get(id).copied().unwrap_or(u32::MAX)), _ => {} } *q != u32::MAX };
        let ok = match &mut inp {
            Input::Recv(l) => { let mut ok = true; for (q, i) in l.iter_mut() { ok &= known(q, i); if *i == Item::Confirm { ok &= confirmed < sh(|s| s.gens); confirmed = sh(|s| s.gens) } } ok }
            Input::Part(q, i, first) => (*first || matches!(inputs.last(), Some(Input::Part(_, _, true)))) && known(q, i),
            Input::Call(_, _, gen) => (*gen as usize) <= cons.len() && *gen > 0,
            Input::Drop(id) => tasks.contains_key(id),
            Input::End(_) => sh(|s| s.end == 0), _ => true };
        if !ok { continue; }
        let i = inputs.len(); inputs.push(inp.clone());
        let ev = match &inp {
            Input::Up => Some(Event::Connected("127.0.0.1:1".parse().unwrap())), Input::TDis => Some(Event::Disconnected), Input::TErr => Some(Event::Error(StubErr)),
            Input::Text => Some(Event::Message(Message::Text("x".into()))),
            Input::Recv(items) => Some(Event::Message(Message::Binary(items.iter().flat_map(|(q, i)| pack(*q, i)).collect()))),
            Input::Part(q, i, first) => { let b = pack(*q, i); let cut = 22 + (b.len() % 9); Some(Event::Message(Message::Binary(if *first { b[..cut].to_vec() } else { b[cut..].to_vec() }))) }
            _ => None,
        };
        note(Obs::In(i));
        if let Some(ev) = ev { sh(|s| { let tx: &Tx = s.tx.as_ref().unwrap().downcast_ref().unwrap(); let _ = tx.send(ev); }) }
        match inp {
            Input::End(n) => { sh(|s| s.end = n); wake() }
            Input::Call(kind, id, gen) => {
                let c = cons[gen as usize - 1].clone();
                let mut f = Box::pin(async move { let o = call(c, kind, id).await; note(Obs::Done(id, o)) });
                let w = Waker::from(Arc::new(Nop));
                if f.as_mut().poll(&mut TaskContext::from_waker(&w)).is_pending() { tasks.insert(id, tokio::spawn(f)); }
            }
            Input::Drop(id) => { tasks.remove(&id).unwrap().abort(); tokio::task::yield_now().await }
            Input::Wait => sleep(Duration::from_millis(TIMEOUT + 500)).await,
            Input::Nap => sleep(Duration::from_millis(TIMEOUT - 400)).await,
            Input::NapR => sleep(Duration::from_millis(RECON - 400)).await,
            Input::WaitR => sleep(Duration::from_millis(RECON + 500)).await,
            Input::Resume => { sh(|s| s.resumed = true); wake() }
            Input::FailSend => sh(|s| s.fail = true),
            _ => {}
        }
    }
    settle().await; note(Obs::Quiet);
    if sh(|s| s.log.iter().filter(|o| **o == Obs::Yield).count() != s.log.iter().filter(|o| **o == Obs::Resume).count()) { inputs.push(Input::Resume); note(Obs::In(inputs.len() - 1)); sh(|s| s.resumed = true); wake(); settle().await; note(Obs::Quiet); }
    inputs
}
fn wake() { for w in sh(|s| std::mem::take(&mut s.wakers)) { w.wake() } }
pub fn exec(cfg: &Cfg, script: &[(Join, Input)], prefix: &[u32]) -> (Vec<Input>, Vec<Obs>, Vec<(u32, u32)>, Option<String>) {
    sh(|s| *s = Shared { on: cfg.on, off: cfg.off, again: cfg.again, prefix: prefix.to_vec(), hand: [u32::MAX; 2], ..Default::default() });
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    let (cfg, script) = (*cfg, script.to_vec());
    let r = rt.block_on(async { tokio::spawn(drive(cfg, script)).await });
    drop(rt);
    let (log, ch) = sh(|s| (std::mem::take(&mut s.log), std::mem::take(&mut s.choices)));
    let panicked = PANIC.with(|p| p.borrow_mut().take());
    match r { Ok(i) => (i, log, ch, panicked), Err(e) => (vec![], log, ch, Some(panicked.unwrap_or_else(|| "panic of the harness".into()))) }
}
thread_local! { static PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None); }

/// One long session: many calls stay open while many others come and go. Every open call has its own number and every answer
/// (in reverse order at the end) reaches its call.
async fn marathon(turns: u32, open: u8) -> Result<u64, String> {
    let getter: ConsumerGetter<StubErr> = c::connect(Stub, c::Context::new(), c::Options { reconnection: c::ReconnectionStrategy::DoNotReconnect, request_timeout: TIMEOUT, key: protocol::SelfId { id: 2, name: Some(4) } }).await.ok().unwrap();
    let send = |q: u32, i: Item| { let b = pack(q, &i); sh(|s| { let tx: &Tx = s.tx.as_ref().unwrap().downcast_ref().unwrap(); let _ = tx.send(Event::Message(Message::Binary(b))); }) };
    let settle = || sleep(Duration::from_millis(1));
    settle().await;
    sh(|s| { let tx: &Tx = s.tx.as_ref().unwrap().downcast_ref().unwrap(); let _ = tx.send(Event::Connected("127.0.0.1:1".parse().unwrap())); });
    for i in [Item::Confirm, Item::KeyResp(0), Item::HashResp(false)] {
        let q = match i { Item::KeyResp(_) => sh(|s| s.hand[0]), Item::HashResp(_) => sh(|s| s.hand[1]), _ => 0 };
        send(q, i); settle().await;
    }
    let cons = getter.get().await.map_err(|_| "no consumer after the handshake".to_string())?;
    let right = |kind: u8| [R::ResA, R::ResA, R::ResB, R::GResA, R::Conf, R::Conf][kind as usize];
    let done = |kind: u8, v: u8| match kind { 0 | 1 => Out::Resp(0, v), 2 => Out::Resp(2, v), 3 => Out::Resp(1, v), _ => Out::Ok };
    let start = |kind: u8, id: u8| { let c = cons.clone(); tokio::spawn(async move { let o = call(c, kind, id).await; note(Obs::Done(id, o)) }) };
    let sent = |id: u8| sh(|s| s.seqs.get(&id).copied());
    let mut held: Vec<(u8, u8, u32)> = vec![];
    let turns_of = |n: u8| async move { for _ in 0..n { tokio::task::yield_now().await } };
    for id in 0..open {
        let kind = id % 4; start(kind, id); turns_of(12).await;
        let q = sent(id).ok_or(format!("call {} of {} was not sent", id, open))?;
        if held.iter().any(|h| h.2 == q) { return Err(format!("two open calls have the number {}", q)) }
        held.push((kind, id, q));
    }
    let mut n = open as u64;
    for k in 0..turns {
        let (kind, id, v) = ((k % 6) as u8, 250, (k % 251) as u8);
        sh(|s| { s.log.clear(); s.choices.clear(); s.seqs.remove(&id); });
        start(kind, id); turns_of(12).await;
        let q = sent(id).ok_or(format!("call {} was not sent: {:?}", k, sh(|s| s.log.clone())))?;
        if held.iter().any(|h| h.2 == q) { return Err(format!("call {} was given the number {} of a call which is open", k, q)) }
        send(q, Item::Reply(id, right(kind), v)); turns_of(12).await;
        let log = sh(|s| std::mem::take(&mut s.log));
        if !log.iter().any(|o| *o == Obs::Done(id, done(kind, v))) || log.iter().any(|o| matches!(o, Obs::Done(i, _) if *i != id)) { return Err(format!("call {} (kind {}) was answered with {}: {:?}", k, kind, v, log)) }
        n += 1;
    }
    while let Some((kind, id, q)) = held.pop() {
        sh(|s| s.log.clear());
        send(q, Item::Reply(id, right(kind), id)); turns_of(12).await;
        let log = sh(|s| std::mem::take(&mut s.log));
        if !log.iter().any(|o| *o == Obs::Done(id, done(kind, id))) { return Err(format!("open call {} (number {}): {:?}", id, q, log)) }
    }
    Ok(n)
}
#[derive(Default)]
struct Stats { scripts: u64, runs: u64, obs: u64, maxlen: usize, bad: u64, undecided: u64 }
fn explore(job: &Job, st: &mut Stats, bad: &Mutex<Vec<String>>) {
    st.scripts += 1; st.maxlen = st.maxlen.max(job.script.len());
    let mut prefix: Vec<u32> = vec![];
    loop {
        let (inputs, log, ch, panicked) = exec(&job.cfg, &job.script, &prefix);
        st.runs += 1; st.obs += log.len() as u64;
        if let Some(m) = panicked { report(job, &inputs, &log, &ch, log.len(), &format!("panic: {}", m), st, bad); return }
        let mut m = Model { cfg: job.cfg, inputs: &inputs, log: &log, best: 0, work: 0 };
        if !m.holds() {
            if m.work > 100_000 { st.undecided += 1 } else { report(job, &inputs, &log, &ch, m.best, "", st, bad); return }
        }
        let mut i = ch.len(); let mut next = None;
        while i > 0 {
            i -= 1;
            let dev = ch[..i].iter().filter(|c| c.0 != 0).count() as u32;
            if dev + 1 <= job.dev && ch[i].0 + 1 < ch[i].1 { next = Some(i); break; }
        }
        match next { None => return, Some(i) => { prefix = ch[..i].iter().map(|c| c.0).collect(); prefix.push(ch[i].0 + 1) } }
    }
}
fn report(job: &Job, inputs: &[Input], log: &[Obs], ch: &[(u32, u32)], at: usize, what: &str, st: &mut Stats, bad: &Mutex<Vec<String>>) {
    st.bad += 1;
    let mut b = bad.lock().unwrap(); if b.len() >= 40 { return; }
    let names: Vec<String> = log.iter().enumerate().map(|(k, o)| { let t = match o { Obs::In(i) => format!("<- {:?}", inputs.get(*i)), o => format!("{:?}", o) }; if k == at { format!(">>> {}", t) } else { t } }).collect();
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ");
    b.push(format!("{{\"len\":{},\"cfg\":\"{}\",\"script\":\"{}\",\"what\":\"{}\",\"choices\":{:?},\"log\":[{}]}}", job.script.len(), esc(&format!("{:?}", job.cfg)), esc(&format!("{:?}", job.script)), esc(what), ch.iter().map(|c| c.0).collect::<Vec<_>>(), names.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(",")));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (fam, quick) = (a[1].clone(), a[2] != "thorough");
    if fam == "MARATHON" {
        sh(|s| *s = Shared { hand: [u32::MAX; 2], ..Default::default() });
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        match rt.block_on(async { tokio::spawn(marathon(if quick { 70_000 } else { 400_000 }, 200)).await }) {
            Ok(Ok(n)) => println!("CALLS {}", n), Ok(Err(e)) => println!("BROKEN {}", e), Err(e) => println!("BROKEN panic {}", e) }
        return;
    }
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = Some(format!("{}", i)))));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let bad = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = (0..threads).map(|t| { let (fam, bad) = (fam.clone(), bad.clone()); std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut st = Stats::default(); let mut n = 0u64; let mut samples: Vec<String> = vec![];
        families::each(&fam, quick, &mut |job: Job| { n += 1; if n % threads as u64 == t as u64 {
            if st.bad < 200 { explore(&job, &mut st, &bad); }
            if t == 0 && (n & (n - 1)) == 0 || n % 50021 == 0 { samples.push(format!("{:?}", job.script)) } } });
        (st, samples) }).unwrap() }).collect();
    let mut tot = Stats::default(); let mut samples = vec![];
    for h in hs { let (s, x) = h.join().unwrap(); tot.scripts += s.scripts; tot.runs += s.runs; tot.obs += s.obs; tot.maxlen = tot.maxlen.max(s.maxlen); tot.bad += s.bad; tot.undecided += s.undecided; samples.extend(x) }
    let mut b = bad.lock().unwrap(); b.sort_by_key(|x| x.len());
    for x in b.iter() { println!("BAD {}", x) }
    for x in samples.iter().rev().take(6) { println!("SAMPLE {}", x) }
    println!("STATS {{\"scripts\":{},\"runs\":{},\"observations\":{},\"longest\":{},\"bad\":{},\"undecided\":{}}}", tot.scripts, tot.runs, tot.obs, tot.maxlen, tot.bad, tot.undecided);
}
