#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_parens)]
//! Explores the generated Rust producer: every script of the family, every bounded choice of which ready channel is served.
#[path = "p/mod.rs"] mod p;
mod rig; mod stub; mod model; mod families;
use model::{Cfg, Exp, Input, Item, Model};
use p::implementation::{hash, producer::{self, ConsumerErrorHandelingStrategy as Ce, Control, ProducerIdentificationStrategy as Pi}, protocol};
use protocol::PackingStruct;
use rig::*;
use std::{collections::HashMap, future::Future, pin::Pin, sync::{atomic::{AtomicBool, Ordering::SeqCst}, Arc, Mutex}, task::{Context as TaskContext, Poll, Wake, Waker}};
use stub::*;
use clibri::server::Events;

/// How an input follows the one before it: after everything has settled, or at once.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Join { Quiet, Burst }
#[derive(Clone, Debug)]
pub struct Job { pub cfg: Cfg, pub script: Vec<(Join, Input)>, pub dev: u32 }

pub fn decode(b: &[u8]) -> Vec<(u32, Msg)> {
    use protocol::{AvailableMessages as A, InternalServiceGroup::AvailableMessages as I, G::AvailableMessages as G};
    let mut r: protocol::Buffer<protocol::AvailableMessages> = protocol::Buffer::new();
    let mut out = vec![];
    if r.chunk(&b.to_vec(), None).is_err() { out.push((0, Msg::Other)) }
    while let Some(x) = r.next() {
        out.push((x.header.sequence.wrapping_mul(0xE8B2F51), match x.msg {
            A::InternalServiceGroup(I::ConnectConfirmationBeacon(_)) => Msg::Confirm,
            A::InternalServiceGroup(I::SelfKeyResponse(k)) => Msg::KeyResp(uuid::Uuid::parse_str(&k.uuid).map(num).unwrap_or(255)),
            A::InternalServiceGroup(I::HashResponse(h)) => Msg::HashResp(h.error.is_some()),
            A::InternalServiceGroup(I::BeaconConfirmation(h)) => Msg::BeaConf(match h.error { None => false, Some(e) => { if !e.contains("refused") { return vec![(0, Msg::Other)]; } true } }),
            A::ResA(m) => Msg::ResA(m.what), A::ResB(m) => Msg::ResB(m.what), A::Err(m) => Msg::Err(m.what),
            A::BcX(m) => Msg::X(m.what), A::BcY(m) => Msg::Y(m.what),
            A::G(G::ResA(m)) => Msg::GResA(m.what), A::G(G::Err(m)) => Msg::GErr(m.what), A::G(G::BcZ(m)) => Msg::Z(m.what),
            _ => Msg::Other,
        }));
    }
    out
}
// numbers of messages are spread over the whole range on the wire
fn pack(seq: u32, i: &Item) -> Vec<u8> {
    let seq = seq.wrapping_mul(0x9E3779B1);
    let r = match i {
        Item::Key(id, name) => protocol::SelfId { id: *id, name: *name }.pack(seq, None),
        Item::HashOk => protocol::InternalServiceGroup::HashRequest { protocol: hash::PROTOCOL.into(), workflow: hash::WORKFLOW.into() }.pack(seq, None),
        Item::HashBad(n) => protocol::InternalServiceGroup::HashRequest { protocol: if *n == 1 { hash::PROTOCOL.into() } else { "x".into() }, workflow: if *n == 0 { hash::WORKFLOW.into() } else { String::from("") } }.pack(seq, None),
        Item::Req(k, what, to, act) => { let (what, to, act) = (*what, *to, *act); match k {
            0 => protocol::ReqP { what, to, act }.pack(seq, None), 1 => protocol::ReqS { what, to, act }.pack(seq, None),
            2 => protocol::ReqN { what, to, act }.pack(seq, None), _ => protocol::G::ReqM { what, to, act }.pack(seq, None) } }
        Item::Bea(k, what, act) => if *k == 0 { protocol::Bea { what: *what, act: *act }.pack(seq, None) } else { protocol::G::Beb { what: *what, act: *act }.pack(seq, None) },
        Item::Stray => protocol::Stray { what: 1 }.pack(seq, None),
        Item::Bad(n) => { let mut b = protocol::ReqP { what: 0, to: 0, act: 0 }.pack(seq, None).unwrap(); match n { 0 => b[4] ^= 0x55, 1 => b[0..4].copy_from_slice(&0xfffffff0u32.to_le_bytes()), _ => { b[26] ^= 0x7f; } } Ok(b) }
    };
    r.expect("packing")
}
struct Flag(AtomicBool);
impl Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, SeqCst) } fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, SeqCst) } }

type Fut = Pin<Box<dyn Future<Output = ()>>>;
pub fn exec(cfg: &Cfg, script: &[(Join, Input)], prefix: &[u32], inputs: &mut Vec<Input>) -> (Vec<Obs>, Vec<(u32, u32)>) {
    sh(|s| { s.log.clear(); s.mode = cfg.mode; s.ctl = None; s.resumed = false; s.fail = 0; s.fail_disc = false; s.gone = 0xffff; s.choices.clear(); s.prefix = prefix.to_vec(); s.listen = 0; });
    inputs.clear();
    let (stub, tx) = stub();
    let mut o = producer::Options::new();
    o.producer_indentification_strategy(match cfg.ident { 0 => Pi::Log, 1 => Pi::EmitError, 2 => Pi::Disconnect, 3 => Pi::EmitErrorAndDisconnect, _ => Pi::Ignore });
    o.consumer_error_handeling_strategy(match cfg.err { 0 => Ce::EmitError, 1 => Ce::Disconnect, 2 => Ce::EmitErrorAndDisconnect, _ => Ce::Log });
    let mut main: Option<Fut> = Some(Box::pin(async move { let r = p::run(stub, o, p::Context::new()).await; note(Obs::End(r.is_ok())) }));
    let flag = Arc::new(Flag(AtomicBool::new(true))); let waker = Waker::from(flag.clone()); let mut cx = TaskContext::from_waker(&waker);
    let mut apps: Vec<Fut> = vec![];
    macro_rules! settle { () => { {
        let mut n = 0;
        loop {
            flag.0.store(false, SeqCst);
            if let Some(f) = main.as_mut() { if f.as_mut().poll(&mut cx).is_ready() { main = None } }
            apps.retain_mut(|f| f.as_mut().poll(&mut cx).is_pending());
            n += 1; if n > 1000 { note(Obs::Fail(255)); break; }
            if !flag.0.load(SeqCst) { break; }
        }
    } } }
    for (join, inp) in script {
        if *join == Join::Quiet { settle!(); if !inputs.is_empty() { note(Obs::Quiet) } }
        let ctl: Option<Control<StubErr, StubCtl>> = if matches!(inp, Input::App(..) | Input::Shutdown(_)) { sh(|s| s.ctl.as_ref().and_then(|c| c.downcast_ref::<Control<StubErr, StubCtl>>().cloned())) } else { None };
        let i = inputs.len();
        let ev = match inp {
            Input::Ready => Some(Events::Ready), Input::Conn(u) => { sh(|s| s.gone &= !(1 << u)); Some(Events::Connected(uid(*u))) }
            Input::Dis(u) => { sh(|s| s.gone |= 1 << u); Some(Events::Disconnected(uid(*u))) }
            Input::Recv(u, items) => Some(Events::Received(uid(*u), items.iter().flat_map(|(q, i)| pack(*q, i)).collect())),
            Input::Part(u, q, item, first) => { let b = pack(*q, item); let cut = 20 + (*q as usize % 9); Some(Events::Received(uid(*u), if *first { b[..cut].to_vec() } else { b[cut..].to_vec() })) }
            Input::TErr(u) => Some(Events::Error(if *u == 0 { None } else { Some(uid(*u)) }, "e".into())),
            Input::ConnErr(u) => Some(Events::ConnectionError(if *u == 0 { None } else { Some(uid(*u)) }, StubErr)),
            Input::SrvErr => Some(Events::ServerError(StubErr)), Input::SrvShutdown => Some(Events::Shutdown),
            Input::App(k, w, t, a) => { if let Some(c) = ctl { inputs.push(inp.clone()); let (what, to, act) = (*w, *t, *a); let k = *k;
                let r = futures_now(async move { if k == 0 { c.events.ev(protocol::Ev { what, to, act }).await } else { c.events.g_evo(protocol::G::EvO { what, to, act }).await } });
                if r.is_ok() { note(Obs::In(i)) } else { inputs.pop(); } } None }
            Input::Shutdown(k) => { if let Some(c) = ctl { inputs.push(inp.clone()); note(Obs::In(i)); let k = *k;
                let mut f: Fut = Box::pin(async move { let r = c.shutdown(k > 0).await; if k > 0 { note(Obs::WaitDone(r.is_ok())) } });
                let r = f.as_mut().poll(&mut cx); if k == 1 && r.is_pending() { apps.push(f) } } None }
            Input::Resume => { inputs.push(inp.clone()); note(Obs::In(i)); sh(|s| s.resumed = true); waker.wake_by_ref(); None }
            Input::Fail(u) => { inputs.push(inp.clone()); note(Obs::In(i)); sh(|s| s.fail ^= 1 << u); None }
            Input::FailDisc => { inputs.push(inp.clone()); note(Obs::In(i)); sh(|s| s.fail_disc = true); None }
            Input::Listen(n) => { inputs.push(inp.clone()); note(Obs::In(i)); sh(|s| s.listen = *n); waker.wake_by_ref(); None }
        };
        if let Some(ev) = ev { inputs.push(inp.clone()); note(Obs::In(i)); let _ = tx.send(ev); }
    }
    settle!(); note(Obs::Quiet);
    if sh(|s| s.log.iter().filter(|o| **o == Obs::Yield).count() != s.log.iter().filter(|o| **o == Obs::Resume).count()) { inputs.push(Input::Resume); note(Obs::In(inputs.len() - 1)); sh(|s| s.resumed = true); settle!(); note(Obs::Quiet); }
    drop(main); drop(apps);
    sh(|s| { s.ctl = None; (std::mem::take(&mut s.log), std::mem::take(&mut s.choices)) })
}
fn futures_now<T>(f: impl Future<Output = T>) -> T { let mut f = Box::pin(f); let w = Waker::from(Arc::new(Flag(AtomicBool::new(false)))); match f.as_mut().poll(&mut TaskContext::from_waker(&w)) { Poll::Ready(x) => x, _ => panic!("an application call which has to return at once is waiting") } }

#[derive(Default)]
struct Stats { scripts: u64, runs: u64, obs: u64, maxlen: usize, bad: u64, undecided: u64 }
fn explore(job: &Job, st: &mut Stats, bad: &Mutex<Vec<String>>) {
    st.scripts += 1; st.maxlen = st.maxlen.max(job.script.len());
    let mut prefix: Vec<u32> = vec![]; let mut inputs = vec![];
    loop {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(&job.cfg, &job.script, &prefix, &mut inputs)));
        st.runs += 1;
        let (log, ch) = match r { Ok(x) => x, Err(e) => {
            let (log, ch) = sh(|s| { s.ctl = None; (std::mem::take(&mut s.log), std::mem::take(&mut s.choices)) });
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            report(job, &inputs, &log, &ch, log.len(), &format!("panic: {}", m), st, bad); return } };
        st.obs += log.len() as u64;
        let m = Model { cfg: job.cfg, inputs: &inputs, log: &log, best: Default::default(), work: Default::default() };
        if !m.holds() {
            if m.work.get() > 200_000 { st.undecided += 1 } else { report(job, &inputs, &log, &ch, m.best.get(), "", st, bad); return }
        }
        // next choice with at most dev deviations
        let mut i = ch.len(); let mut next = None;
        while i > 0 {
            i -= 1;
            let dev = ch[..i].iter().filter(|c| c.0 != 0).count() as u32;
            if dev + 1 <= job.dev && ch[i].0 + 1 < ch[i].1 { next = Some(i); break; }
        }
        match next { None => return, Some(i) => { prefix = ch[..i].iter().map(|c| c.0).collect(); prefix.push(ch[i].0 + 1) } }
    }
}
fn report(job: &Job, inputs: &[Input], log: &[Obs], ch: &[(u32, u32)], at: usize, what: &str, st: &mut Stats, bad: &Mutex<Vec<String>>) {
    st.bad += 1;
    let mut b = bad.lock().unwrap(); if b.len() >= 40 { return; }
    let names: Vec<String> = log.iter().enumerate().map(|(k, o)| { let t = match o { Obs::In(i) => format!("<- {:?}", inputs[*i]), o => format!("{:?}", o) }; if k == at { format!(">>> {}", t) } else { t } }).collect();
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ");
    b.push(format!("{{\"len\":{},\"cfg\":\"{}\",\"script\":\"{}\",\"what\":\"{}\",\"choices\":{:?},\"log\":[{}]}}", job.script.len(), esc(&format!("{:?}", job.cfg)), esc(&format!("{:?}", job.script)), esc(what), ch.iter().map(|c| c.0).collect::<Vec<_>>(), names.iter().map(|n| format!("\"{}\"", esc(n))).collect::<Vec<_>>().join(",")));
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (fam, quick) = (a[1].clone(), a[2] != "thorough");
    std::panic::set_hook(Box::new(|_| {}));
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let bad = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = (0..threads).map(|t| { let (fam, bad) = (fam.clone(), bad.clone()); std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut st = Stats::default(); let mut n = 0u64; let mut samples: Vec<String> = vec![];
        families::each(&fam, quick, &mut |job: Job| { n += 1; if n % threads as u64 == t as u64 {
            if st.bad < 200 { explore(&job, &mut st, &bad); }
            if t == 0 && (n & (n - 1)) == 0 || n % 50021 == 0 { samples.push(format!("{:?}", job.script)) } } });
        (st, samples) }).unwrap() }).collect();
    let mut tot = Stats::default(); let mut samples = vec![];
    for h in hs { let (s, x) = h.join().unwrap(); tot.scripts += s.scripts; tot.runs += s.runs; tot.obs += s.obs; tot.maxlen = tot.maxlen.max(s.maxlen); tot.bad += s.bad; tot.undecided += s.undecided; samples.extend(x) }
    let mut b = bad.lock().unwrap(); b.sort_by_key(|x| x.len());
    for x in b.iter() { println!("BAD {}", x) }
    for x in samples.iter().rev().take(6) { println!("SAMPLE {}", x) }
    println!("STATS {{\"scripts\":{},\"runs\":{},\"observations\":{},\"longest\":{},\"bad\":{},\"undecided\":{}}}", tot.scripts, tot.runs, tot.obs, tot.maxlen, tot.bad, tot.undecided);
}
