#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_parens)]
//! Rust agents (a producer, consumers of the same and of other sources), driven line by line from the outside.
#[path = "p/mod.rs"] mod p;
#[path = "c/mod.rs"] mod c;
#[path = "c2/mod.rs"] mod c2;
#[path = "c3/mod.rs"] mod c3;
#[path = "c4/mod.rs"] mod c4;
mod rig;
use clibri::{client::{Event, Message}, server::Events};
use p::implementation::{producer::{self, ConsumerErrorHandelingStrategy as Ce, Control, ProducerIdentificationStrategy as Pi}};
use rig::*;
use std::{collections::BTreeMap, io::{BufRead, Write}};
use tokio::{sync::mpsc::{unbounded_channel, UnboundedSender}, task::{spawn_local, LocalSet}, time::{sleep, Duration}};

macro_rules! options { ($m:ident, $id:expr, $recon:expr) => { $m::Options { reconnection: if $recon { $m::ReconnectionStrategy::Reconnect(100) } else { $m::ReconnectionStrategy::DoNotReconnect }, request_timeout: 20_000_000, key: $m::protocol::SelfId { id: $id as u16 + 10, name: None } } } }
async fn call(mut c: c::Consumer<StubErr>, kind: String, what: u8) -> String {
    use c::implementation::controller::*; use c::protocol as m;
    match kind.as_str() {
        "req" => match c.req(m::Req { what, text: if what % 4 == 0 { Some(format!("t\u{e9}{}", what)) } else { None } }).await { Ok(ReqResponse::Response(r)) => format!("ResA {} {}", r.what, r.text.unwrap_or_else(|| "-".into())), Ok(ReqResponse::Err(r)) => format!("Err {}", r.what), Err(e) => "failed".into() },
        "two" => match c.g_h_two(m::G::H::Two { what }).await { Ok(GHTwoResponse::First(r)) => format!("First ResA {} {}", r.what, r.text.unwrap_or_else(|| "-".into())), Ok(GHTwoResponse::Second(r)) => format!("Second G.ResB {}", r.what), Ok(GHTwoResponse::Err(r)) => format!("G.Err {}", r.what), Err(e) => "failed".into() },
        "bea" => match c.beacon_bea(m::Bea { what }).await { Ok(()) => "ok".into(), Err(e) => "failed".into() },
        _ => match c.shutdown().await { Ok(()) => "ok".into(), Err(e) => "failed".into() },
    }
}
async fn session(lines: &mut impl Iterator<Item = String>) -> Option<String> {
    let mut server: Option<UnboundedSender<Events<StubErr>>> = None;
    let mut getters: BTreeMap<u8, c::implementation::consumer::ConsumerGetter<StubErr>> = BTreeMap::new();
    while let Some(l) = lines.next() {
        let a: Vec<&str> = l.split(' ').collect();
        let n = |k: usize| a.get(k).map(|x| x.parse::<u8>().unwrap()).unwrap_or(0);
        match a[0] {
            "reset" => return Some(l),
            "producer" => {
                let (tx, rx) = unbounded_channel(); server = Some(tx);
                let mut o = producer::Options::new();
                o.producer_indentification_strategy(match a[1] { "0" => Pi::Log, "1" => Pi::EmitErrorAndDisconnect, _ => Pi::Ignore }); o.consumer_error_handeling_strategy(Ce::EmitError);
                spawn_local(async move { let r = p::run(ServerStub { rx: Some(rx) }, o, p::Context::new()).await; note(0, format!("end {}", r.is_ok())) });
            }
            "consumer" => { let id = n(1); match a[2] {
                "0" => { getters.insert(id, c::connect(ClientStub(id), c::Context { who: id }, options!(c, id, a[3] == "1")).await.ok().unwrap()); }
                "1" => { let _ = c2::connect(ClientStub(id), c2::Context { who: id }, options!(c2, id, false)).await.ok().unwrap(); }
                "2" => { let _ = c3::connect(ClientStub(id), c3::Context { who: id }, options!(c3, id, false)).await.ok().unwrap(); }
                _ => { let _ = c4::connect(ClientStub(id), c4::Context { who: id }, options!(c4, id, false)).await.ok().unwrap(); } } }
            "conn" => { let _ = server.as_ref().unwrap().send(Events::Connected(uid(n(1)))); }
            "lost" => { let _ = server.as_ref().unwrap().send(Events::Disconnected(uid(n(1)))); }
            "data" => { let _ = server.as_ref().unwrap().send(Events::Received(uid(n(1)), bytes(a[2]))); }
            "ready" => { let _ = server.as_ref().unwrap().send(Events::Ready); }
            "tick" => { let c = sh(|s| s.control.as_ref().and_then(|c| c.downcast_ref::<Control<StubErr, ServerCtl>>().cloned())).expect("control"); let what = n(1); c.events.tick(p::implementation::protocol::Tick { what }).await.expect("tick") }
            "c.up" => sh(|s| { let _ = s.links[&n(1)].send(Event::Connected("127.0.0.1:1".parse().unwrap())); }),
            "c.data" => sh(|s| { let _ = s.links[&n(1)].send(Event::Message(Message::Binary(bytes(a[2])))); }),
            "c.lost" => { sh(|s| { let _ = s.links[&n(1)].send(Event::Disconnected); s.ended.insert(n(1), true); }); wake() }
            "c.wait" => sleep(Duration::from_millis(150)).await,
            "c.call" => { let (id, kind, what, no) = (n(1), a[2].to_string(), n(3), a[4].to_string());
                match getters[&id].get().await { Ok(x) => { tokio::spawn(async move { let r = call(x, kind, what).await; note(id, format!("done {} {}", no, r)) }); } Err(_) => note(id, format!("done {} failed", no)) } }
            "go" => {
                sleep(Duration::from_millis(1)).await;
                if let Some(m) = PANIC.with(|p| p.borrow_mut().take()) { note(9, format!("panic {}", m)) }
                let mut t = sh(|s| std::mem::take(&mut s.out)).join("\n"); if !t.is_empty() { t.push('\n') } t.push_str(".\n");
                let mut o = OUT.with(|o| o.borrow_mut().take()).unwrap(); o.write_all(t.as_bytes()).unwrap(); o.flush().unwrap(); OUT.with(|x| *x.borrow_mut() = Some(o));
            }
            x => panic!("unknown command {}", x),
        }
    }
    None
}
thread_local! { static PANIC: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None); static OUT: std::cell::RefCell<Option<std::fs::File>> = std::cell::RefCell::new(None); }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&a[1]).expect("input"));
    OUT.with(|o| *o.borrow_mut() = Some(std::fs::OpenOptions::new().write(true).open(&a[2]).expect("output")));
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = Some(format!("{}", i).replace('\n', " ")))));
    let mut lines = input.lines().map(|l| l.expect("line"));
    let mut l = lines.next();
    while let Some(x) = l {
        sh(|s| *s = Shared { choose: x.split(' ').nth(1).unwrap().parse().unwrap(), ..Default::default() });
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let local = LocalSet::new();
        l = rt.block_on(local.run_until(session(&mut lines)));
        drop(local); drop(rt);
    }
}
