use crate::{model::{Cfg, Input, Item}, Job, Join};
use Input::*;
use Item::*;

#[derive(Clone, Copy, PartialEq)]
enum J { Q, B, C }
type Sym = Input;
fn key(u: u8) -> Sym { Recv(u, vec![(0, Key(u as u16, if u == 1 { Some(4) } else { None }))]) }
fn msg(u: u8, i: Item) -> Sym { Recv(u, vec![(0, i)]) }
fn est(u: u8) -> Vec<Sym> { vec![Conn(u), key(u), msg(u, HashOk)] }
fn valid(seq: &[(J, Sym)], s: &Sym) -> bool {
    let on = |u: u8| { let mut c = false; for (_, x) in seq { match x { Conn(v) if *v == u => c = true, Dis(v) if *v == u => c = false, _ => {} } } c };
    match s {
        Conn(u) => !seq.iter().any(|(_, x)| matches!(x, Conn(v) if v == u)),
        Dis(u) | Recv(u, _) | Part(u, ..) => on(*u),
        Ready => !seq.iter().any(|(_, x)| *x == Ready),
        Listen(_) | SrvShutdown => !seq.iter().any(|(_, x)| matches!(x, Listen(_) | SrvShutdown)),
        Fail(u) => !seq.iter().any(|(_, x)| x == s),
        FailDisc | Resume => !seq.iter().any(|(_, x)| x == s),
        _ => true,
    }
}
fn emit(seq: &[(J, Sym)], cfg: Cfg, dev: u32, f: &mut dyn FnMut(Job)) {
    let mut out: Vec<(Join, Input)> = vec![];
    for (n, (j, s)) in seq.iter().enumerate() {
        let seqno = 100 + n as u32;
        if *j == J::C { if let (Some((_, Recv(_, l))), Recv(_, more)) = (out.last_mut(), s) { for (_, i) in more { l.push((seqno, i.clone())) } continue; } }
        let j = if *j == J::Q { Join::Quiet } else { Join::Burst };
        match s {
            Recv(u, l) => out.push((j, Recv(*u, l.iter().map(|(_, i)| (seqno, i.clone())).collect()))),
            Part(u, _, i, true) => { out.push((j, Part(*u, seqno, i.clone(), true))); out.push((Join::Quiet, Part(*u, seqno, i.clone(), false))) }
            Part(u, _, i, false) => { out.push((j, Part(*u, seqno, i.clone(), true))); out.push((Join::Burst, Part(*u, seqno, i.clone(), false))) }
            s => out.push((j, s.clone())),
        }
    }
    let burst = out.iter().skip(1).any(|(j, _)| *j == Join::Burst);
    f(Job { cfg, script: out, dev: if burst { dev } else { 0 } })
}
/// All sequences of up to depth symbols after the prefix, each following the one before it in every allowed way.
fn grow(prefix: &[(J, Sym)], syms: &[Sym], depth: usize, joins: &[J], cfgs: &[Cfg], dev: u32, f: &mut dyn FnMut(Job)) {
    fn rec(seq: &mut Vec<(J, Sym)>, left: usize, syms: &[Sym], joins: &[J], cfgs: &[Cfg], dev: u32, f: &mut dyn FnMut(Job)) {
        for c in cfgs { emit(seq, *c, dev, f) }
        if left == 0 { return; }
        for s in syms {
            if !valid(seq, s) { continue; }
            for j in joins {
                if *j == J::C && !matches!((seq.last(), s), (Some((_, Recv(a, _))), Recv(b, _)) if a == b) { continue; }
                seq.push((*j, s.clone())); rec(seq, left - 1, syms, joins, cfgs, dev, f); seq.pop();
            }
        }
    }
    let mut seq = prefix.to_vec();
    rec(&mut seq, depth, syms, joins, cfgs, dev, f)
}
fn quiet(l: Vec<Sym>) -> Vec<(J, Sym)> { l.into_iter().map(|s| (J::Q, s)).collect() }
fn cfg(ident: u8, err: u8) -> Cfg { Cfg { ident, err, mode: [(0, 0, 0), (0, 2, 0)] } }
fn all_cfgs() -> Vec<Cfg> { (0..5).flat_map(|i| (0..4).map(move |e| cfg(i, e))).collect() }
const QBC: [J; 3] = [J::Q, J::B, J::C];

pub fn each(fam: &str, quick: bool, f: &mut dyn FnMut(Job)) {
    let both = || quiet([vec![Ready], est(1), est(2)].concat());
    let few = [cfg(0, 2), cfg(3, 0), cfg(4, 3)];
    match fam {
        "R01" => {
            let mut one = vec![key(1), msg(1, HashOk), msg(1, HashBad(0)), msg(1, HashBad(1)), msg(1, Req(0, 0, 3, 0)), msg(1, Req(3, 2, 0, 3)), msg(1, Bea(0, 0, 0)), msg(1, Stray), msg(1, Bad(0)), Dis(1)];
            let pre = quiet([vec![Ready], est(2), vec![Conn(1)]].concat());
            grow(&pre, &one, if quick { 2 } else { 3 }, &QBC, &all_cfgs(), 1, f);
            if quick { grow(&pre, &one, 3, &QBC, &all_cfgs(), 0, f); grow(&pre, &one, 3, &QBC, &few[..1], 1, f) }
            grow(&pre, &one, if quick { 4 } else { 5 }, &QBC, &few, 0, f);
            grow(&quiet([vec![Ready], est(2)].concat()), &[one.clone(), vec![Conn(1)]].concat(), if quick { 4 } else { 5 }, &[J::Q, J::B], &[cfg(0, 2)], if quick { 1 } else { 2 }, f);
            one.truncate(3);
            let two = |u: u8| vec![Conn(u), key(u), msg(u, HashOk), msg(u, HashBad(2)), msg(u, Req(1, 2, 0, 0)), Dis(u)];
            let syms = [two(1), two(2)].concat();
            grow(&quiet(vec![Ready]), &syms, if quick { 6 } else { 7 }, &[J::Q], &few[..if quick { 1 } else { 3 }], 0, f);
            grow(&[], &syms, if quick { 4 } else { 5 }, &[J::Q, J::B], &few[..if quick { 1 } else { 3 }], 1, f);
        }
        "R02" => {
            let kinds = [(0, 0), (0, 1), (1, 0), (1, 2), (1, 1), (2, 0), (2, 2), (2, 1), (3, 0), (3, 2), (3, 4), (3, 6), (3, 1)];
            let mut alls = vec![];
            for u in [1, 2] { for (k, w) in kinds { for to in 0..6 { for act in [0, 6, 9] { alls.push(msg(u, Req(k, w, to, act))) } } } }
            grow(&both(), &alls, 1, &[J::Q], &few, 0, f);
            let mut part = vec![Dis(1), Dis(2), msg(1, Bea(0, 0, 0)), App(0, 2, 0, 0)];
            for u in [1, 2] { for (k, w) in kinds { part.push(msg(u, Req(k, w, if w % 4 == 2 { 0 } else { 3 }, if k == 1 { 6 } else { 0 }))) } part.push(Part(u, 0, Req(3, 6, 0, 0), true)); part.push(Part(u, 0, Req(1, 2, 3, 0), false)); part.push(msg(u, Req(0, 0, 0, 9))) }
            grow(&both(), &part, 2, &QBC, &few, 1, f);
            grow(&both(), &part, 3, &QBC, &few[..if quick { 1 } else { 3 }], 0, f);
            let small = vec![Dis(1), msg(1, Req(0, 0, 0, 0)), msg(1, Req(1, 2, 1, 6)), msg(2, Req(3, 6, 5, 0)), msg(2, Req(2, 1, 0, 0)), msg(2, Part1.0.clone()), Resume, msg(1, Req(3, 2, 0, 9))];
            grow(&both(), &small, if quick { 4 } else { 5 }, &QBC, &few[..1], 0, f);
            if !quick { grow(&both(), &small, 3, &QBC, &few[..1], 3, f); }
            else { grow(&both(), &small, 2, &QBC, &few[..1], 2, f); }
        }
        "R03" => {
            let bad: Vec<Sym> = vec![msg(1, Bad(0)), msg(1, Bad(1)), msg(1, Bad(2)), msg(1, HashBad(0)), msg(1, Stray), msg(1, Req(1, 1, 0, 0)), msg(1, Bea(1, 1, 0)), msg(1, Req(3, 6, 0, 0)), msg(1, Bea(0, 0, 0)), msg(1, key_item()), Fail(1), FailDisc, Dis(1), TErr(1), TErr(0), TErr(7), ConnErr(1), ConnErr(0), SrvErr, Conn(3), msg(3, Req(0, 0, 0, 0)), msg(3, Bad(0)), Dis(3), App(0, 1, 0, 0), msg(1, Req(0, 0, 0, 7))];
            let good: Vec<Sym> = vec![msg(2, Req(1, 2, 3, 0)), msg(2, Bea(0, 0, 0))];
            let syms = [bad.clone(), good.clone()].concat();
            let errs: Vec<Cfg> = (0..4).map(|e| cfg(0, e)).collect();
            let fin = |seq: &[Sym]| -> Vec<Sym> { [seq.to_vec(), good.clone()].concat() };
            // faults, followed by messages of the other consumer
            let base = both();
            for a in 0..bad.len() { for b in 0..=bad.len() { for c in 0..=(if quick { 0 } else { bad.len() }) {
                for j1 in QBC { for j2 in QBC { for jg in [J::Q, J::B] {
                    let mut seq = base.clone();
                    let mut ok = true;
                    let mut add = |j: J, s: &Sym, seq: &mut Vec<(J, Sym)>| { if !valid(seq, s) { return false; } if j == J::C && !matches!((seq.last(), s), (Some((_, Recv(a, _))), Recv(b, _)) if a == b) { return false; } seq.push((j, s.clone())); true };
                    ok &= add(if j1 == J::C { J::B } else { j1 }, &bad[a], &mut seq);
                    if b < bad.len() { ok &= add(j2, &bad[b], &mut seq) } else if j2 != J::Q || c > 0 { continue; }
                    if c > 0 { ok &= add(j2, &bad[c - 1], &mut seq) }
                    if !ok { continue; }
                    for g in &good { ok &= add(jg, g, &mut seq) }
                    ok &= add(jg, &App(0, 2, 3, 0), &mut seq);
                    if !ok { continue; }
                    for e in &errs { emit(&seq, *e, if quick || c > 0 { 0 } else { 1 }, f) }
                } } }
            } } }
            grow(&both(), &syms, 2, &QBC, &errs, 1, f);
            if !quick { grow(&both(), &syms, 3, &QBC, &errs, 0, f) }
            // a transport which cannot disconnect: the consumer is not served any more all the same
            let stuck = [both(), quiet(vec![FailDisc])].concat();
            let own = [syms.clone(), vec![msg(1, Req(1, 2, 0, 0)), msg(1, Bea(0, 0, 0))]].concat();
            grow(&stuck, &own, if quick { 2 } else { 3 }, &QBC, &errs, if quick { 1 } else { 0 }, f);
            // handlers of connections which fail
            for m in [(1, 0, 0), (0, 0, 0), (2, 3, 0)] { for d in [(1, 0, 0), (0, 3, 0)] { for e in 0..4 {
                let c = Cfg { ident: 0, err: e, mode: [m, d] };
                grow(&quiet([vec![Ready], est(2)].concat()), &[Conn(1), key(1), msg(1, HashOk), msg(1, Req(0, 0, 0, 0)), Dis(1), Fail(1), FailDisc, msg(2, Req(1, 2, 0, 0)), msg(1, Bad(0))], 3, &[J::Q, J::B], &[c], 1, f)
            } } }
        }
        "R04" => {
            for w in 0..3 { for to in 0..6 { for act in [0, 3, 6, 8, 9, 10, 11] { for (dw, dto, dact) in [(0, 0, 0), (0, 3, 6), (1, 0, 0), (0, 5, 10)] {
                let c = Cfg { ident: 0, err: 2, mode: [(w, to, act), (dw, dto, dact)] };
                grow(&quiet(vec![Ready]), &[Conn(1), Conn(2), Dis(1), Dis(2)], 4, &[J::Q, J::B], &[c], if quick { 0 } else { 1 }, f);
            } } } }
            let ends = [Shutdown(0), Shutdown(1), Shutdown(2), SrvShutdown, Listen(1), Listen(2)];
            let syms = [vec![Ready, Conn(1), Conn(2), Dis(1), key(1), msg(1, HashOk), msg(1, Req(0, 0, 0, 0)), App(0, 2, 0, 0)], ends.to_vec()].concat();
            let modes = [Cfg { ident: 0, err: 2, mode: [(2, 0, 0), (0, 0, 0)] }];
            grow(&[], &syms, if quick { 4 } else { 5 }, &[J::Q, J::B], &modes, if quick { 1 } else { 2 }, f);
            let syms = [vec![Dis(1), Conn(3), msg(1, Req(3, 6, 0, 0)), msg(1, Req(0, 0, 0, 8)), msg(2, Req(1, 2, 0, 9)), msg(1, Bea(0, 0, 8)), App(0, 0, 0, 8), App(1, 2, 0, 9), Resume], ends.to_vec()].concat();
            grow(&both(), &syms, 3, &[J::Q, J::B], &modes, if quick { 1 } else { 2 }, f);
            if !quick { grow(&both(), &syms, 4, &[J::Q, J::B], &modes, 1, f); }
        }
        "R05" => {
            let mut syms = vec![];
            for u in [1, 2] { for a in [1, 2, 3, 4, 5, 13] { syms.push(msg(u, Req(0, 0, 0, a))) } syms.push(msg(u, Req(1, 0, 4, 0))) }
            syms.extend([msg(1, Req(0, 0, 0, 10)), msg(1, Req(0, 0, 0, 12)), App(0, 0, 4, 10), App(0, 0, 4, 12), msg(1, key_item()), Dis(2), msg(2, Bea(0, 0, 3))]);
            grow(&both(), &syms, 3, &[J::Q, J::B], &[cfg(0, 2)], if quick { 0 } else { 1 }, f);
            grow(&both(), &syms, 2, &QBC, &[cfg(0, 2), cfg(4, 2)], if quick { 1 } else { 2 }, f);
            if !quick { grow(&both(), &syms, 4, &[J::Q, J::B], &[cfg(0, 2)], 0, f) }
            let small = vec![msg(1, Req(0, 0, 0, 1)), msg(2, Req(1, 0, 4, 0)), msg(1, Req(0, 0, 0, 3)), msg(2, Req(0, 0, 0, 5)), msg(1, Req(0, 0, 0, 12)), App(0, 0, 4, 10), Dis(2)];
            grow(&both(), &small, if quick { 2 } else { 3 }, &QBC, &[cfg(0, 2)], 2, f);
            grow(&both(), &small, if quick { 3 } else { 4 }, &QBC, &[cfg(0, 2)], 1, f);
            // assigned when connected, by an event or never
            let mut modes = vec![]; for i in 0..5 { for act in [0, 1, 3, 4, 5] { modes.push(Cfg { ident: i, err: 2, mode: [(0, 0, act), (0, 2, 0)] }) } }
            let two = |u: u8| vec![Conn(u), key(u), msg(u, Key(2, None)), msg(u, Key(2, Some(9))), msg(u, HashOk), msg(u, Req(1, 2, 4, 0)), msg(u, Req(0, 0, 0, 5))];
            grow(&quiet([vec![Ready], est(2), vec![Conn(1)]].concat()), &[two(1), vec![App(0, 0, 4, 10), msg(2, Req(0, 0, 4, 0)), msg(2, Req(0, 0, 4, 10))]].concat(), if quick { 3 } else { 4 }, &QBC, &modes, if quick { 0 } else { 1 }, f);
            grow(&quiet(vec![Ready]), &[two(1), two(2)].concat(), if quick { 5 } else { 6 }, &[J::Q], &[cfg(0, 2)], 0, f);
        }
        "R06" => {
            let mut alls = vec![];
            for u in [1, 2] { for k in 0..2 { for w in 0..2 { for a in 0..14 { if w == 1 && a == 6 { continue; } alls.push(msg(u, Bea(k, w, a))) } } } }
            for k in 0..2 { for w in 0..3 { for to in 0..6 { for a in [0, 6, 8, 9, 10, 11] { alls.push(App(k, w, to, a)) } } } }
            grow(&both(), &alls, 1, &[J::Q, J::B], &[cfg(0, 0), cfg(0, 1), cfg(0, 2), cfg(0, 3)], 1, f);
            grow(&both(), &alls, 2, &[J::Q], &[cfg(0, 2)], 0, f);
            let syms = vec![msg(1, Bea(0, 0, 0)), msg(1, Bea(1, 1, 0)), msg(2, Bea(0, 1, 0)), msg(2, Bea(1, 0, 6)), App(0, 0, 0, 0), App(0, 2, 4, 6), App(0, 1, 0, 0), App(1, 0, 0, 0), App(1, 2, 5, 0), App(1, 1, 0, 0), Dis(1), Conn(3), msg(1, Req(1, 2, 0, 0)), msg(1, Bea(0, 0, 11)), msg(1, Bea(0, 0, 9))];
            grow(&both(), &syms, 3, &QBC, &[cfg(0, 2), cfg(0, 3)], if quick { 0 } else { 1 }, f);
            grow(&both(), &syms, 2, &QBC, &[cfg(0, 2)], 2, f);
            if !quick { grow(&both(), &syms, 4, &QBC, &[cfg(0, 2)], 0, f) }
        }
        _ => panic!("no such family"),
    }
}
fn key_item() -> Item { Key(2, Some(8)) }
struct P1(Item);
#[allow(non_upper_case_globals)]
static Part1: P1 = P1(Req(3, 4, 1, 0));
