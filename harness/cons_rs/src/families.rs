use crate::{model::{Cfg, Input, Item, R}, Job, Join};
use Input::*;
use Item::*;

#[derive(Clone, Copy, PartialEq)]
enum J { Q, B, C, T(u8) }
type Sym = Input;
fn m(i: Item) -> Sym { Recv(vec![(0, i)]) }
fn seen(seq: &[(J, Sym)], f: &dyn Fn(&Sym) -> bool) -> bool { seq.iter().any(|(_, x)| f(x)) }
fn valid(seq: &[(J, Sym)], s: &Sym, j: J) -> bool {
    let gen = 1 + seq.iter().filter(|(_, x)| matches!(x, WaitR)).count() as u8;
    match s {
        Up | TDis | TErr | Text | FailSend | WaitR | Resume => !seen(seq, &|x| x == s),
        End(_) => seq.iter().filter(|(_, x)| matches!(x, End(_))).count() < gen as usize,
        Nap | NapR => !seen(seq, &|x| matches!(x, Nap | NapR)) && matches!(j, J::Q),
        Wait => seq.iter().filter(|(_, x)| *x == Wait).count() < 2 && matches!(j, J::Q),
        Call(_, id, g) => *g <= gen && !seen(seq, &|x| matches!(x, Call(_, i, _) if i == id)),
        Drop(id) => seen(seq, &|x| matches!(x, Call(_, i, _) if i == id)) && !seen(seq, &|x| x == s),
        Recv(l) => match &l[0].1 {
            Confirm => seq.iter().filter(|(_, x)| matches!(x, Recv(l) if l[0].1 == Confirm)).count() < gen as usize,
            Reply(id, ..) => (*id >= 100 || seen(seq, &|x| matches!(x, Call(_, i, _) if i == id))) && seq.iter().filter(|(_, x)| matches!(x, Recv(l) if matches!(l[0].1, Reply(i, ..) if i == *id))).count() < 2,
            KeyResp(_) | HashResp(_) | Odd(_) => seen(seq, &|x| matches!(x, Recv(l) if l[0].1 == Confirm)),
            _ => true,
        },
        _ => true,
    }
}
fn emit(seq: &[(J, Sym)], cfg: Cfg, dev: u32, f: &mut dyn FnMut(Job)) {
    let mut out: Vec<(Join, Input)> = vec![];
    for (j, s) in seq {
        if *j == J::C { if let (Some((_, Recv(l))), Recv(more)) = (out.last_mut(), s) { l.extend(more.iter().cloned()); continue; } }
        let j = match j { J::Q => Join::Quiet, J::T(n) => Join::Turn(*n), _ => Join::Burst };
        match s {
            Part(q, i, true) => { out.push((j, Part(*q, i.clone(), true))); out.push((Join::Quiet, Part(*q, i.clone(), false))) }
            Part(q, i, false) => { out.push((j, Part(*q, i.clone(), true))); out.push((Join::Burst, Part(*q, i.clone(), false))) }
            WaitR | Wait | Nap | NapR => out.push((Join::Quiet, s.clone())),
            s => out.push((j, s.clone())),
        }
    }
    f(Job { cfg, script: out, dev })
}
/// All sequences of up to depth symbols after the prefix, each following the one before it in every allowed way; after each comes the tail.
fn grow(prefix: &[(J, Sym)], syms: &[Sym], depth: usize, joins: &[J], cfgs: &[Cfg], dev: u32, tail: &[Sym], f: &mut dyn FnMut(Job)) {
    fn rec(seq: &mut Vec<(J, Sym)>, left: usize, syms: &[Sym], joins: &[J], cfgs: &[Cfg], dev: u32, tail: &[Sym], f: &mut dyn FnMut(Job)) {
        let n = seq.len(); seq.extend(tail.iter().map(|s| (J::Q, s.clone())));
        for c in cfgs { emit(seq, *c, dev, f) }
        seq.truncate(n);
        if left == 0 { return; }
        for s in syms { for j in joins {
            if !valid(seq, s, *j) || *j == J::C && !matches!((seq.last(), s), (Some((_, Recv(_))), Recv(_))) { continue; }
            seq.push((*j, s.clone())); rec(seq, left - 1, syms, joins, cfgs, dev, tail, f); seq.pop();
        } }
    }
    rec(&mut prefix.to_vec(), depth, syms, joins, cfgs, dev, tail, f)
}
fn quiet(l: &[Sym]) -> Vec<(J, Sym)> { l.iter().map(|s| (J::Q, s.clone())).collect() }
fn hello() -> Vec<Sym> { vec![Up, m(Confirm), m(KeyResp(0)), m(HashResp(false))] }
fn right(kind: u8) -> R { [R::ResA, R::ResA, R::ResB, R::GResA, R::Conf, R::Conf][kind as usize] }
fn wrong(kind: u8) -> R { [R::Err, R::Err, R::Err, R::GErr, R::Refuse, R::Refuse][kind as usize] }
const QBC: [J; 3] = [J::Q, J::B, J::C];
const PLAIN: Cfg = Cfg { recon: false, again: false, on: 0, off: 0 };

pub fn each(fam: &str, quick: bool, f: &mut dyn FnMut(Job)) {
    let pre = quiet(&hello());
    match fam {
        "N01" => {
            for k in 0..6 { for r in [R::ResA, R::ResB, R::Err, R::GResA, R::GErr, R::Conf, R::Refuse, R::Other] { for part in 0..3 {
                let d = if quick && (part > 0 || r != right(k)) { 0 } else { 1 }; let a = Reply(1, r, 7); let s = match part { 0 => m(a), 1 => Part(0, a, true), _ => Part(0, a, false) };
                grow(&[pre.clone(), quiet(&[Call(k, 1, 1)])].concat(), &[s, m(Bc(2, 3)), m(Bad(0)), m(Stray)], 2, &QBC, &[PLAIN], d, &[Call(k, 9, 1), m(Reply(9, right(k), 1))], f);
            } } }
            for ks in [[0, 2, 4], [3, 1, 5], [2, 2, 2]] {
                let calls: Vec<Sym> = (0..3).map(|i| Call(ks[i], i as u8 + 1, 1)).collect();
                let replies: Vec<Sym> = (0..3).map(|i| m(Reply(i as u8 + 1, if i == 1 { wrong(ks[i]) } else { right(ks[i]) }, 10 + i as u8))).collect();
                let all = [calls.clone(), replies.clone(), vec![m(Bc(0, 1)), m(Stray)]].concat();
                grow(&pre, &all, if quick { 4 } else { 5 }, &QBC, &[PLAIN], if quick { 0 } else { 1 }, &[], f);
                let started = [pre.clone(), quiet(&calls)].concat();
                grow(&started, &[replies.clone(), vec![m(Bc(0, 1)), m(Bc(1, 2)), m(Stray), m(Bad(0)), m(Foreign)]].concat(), if quick { 4 } else { 5 }, &QBC, &[PLAIN], 0, &[], f);
                grow(&started, &[replies.clone(), vec![m(Bc(0, 1)), m(Bad(1))]].concat(), 3, &QBC, &[PLAIN], if quick { 1 } else { 2 }, &[], f);
            }
            // handlers which wait or call
            let syms = vec![m(Bc(0, 9)), m(Bc(1, 8)), m(Bc(2, 1)), Call(1, 1, 1), m(Reply(1, R::ResA, 5)), m(Reply(100, R::ResA, 6)), m(Reply(101, R::Err, 6)), Resume, Text, TErr];
            grow(&pre, &syms, if quick { 4 } else { 5 }, if quick { &QBC[..2] } else { &QBC }, &[PLAIN], 0, &[], f);
            grow(&pre, &syms, if quick { 3 } else { 5 }, &QBC, &[Cfg { on: 8, ..PLAIN }], 0, &[], f);
            grow(&pre, &syms, 3, &QBC, &[PLAIN, Cfg { on: 9, ..PLAIN }], 1, &[], f);
        }
        "N02" => {
            let tail = vec![Call(1, 9, 1), m(Reply(9, R::ResA, 1)), m(Bc(0, 2))];
            let js = [J::Q, J::B, J::T(1), J::T(2), J::T(3), J::T(4), J::T(6)];
            for k in 0..6 { grow(&pre, &[Call(k, 1, 1), Drop(1), Wait, m(Reply(1, right(k), 3)), m(Bc(1, 1))], if quick { 4 } else { 5 }, &js, &[PLAIN], if quick { 0 } else { 1 }, &tail, f) }
            for (a, b) in [(0, 4), (2, 3), (1, 1)] {
                let syms = vec![Call(a, 1, 1), Call(b, 2, 1), Drop(1), Drop(2), Wait, m(Reply(1, right(a), 3)), m(Reply(2, wrong(b), 4)), m(Bc(0, 1))];
                grow(&pre, &syms, if quick { 4 } else { 5 }, &[J::Q, J::B, J::T(1), J::T(3)], &[PLAIN], 0, &tail, f);
                grow(&[pre.clone(), quiet(&[Call(a, 1, 1), Call(b, 2, 1)])].concat(), &syms, if quick { 4 } else { 5 }, &QBC, &[PLAIN], 0, &tail, f);
                grow(&[pre.clone(), quiet(&[Call(a, 1, 1), Call(b, 2, 1)])].concat(), &syms, 3, &[J::Q, J::B], &[PLAIN], 1, &tail, f);
            }
            // answers which come just in time
            for k in 0..6 { grow(&pre, &[Call(k, 1, 1), Call((k + 2) % 6, 2, 1), Nap, Wait, m(Reply(1, right(k), 3)), m(Reply(2, wrong((k + 2) % 6), 4))], if quick { 4 } else { 6 }, &[J::Q, J::B], &[PLAIN], 0, &tail, f) }
            // calls before and during the handshake
            for n in 0..4 { grow(&quiet(&hello()[..n]), &[Call(0, 1, 1), Call(4, 2, 1), Drop(1), Drop(2)], 4, &js, &[PLAIN], 0, &[vec![], hello()[n..].to_vec(), tail.clone()].concat(), f) }
        }
        "N03" => {
            let syms = vec![Up, m(Confirm), m(KeyResp(0)), m(KeyResp(1)), m(HashResp(false)), m(HashResp(true)), m(Odd(0)), m(Odd(2)), m(Odd(3)), m(Bc(0, 1)), m(Foreign), m(Stray), m(Bad(0)), Text, TErr, End(1), End(2), Call(0, 1, 1)];
            let cfgs = [PLAIN, Cfg { recon: true, again: true, on: 8, off: 0 }];
            grow(&[], &syms, if quick { 4 } else { 5 }, if quick { &QBC[..2] } else { &QBC }, &cfgs[..1], 0, &[], f);
            grow(&[], &syms, 3, &QBC, if quick { &cfgs[1..] } else { &cfgs }, 1, &[], f);
            for n in 1..4 {
                grow(&quiet(&hello()[..n]), &syms, 3, &QBC, &cfgs, if quick { 0 } else { 1 }, &[], f);
                let more = [PLAIN, cfgs[1], Cfg { on: 9, ..PLAIN }, Cfg { on: 7, ..PLAIN }];
                let turns = [J::Q, J::B, J::C, J::T(1), J::T(2), J::T(3)];
                if quick { grow(&quiet(&hello()[..n]), &syms, 2, &turns, &more[..1], 1, &hello()[n..], f); grow(&quiet(&hello()[..n]), &syms, 2, &turns, &more[1..], 0, &hello()[n..], f) }
                else { grow(&quiet(&hello()[..n]), &syms, 2, &turns, &more, 2, &hello()[n..], f) }
                let some = vec![m(Bc(0, 1)), m(Bc(2, 2)), Part(0, Bc(1, 3), true), Part(0, Bc(1, 3), false), Call(2, 1, 1), m(Bad(0)), m(Foreign), TErr];
                grow(&quiet(&hello()[..n]), &some, if quick { 3 } else { 4 }, &[J::Q, J::B, J::C, J::T(2)], &[PLAIN], 0, &hello()[n..], f);
            }
            // the whole handshake in every joining
            for j1 in 0..2 { for j2 in 0..2 { let b = |x: i32| if x == 0 { J::Q } else { J::B };
                let s = vec![(J::Q, m(Bc(1, 1))), (b(j1), m(Confirm)), (J::C, m(Bc(0, 2))), (J::Q, m(KeyResp(0))), (b(j2), m(Bc(0, 3))), (J::Q, m(HashResp(false))), (J::C, m(Bc(2, 4)))];
                emit(&s, PLAIN, 3, f); emit(&s, cfgs[1], 3, f) } }
        }
        "N04" => {
            let mut cfgs = vec![]; for (recon, again) in [(false, false), (true, false), (true, true)] { for on in [0, 9] { for off in [0, 8, 9] { cfgs.push(Cfg { recon, again, on, off }) } } }
            let few = [cfgs[0], Cfg { recon: true, again: true, on: 0, off: 0 }];
            let all = hello();
            let ends = vec![End(1), End(2), Call(6, 20, 1), Call(6, 21, 1), FailSend, m(Bc(0, 7))];
            let work = vec![Call(0, 1, 1), Call(4, 2, 1), m(Reply(1, R::ResA, 3)), m(Bc(1, 9)), m(Bc(0, 1)), Drop(1), m(Stray)];
            let syms = [ends.clone(), work.clone()].concat();
            let js = [J::Q, J::B, J::T(1), J::T(2)];
            for n in 0..=4 {
                let p = quiet(&all[..n]);
                grow(&p, &syms, 2, &js, &cfgs, if quick { 0 } else { 1 }, &[Call(1, 9, 1)], f);
                grow(&p, &syms, 2, &[J::Q, J::B], &few, 1, &[Call(1, 9, 1)], f);
                if n == 4 || !quick { grow(&p, &syms, 3, &[J::Q, J::B], &few, if quick { 0 } else { 1 }, &[Call(1, 9, 1), Call(6, 22, 1)], f) }
            }
            let busy = [quiet(&all), quiet(&[Call(0, 1, 1), Call(4, 2, 1)])].concat();
            grow(&busy, &syms, if quick { 3 } else { 4 }, &[J::Q, J::B, J::C], &few, 0, &[Call(1, 9, 1)], f);
            grow(&busy, &syms, 2, &js, &cfgs, if quick { 0 } else { 1 }, &[Call(1, 9, 1)], f); grow(&busy, &syms, 2, &js, &few, if quick { 1 } else { 2 }, &[Call(1, 9, 1)], f);
            // no reconnection before its time
            for n in [2, 3, 4] { grow(&[quiet(&all[..n]), quiet(&[Call(0, 1, 1)])].concat(), &[End(1), NapR, WaitR, Call(6, 21, 1), Call(1, 2, 1)], 4, &[J::Q, J::B], &few, 0, &[], f) }
            // a second session after a lost connection
            for c in [few[1], Cfg { recon: true, again: true, on: 8, off: 0 }, Cfg { recon: true, again: true, on: 0, off: 9 }] { for n in [2, 3, 4] {
                let lost = [quiet(&all[..n]), quiet(&[Call(0, 1, 1), End(1), WaitR])].concat();
                grow(&lost, &[m(Confirm), m(KeyResp(0)), m(HashResp(false)), m(Bc(0, 1)), Call(0, 3, 2), Call(1, 4, 1), m(Reply(3, R::ResA, 3)), m(Reply(1, R::Err, 4)), Call(6, 20, 2), Call(6, 21, 1), End(1)], if quick { 3 } else { 5 }, &[J::Q, J::B], &[c], 0, &[], f);
                let again = [lost.clone(), quiet(&all[1..])].concat();
                grow(&again, &[Call(0, 3, 2), Call(3, 4, 2), m(Reply(3, R::ResA, 3)), m(Reply(4, R::GErr, 3)), m(Reply(1, R::ResA, 3)), m(Bc(2, 1)), Call(6, 20, 2), End(1), End(2)], if quick { 3 } else { 5 }, &[J::Q, J::B], &[c], 0, &[], f);
            } }
        }
        _ => panic!("no such family"),
    }
}
