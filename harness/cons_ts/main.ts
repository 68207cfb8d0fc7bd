// Explores the generated TypeScript consumer: every script of the family, decided against a reference machine.
import { Client, Subject } from "clibri";
import * as C from "./c/index";
const P = C.Protocol;
const I = P.InternalServiceGroup;

// ---------------------------------------------------------------- inputs
// item: [what, ...]; key n, hash refused, odd n, bc k w, rep id kind value, stray, foreign, bad n, conf
type Item = any[];
type Input = { k: string; items?: Item[]; id?: number; kind?: number; obj?: number; first?: boolean };
type Join = "Q" | "B" | "C" | number; // everything settled; at once; in the same chunk; after n turns of the microtask queue
type Step = [Join, Input];
// every session of the consumer gets an identifier of its own
let session = 0;
const uuidOf = (n: number) => "00000000-0000-0000-0000-00000000000" + n;
const u8 = (b: ArrayBufferLike) => new Uint8Array(b);
function pack(seq: number, i: Item): Uint8Array {
    const UUID = uuidOf(session);
    const f = (): ArrayBufferLike => {
        switch (i[0]) {
            case "conf": return new I.ConnectConfirmationBeacon({}).pack(0, undefined);
            case "key": return new I.SelfKeyResponse({ uuid: UUID }).pack(seq, UUID);
            case "hash": return new I.HashResponse({ error: i[1] ? "" : undefined }).pack(seq, UUID);
            case "odd": switch (i[1]) {
                case 0: return new I.BeaconConfirmation({ error: undefined }).pack(seq, undefined);
                case 1: return new P.BcX({ what: 0 }).pack(seq, undefined);
                case 2: return new I.HashResponse({ error: undefined }).pack(seq, UUID);
                default: return new I.SelfKeyResponse({ uuid: UUID }).pack(seq, UUID);
            }
            case "bc": return (i[1] === 0 ? new P.BcX({ what: i[2] }) : i[1] === 1 ? new P.BcY({ what: i[2] }) : new P.G.BcZ({ what: i[2] })).pack(0, i[1] === 2 ? UUID : undefined);
            case "rep": {
                const w = { what: i[3] };
                switch (i[2]) {
                    case "ResA": return new P.ResA(w).pack(seq, UUID); case "ResB": return new P.ResB(w).pack(seq, UUID); case "Err": return new P.Err(w).pack(seq, UUID);
                    case "G.ResA": return new P.G.ResA(w).pack(seq, UUID); case "G.Err": return new P.G.Err(w).pack(seq, UUID);
                    case "Conf": return new I.BeaconConfirmation({ error: undefined }).pack(seq, UUID); case "Refuse": return new I.BeaconConfirmation({ error: (i[3] as number) & 1 ? "" : "refused" }).pack(seq, UUID);
                    default: return new P.Stray(w).pack(seq, undefined);
                }
            }
            case "stray": return new P.ResA({ what: 0 }).pack(777, UUID);
            case "foreign": return new P.Stray({ what: 1 }).pack(0, undefined);
            default: {
                const b = u8(new P.BcX({ what: 0 }).pack(0, undefined)).slice();
                if (i[1] === 0) b[4] ^= 0x55; else if (i[1] === 1) b.set([0xf0, 0xff, 0xff, 0xff], 0); else b[26] ^= 0x7f;
                return b.buffer;
            }
        }
    };
    return u8(f()).slice();
}
// ---------------------------------------------------------------- the rig
class Stub extends Client {
    public ev = { data: new Subject<ArrayBufferLike>("d"), connected: new Subject<void>("c"), disconnected: new Subject<void>("x"), error: new Subject<Error>("e") };
    public up = false; public fail = false; public key: number | undefined; public hash: number | undefined; public seqs = new Map<number, number>();
    constructor(private log: any[]) { super(); }
    public send(buffer: ArrayBufferLike | string): Error | undefined {
        if (!this.up || this.fail) return new Error("stub");
        const r = new P.BufferReaderMessages();
        if (r.chunk(buffer as ArrayBuffer) !== undefined) this.log.push(["send", 0, "garbage"]);
        for (let m = r.next(); m !== undefined; m = r.next()) {
            const q = m.header.sequence, x: any = m.msg;
            if (x.SelfId !== undefined) { this.key = q; this.log.push(["send", q, "key:" + x.SelfId.id + ":" + x.SelfId.name]); }
            else if (x.InternalServiceGroup !== undefined && x.InternalServiceGroup.HashRequest !== undefined) { const h = x.InternalServiceGroup.HashRequest; this.hash = q; this.log.push(["send", q, "hash:" + (h.protocol === C.Consumer.PROTOCOL_HASH && h.workflow === C.Consumer.WORKFLOW_HASH)]); }
            else {
                const all: any[] = [x.ReqP, x.ReqS, x.ReqN, x.G && x.G.ReqM, x.Bea, x.G && x.G.Beb]; const kind = all.findIndex((y) => y !== undefined);
                if (kind >= 0) { this.seqs.set(all[kind].what, q); this.log.push(["send", q, "call:" + kind + ":" + all[kind].what]); } else this.log.push(["send", q, "other"]);
            }
        }
        return undefined;
    }
    public destroy(): Promise<void> { this.log.push(["down"]); this.up = false; return Promise.resolve(); }
    public getEvents() { return this.ev; }
}
function outOf(r: any): string {
    if (r === undefined) return "ok";
    const t: any[] = [["ResA", P.ResA], ["ResB", P.ResB], ["Err", P.Err], ["G.ResA", P.G.ResA], ["G.Err", P.G.Err]].find((x: any) => r instanceof x[1]) as any;
    return t === undefined ? "?" : t[0] + ":" + r.what;
}
function request(kind: number, what: number, c: any, cb: (x: string) => void): any {
    const m = { what, to: 0, act: 0 };
    switch (kind) {
        case 0: return new C.ReqP(m, c).response((r: any) => cb("response=" + outOf(r))).err((r: any) => cb("err=" + outOf(r)));
        case 1: return new C.ReqS(m, c).response((r: any) => cb("response=" + outOf(r))).err((r: any) => cb("err=" + outOf(r)));
        case 2: return new C.ReqN(m, c).first((r: any) => cb("first=" + outOf(r))).second((r: any) => cb("second=" + outOf(r))).err((r: any) => cb("err=" + outOf(r)));
        case 3: return new C.GReqM(m, c).first((r: any) => cb("first=" + outOf(r))).second((r: any) => cb("second=" + outOf(r))).err((r: any) => cb("err=" + outOf(r)));
        case 4: return new C.BeaconBea({ what, act: 0 }, c).response(() => cb("response=ok")).err(() => cb("err=failed"));
        default: return new C.BeaconGBeb({ what, act: 0 }, c).response(() => cb("response=ok")).err(() => cb("err=failed"));
    }
}
const settle = () => new Promise((r) => setImmediate(r));
async function exec(script: Step[]): Promise<[Input[], any[]]> {
    session = 0; const log: any[] = [], inputs: Input[] = [], objs = new Map<number, any>();
    const t = new Stub(log);
    const c: any = new C.Consumer(t, { id: 2, name: 4 }, { global: false });
    c.connected.subscribe(() => log.push(["connected"])); c.disconnected.subscribe(() => log.push(["disconnected"])); c.error.subscribe(() => log.push(["error"]));
    c.ready.subscribe((u: string) => { let own = u; try { own = c.uuid; } catch (e) { /* the connection is lost meanwhile */ } log.push(["ready", u + ";" + own]); }); c.broadcast.BcX.subscribe((m: any) => log.push(["bc", 0, m.what])); c.broadcast.BcY.subscribe((m: any) => log.push(["bc", 1, m.what])); c.broadcast.GBcZ.subscribe((m: any) => log.push(["bc", 2, m.what]));
    let gone = false, half = false; // half: a package has been sent up to its middle
    const known = (i: Item): number | undefined => {
        switch (i[0]) { case "key": return t.key; case "hash": return t.hash; case "odd": return i[1] === 0 || i[1] === 3 ? t.hash : t.key; case "rep": return t.seqs.get(i[1]); default: return 0; }
    };
    for (let k = 0; k < script.length; k += 1) {
        const [join, inp] = script[k];
        if (k > 0) { if (join === "Q") { await settle(); log.push(["quiet"]); } else if (typeof join === "number") for (let n = 0; n < join; n += 1) await undefined; }
        let qs: number[] = [];
        if (inp.k === "recv" || inp.k === "part") {
            if (!t.up && !gone) continue;
            const q = inp.items!.map(known); if (q.some((x) => x === undefined)) continue; qs = q as number[];
            if (half !== (inp.k === "part" && !inp.first)) continue;
            half = inp.k === "part" && inp.first === true;
        }
        if (inp.k === "up" && t.up || inp.k === "down" && !t.up && !gone) continue;
        if ((inp.k === "again" || inp.k === "forget") && !objs.has(inp.obj!)) continue;
        inputs.push(inp); log.push(["in", inputs.length - 1]);
        const settled = (id: number, p: Promise<any>) => p.then((r) => log.push(["done", id, outOf(r)]), () => log.push(["done", id, "failed"]));
        switch (inp.k) {
            case "up": session += 1; t.up = !gone; t.key = t.hash = undefined; t.seqs.clear(); t.ev.connected.emit(); break;
            case "down": t.up = half = false; t.ev.disconnected.emit(); break;
            case "cerr": t.ev.error.emit(new Error("stub")); break;
            case "recv": { const parts = inp.items!.map((x, n) => pack(qs[n], x)); const b = new Uint8Array(parts.reduce((s, x) => s + x.length, 0)); let at = 0; parts.forEach((x) => { b.set(x, at); at += x.length; }); t.ev.data.emit(b.buffer); break; }
            case "part": { const b = pack(qs[0], inp.items![0]); const cut = 22 + (b.length % 9); t.ev.data.emit((inp.first ? b.slice(0, cut) : b.slice(cut)).buffer); break; }
            case "call": { const id = inp.id!; const o = request(inp.kind!, id, c, (x) => log.push(["cb", id, x])); objs.set(id, o); settled(id, o.send()); break; }
            case "again": settled(inp.id!, objs.get(inp.obj!).send()); break;
            case "forget": objs.get(inp.obj!).destroy(); break;
            case "fail": t.fail = true; break;
            case "heal": t.fail = false; break;
            case "destroy": gone = true; c.destroy(); break;
        }
    }
    await settle(); log.push(["quiet"]);
    return [inputs, log];
}
// ---------------------------------------------------------------- the reference machine
type Exp = { o: any[]; opt: boolean; ord: boolean; alt?: string };
const RIGHT: any = [{ "ResA": "response", "Err": "err" }, { "ResA": "response", "Err": "err" }, { "ResA": "first", "ResB": "second", "Err": "err" }, { "G.ResA": "first", "ResB": "second", "G.Err": "err" }];
/** The index of the first entry of the log which is not allowed, or -1. */
function check(inputs: Input[], log: any[]): number {
    let sessions = 0, up = false, gone = false, fail = false, auth = "idle", keySeq = -1, hashSeq = -1, exp: Exp[] = [];
    const calls = new Map<number, { obj: number; kind: number; seq: number; st: string }>(); const dead = new Set<number>(); const bySeq = (q: number) => Array.from(calls.entries()).find((x) => x[1].st === "sent" && x[1].seq === q);
    const want = (o: any[], ord = false, opt = false) => exp.push({ o, opt, ord });
    const drop = () => { calls.forEach((x, id) => { if (x.st !== "over") { if (x.st === "new") exp.forEach((e) => { if (e.o[0] === "send" && e.o[2] === "call:" + x.kind + ":" + x.obj) e.opt = true; }); x.st = "over"; want(["done", id, "failed"]); if (x.kind > 3 && !dead.has(x.obj)) want(["cb", x.obj, "err=failed"], false, true); } }); exp.forEach((e) => { if (e.o[0] === "ready" || e.o[0] === "send") e.opt = true; }); auth = "idle"; };
    const start = (id: number, obj: number, kind: number) => {
        const busy = Array.from(calls.values()).some((x) => x.obj === obj && x.st !== "over");
        if (!up || fail || busy || dead.has(obj)) { want(["done", id, "failed"]); return; }
        calls.set(id, { obj, kind, seq: -1, st: "new" }); want(["send", -1, "call:" + kind + ":" + obj]);
    };
    const item = (i: Item, key: number, hash: number, seqs: Map<number, number>) => {
        switch (i[0]) {
            case "bc": want(["bc", i[1], i[2]], true); return;
            case "conf": if (up && auth === "idle") { auth = fail ? "refused" : "needkey"; if (!fail) want(["send", -1, "key:2:4"]); } return; // the handshake starts when the producer confirmed the connection
            case "key": case "hash": case "odd": {
                const seq = i[0] === "key" ? key : i[0] === "hash" ? hash : i[1] === 0 || i[1] === 3 ? hash : key;
                if (auth === "key" && seq === keySeq) { if (i[0] === "key") { auth = "needhash"; want(["send", -1, "hash:true"], false, fail); } else auth = "refused"; }
                else if (auth === "hash" && seq === hashSeq) { if (i[0] === "hash" && !i[1]) { auth = "ready"; want(["ready", uuidOf(sessions) + ";" + uuidOf(sessions)]); } else auth = "refused"; }
                else if (i[0] === "odd" && i[1] === 1) want(["bc", 0, 0], true);
                return;
            }
            case "rep": {
                const e = bySeq(seqs.get(i[1])!); if (e === undefined) return;
                const [id, x] = e; x.st = "over";
                if (dead.has(x.obj)) { want(["done", id, "failed"]); return; }
                if (x.kind < 4) { const h = RIGHT[x.kind][i[2]]; if (h === undefined) want(["done", id, "failed"]); else { want(["cb", x.obj, h + "=" + i[2] + ":" + i[3]]); want(["done", id, i[2] + ":" + i[3]]); } }
                else if (i[2] === "Conf") { want(["cb", x.obj, "response=ok"]); want(["done", id, "ok"]); }
                else { want(["cb", x.obj, "err=failed"]); want(["done", id, "failed"]); }
                return;
            }
        }
    };
    const sent = new Map<number, number>();
    for (let n = 0; n < log.length; n += 1) {
        const o = log[n];
        if (o[0] === "in") {
            const i = inputs[o[1]];
            switch (i.k) {
                case "up": sessions += 1; if (!gone) { up = true; auth = "idle"; sent.clear(); want(["connected"], true); } break;
                case "down": if (!gone) { up = false; want(["disconnected"], true); drop(); exp = exp.filter((e) => e.o[0] !== "ready" && !(e.o[0] === "send" && !e.o[2].startsWith("call"))); } break; // the handshake of a lost connection is over
                case "cerr": if (!gone) want(["error"], true); break;
                case "recv": if (!gone) { i.items!.forEach((x) => item(x, keySeq, hashSeq, sent)); if (i.items!.some((x) => x[0] === "bad")) want(["error"], false, true); } break;
                case "part": if (!gone && !i.first) item(i.items![0], keySeq, hashSeq, sent); break;
                case "call": start(i.id!, i.id!, i.kind!); break;
                case "again": start(i.id!, i.obj!, i.kind!); break;
                case "forget": dead.add(i.obj!); exp.forEach((e) => { if (e.o[0] === "cb" && e.o[1] === i.obj) e.opt = true; if (e.o[0] === "done" && calls.has(e.o[1]) && calls.get(e.o[1])!.obj === i.obj) e.alt = "failed"; }); break;
                case "fail": fail = true; exp.forEach((e) => { if (e.o[2] === "hash:true") e.opt = true; }); break;
                case "heal": fail = false; break;
                case "destroy": if (!gone) { gone = true; up = false; want(["down"]); drop(); } else want(["down"], false, true); break;
            }
        } else if (o[0] === "quiet") {
            if (exp.some((e) => !e.opt)) return n;
            exp = [];
        } else {
            let at = -1;
            for (const opt of [false, true]) for (let k = 0; k < exp.length && at < 0; k += 1) {
                const e = exp[k].o; if (exp[k].opt !== opt) continue;
                if (e[0] === o[0] && (o[0] === "send" ? e[2] === o[2] : e.length === o.length && e.every((x, j) => x === o[j] || j === 2 && o[0] === "done" && exp[k].alt === o[j]))) at = k;
            }
            if (at < 0) return n;
            if (exp[at].ord && exp.slice(0, at).some((e) => e.ord && !e.opt)) return n;
            exp.splice(at, 1);
            if (o[0] === "send") {
                const q = o[1];
                if (bySeq(q) !== undefined || auth === "key" && keySeq === q || auth === "hash" && hashSeq === q) return n;
                const t = String(o[2]);
                if (t.startsWith("key")) { if (auth === "needkey") { auth = "key"; keySeq = q; } } else if (t.startsWith("hash")) { if (auth === "needhash") { auth = "hash"; hashSeq = q; } }
                else { const obj = Number(t.split(":")[2]); sent.set(obj, q); calls.forEach((x) => { if (x.st === "new" && x.obj === obj) { x.st = "sent"; x.seq = q; } }); }
            }
        }
    }
    return -1;
}
// ---------------------------------------------------------------- families
const recv = (...x: any[]): Input => ({ k: "recv", items: [x] });
const call = (kind: number, id: number): Input => ({ k: "call", kind, id });
const UP: Input = { k: "up" }, UPC: Input = { k: "up", first: true }, DOWN: Input = { k: "down" }, CERR: Input = { k: "cerr" }, FAIL: Input = { k: "fail" }, HEAL: Input = { k: "heal" }, DESTROY: Input = { k: "destroy" };
const part = (sep: boolean, ...x: any[]): Input => ({ k: "part", items: [x], first: sep });
const right = (k: number) => ["ResA", "ResA", "ResB", "G.ResA", "Conf", "Conf"][k], wrong = (k: number) => ["Err", "Err", "Err", "G.Err", "Refuse", "Refuse"][k];
const quiet = (l: Input[]): Step[] => l.map((x) => ["Q", x] as Step);
function valid(seq: Step[], s: Input): boolean {
    const count = (f: (x: Input) => boolean) => seq.filter((x) => f(x[1])).length;
    switch (s.k) {
        case "up": return count((x) => x.k === "up") === count((x) => x.k === "down") && count((x) => x.k === "up") < 3;
        case "down": return count((x) => x.k === "up") > count((x) => x.k === "down");
        case "cerr": case "fail": case "destroy": return count((x) => x.k === s.k) === 0;
        case "heal": return count((x) => x.k === "fail") > count((x) => x.k === "heal");
        case "call": return count((x) => x.k === "call" && x.id === s.id) === 0;
        case "again": return count((x) => x.k === "call" && x.id === s.obj) === 1 && count((x) => x.k === "again" && x.id === s.id) === 0;
        case "forget": return count((x) => x.k === "call" && x.id === s.obj) === 1 && count((x) => x.k === "forget") === 0;
        case "recv": if (s.items![0][0] === "rep") return count((x) => (x.k === "call" || x.k === "again") && (x.id === s.items![0][1] || x.obj === s.items![0][1])) > 0 && count((x) => x.k === "recv" && x.items![0][0] === "rep" && x.items![0][1] === s.items![0][1]) < 2; return true;
        default: return true;
    }
}
function emit(seq: Step[], f: (s: Step[]) => void) {
    const out: Step[] = [];
    for (const [j, s] of seq) {
        const last = out[out.length - 1];
        if (j === "C" && last !== undefined && last[1].k === "recv" && s.k === "recv") { out[out.length - 1] = [last[0], { k: "recv", items: last[1].items!.concat(s.items!) }]; continue; }
        const jj: Join = s.k === "up" || s.k === "again" ? "Q" : j === "C" ? "B" : j; // a new connection takes its time; a request is sent again after it settled or stays unanswered
        if (s.k === "part") { out.push([jj, { k: "part", items: s.items, first: true }], [s.first ? "Q" : "B", { k: "part", items: s.items, first: false }]); continue; }
        if (s.k === "cut") { out.push([jj, { k: "part", items: s.items, first: true }]); continue; }
        out.push([jj, s]);
        if (s.k === "up" && s.first) out.push(["B", recv("conf")]);
    }
    f(out);
}
function grow(prefix: Step[], syms: Input[], depth: number, joins: Join[], tail: Input[], f: (s: Step[]) => void) {
    const seq = prefix.slice();
    const rec = (left: number) => {
        emit(seq.concat(quiet(tail)), f);
        if (left === 0) return;
        for (const s of syms) for (const j of joins) {
            if (!valid(seq, s) || j === "C" && !(seq.length > 0 && seq[seq.length - 1][1].k === "recv" && s.k === "recv")) continue;
            seq.push([j, s]); rec(left - 1); seq.pop();
        }
    };
    rec(depth);
}
const QBC: Join[] = ["Q", "B", "C"], TURNS: Join[] = ["Q", "B", "C", 1, 2, 3, 5];
function each(quick: boolean, f: (s: Step[]) => void) {
    const hello: Input[] = [UP, recv("conf"), recv("key"), recv("hash", false)], pre = quiet(hello), d = quick ? 0 : 1;
    const cut = (...x: any[]): Input => ({ k: "cut", items: [x] });
    // one call of every kind with every kind of answer, in every chunking, next to other messages
    for (let k = 0; k < 6; k += 1) for (const r of ["ResA", "ResB", "Err", "G.ResA", "G.Err", "Conf", "Refuse", "Other"]) for (let p = 0; p < 3; p += 1) {
        const s = p === 0 ? recv("rep", 1, r, 7) : part(p === 1, "rep", 1, r, 7);
        grow(pre.concat(quiet([call(k, 1)])), [s, recv("bc", 2, 3), recv("bad", 0), recv("stray"), recv("conf")], 2 + d, QBC, [call(k, 9), recv("rep", 9, right(k), 1)], f);
    }
    // three calls, their answers in every order, broadcasts, strays and garbage
    for (const ks of [[0, 2, 4], [3, 1, 5], [2, 2, 2]]) {
        const calls = ks.map((k, i) => call(k, i + 1)), replies = ks.map((k, i) => recv("rep", i + 1, i === 1 ? wrong(k) : right(k), 10 + i));
        grow(pre, calls.concat(replies, [recv("bc", 0, 1), recv("stray")]), 4 + d, ["Q", "B"], [], f);
        grow(pre.concat(quiet(calls)), replies.concat([recv("bc", 0, 1), recv("bc", 1, 2), recv("bad", 0), recv("foreign")]), 4, QBC, [], f);
        if (!quick) grow(pre.concat(quiet(calls)), replies.concat([recv("bc", 0, 1), recv("bc", 1, 2), recv("bad", 0), recv("foreign")]), 5, ["Q", "B"], [], f);
        grow(pre.concat(quiet(calls)), replies.concat([recv("bc", 0, 1), recv("bad", 1), recv("bad", 2), DOWN, CERR]), 3, TURNS, [UPC, recv("bc", 1, 9)], f);
        if (!quick) grow(pre.concat(quiet(calls)), replies.concat([recv("bc", 0, 1), recv("bad", 1), recv("bad", 2), DOWN, CERR]), 4, ["Q", "B", 2], [UPC, recv("bc", 1, 9)], f);
    }
    // the handshake
    const shake = [UP, recv("conf"), recv("key"), recv("hash", false), recv("hash", true), recv("odd", 0), recv("odd", 1), recv("odd", 2), recv("odd", 3), recv("bc", 0, 1), recv("stray"), recv("bad", 0), DOWN, CERR, call(0, 1), recv("rep", 1, "ResA", 5), FAIL];
    grow([], shake, 3, QBC, [], f); if (!quick) grow([], shake, 4, ["Q", "B"], [], f);
    for (let n = 1; n <= 4; n += 1) { grow(quiet(hello.slice(0, n)), shake, 3, quick ? QBC : ["Q", "B", "C", 1, 3], [], f); grow(quiet(hello.slice(0, n)), shake, 2, TURNS, hello.slice(n), f); }
    // lost connections, second sessions, failing transport, repeated and abandoned requests, a destroyed consumer
    const life = [call(0, 1), call(4, 2), recv("rep", 1, "ResA", 5), recv("rep", 2, "Refuse", 5), recv("rep", 2, "Conf", 5), recv("bc", 1, 4), cut("bc", 0, 6), DOWN, UPC, FAIL, HEAL, { k: "again", kind: 0, id: 5, obj: 1 }, { k: "again", kind: 4, id: 6, obj: 2 }, { k: "forget", obj: 1 }, { k: "forget", obj: 2 }, DESTROY, CERR] as Input[];
    for (let n = 0; n <= 4; n += 1) grow(quiet(hello.slice(0, n)), life, 3, ["Q", "B"], [UPC, recv("key"), recv("hash", false), recv("bc", 0, 8)], f);
    grow(pre.concat(quiet([call(0, 1), call(4, 2)])), life, quick ? 3 : 4, quick ? ["Q", "B", 1, 2] : ["Q", "B"], [UPC, recv("key"), recv("hash", false), recv("bc", 0, 8)], f);
    grow(pre.concat(quiet([call(0, 1)])), life, 4 + d, ["Q"], [HEAL, DOWN, UPC, recv("key"), recv("hash", false), { k: "again", kind: 0, id: 7, obj: 1 }, recv("rep", 1, "Err", 3)], f);
}
// One long session: many calls stay open while many others come and go; every open call has its own number and every answer
// (in reverse order at the end) reaches its call.
async function marathon(turns: number, open: number): Promise<string> {
    const log: any[] = [], t = new Stub(log), c: any = new C.Consumer(t, { id: 2, name: 4 }, { global: false });
    const send = (i: Item, q: number) => t.ev.data.emit(pack(q, i).buffer);
    const turn = async () => { for (let k = 0; k < 8; k += 1) await undefined; };
    t.up = true; t.ev.connected.emit(); await settle();
    send(["conf"], 0); await settle(); send(["key"], t.key as number); await settle(); send(["hash", false], t.hash as number); await settle();
    const start = (kind: number, id: number) => { request(kind, id, c, () => undefined).send().then((r: any) => log.push(["done", id, outOf(r)]), () => log.push(["done", id, "failed"])); };
    const want = (kind: number, v: number) => kind < 4 ? right(kind) + ":" + v : "ok";
    const held: Array<[number, number, number]> = [];
    const get = (id: number): number => { const q = t.seqs.get(id); if (q === undefined) throw new Error("call " + id + " was not sent"); if (held.some((h) => h[2] === q)) throw new Error("two open calls have the number " + q); return q; };
    for (let id = 0; id < open; id += 1) { start(id % 4, id); await turn(); held.push([id % 4, id, get(id)]); }
    for (let k = 0; k < turns; k += 1) {
        const kind = k % 6, v = k % 251; log.length = 0; t.seqs.delete(250);
        start(kind, 250); await turn(); send(["rep", 250, right(kind), v], get(250)); await turn();
        const done = log.filter((o) => o[0] === "done");
        if (done.length !== 1 || done[0][1] !== 250 || done[0][2] !== want(kind, v)) throw new Error("call " + k + " (kind " + kind + ") was answered with " + v + ": " + JSON.stringify(log));
    }
    for (const [kind, id, q] of held.reverse()) {
        log.length = 0; send(["rep", id, right(kind), id], q); await turn();
        const done = log.filter((o) => o[0] === "done");
        if (done.length !== 1 || done[0][1] !== id || done[0][2] !== want(kind, id)) throw new Error("open call " + id + " (number " + q + "): " + JSON.stringify(log));
    }
    return String(turns + open);
}
async function main() {
    if (process.argv[5] === "MARATHON") { try { console.log("CALLS " + await marathon(process.argv[2] === "thorough" ? 1000000 : 70000, 200)); } catch (e: any) { console.log("BROKEN " + (e && e.message)); } return; }
    const quick = process.argv[2] !== "thorough", shard = Number(process.argv[3]), of = Number(process.argv[4]);
    const st = { scripts: 0, runs: 0, observations: 0, longest: 0, bad: 0, undecided: 0 }; const bad: string[] = []; let n = 0; let broken: string | undefined;
    process.on("uncaughtException", (e) => { broken = "uncaught: " + e.message; }); process.on("unhandledRejection", (e: any) => { broken = "unhandled rejection: " + (e && e.message); });
    const queue: Step[][] = []; 
    const flush = async () => {
        for (const s of queue) {
            broken = undefined; let inputs: Input[] = [], log: any[] = [], at = -1;
            try { [inputs, log] = await exec(s); at = check(inputs, log); } catch (e: any) { broken = "exception: " + (e && e.stack); }
            st.scripts += 1; st.runs += 1; st.observations += log.length; st.longest = Math.max(st.longest, s.length);
            if (broken !== undefined || at >= 0) {
                st.bad += 1; if (bad.length < 40) bad.push(JSON.stringify({ len: s.length, cfg: "", script: JSON.stringify(s), what: broken || "", choices: [], log: log.map((o, k) => (k === at ? ">>> " : "") + (o[0] === "in" ? "<- " + JSON.stringify(inputs[o[1]]) : JSON.stringify(o))) }));
            }
            if (st.bad >= 200) break;
            if (st.scripts < 2000 && (st.scripts & (st.scripts - 1)) === 0 && shard === 0) console.log("SAMPLE " + JSON.stringify(s));
        }
        queue.length = 0;
    };
    // scripts are generated by recursion; they are taken in portions to keep the memory small
    const portions: Array<() => void> = []; let skip = 0; const LIMIT = 200000;
    for (;;) {
        n = 0; let more = false;
        each(quick, (s) => { n += 1; if (n % of !== shard) return; const k = (n - shard) / of; if (k < skip) return; if (queue.length >= LIMIT) { more = true; return; } queue.push(s); });
        skip += queue.length; await flush(); if (st.bad >= 200 || !more) break;
    }
    bad.sort((a, b) => a.length - b.length).forEach((b) => console.log("BAD " + b));
    console.log("STATS " + JSON.stringify(st));
}
main();
