// Explores the generated TypeScript producer: every script of the family, decided against a reference machine.
import { Server, Subject, Options } from "clibri";
import { Producer, Context } from "./p/index";
import * as P from "./p/implementation/protocol";
import { rig, FIXED } from "./rig";
const I = P.InternalServiceGroup;

// ---------------------------------------------------------------- inputs
// item: [what, ...]; key id name, hash n (0 right), req kind out to act, bea kind out act, stray, bad n
type Item = any[];
type Input = { k: string; u?: string; items?: Item[]; first?: boolean; app?: number[]; last?: boolean; ok?: boolean; no?: number[] };
type Join = "Q" | "B" | "C" | number; // everything settled; at once; in the same chunk; after n turns of the microtask queue
type Step = [Join, Input];
type Cfg = { ident: number; err: number; con: number[]; dis: number[]; herr: number; lag: string };
const u8 = (b: ArrayBufferLike) => new Uint8Array(b);
// numbers of messages are spread over the whole range on the wire
function wire(n: number): number { return Math.imul(n, 0x9E3779B1) >>> 0; }
function unwire(n: number): number { return Math.imul(n, 0xE8B2F51) >>> 0; }
function pack(no: number, i: Item): Uint8Array {
    const w = (out: number, to: number, act: number) => ({ what: no, to, act: out * 16 + act });
    const f = (): ArrayBufferLike => {
        switch (i[0]) {
            case "key": return new P.SelfId({ id: i[1], name: i[2] === null ? undefined : i[2] }).pack(wire(100 + no), undefined);
            case "hash": return new I.HashRequest({ protocol: i[1] & 1 ? "x" : Producer.hash.PROTOCOL, workflow: i[1] & 2 ? "y" : Producer.hash.WORKFLOW }).pack(wire(100 + no), undefined);
            case "req": { const m = w(i[2], i[3], i[4]); return (i[1] === 0 ? new P.ReqP(m) : i[1] === 1 ? new P.ReqS(m) : i[1] === 2 ? new P.ReqN(m) : new P.G.ReqM(m)).pack(wire(100 + no), undefined); }
            case "bea": { const m = { what: no, act: i[2] * 16 + i[3] }; return (i[1] === 0 ? new P.Bea(m) : new P.G.Beb(m)).pack(wire(100 + no), undefined); }
            case "stray": return new P.Stray({ what: 1 }).pack(wire(100 + no), undefined);
            default: {
                const b = u8(new P.ReqP(w(0, 0, 0)).pack(wire(100 + no), undefined)).slice();
                if (i[1] === 0) b[4] ^= 0x55; else if (i[1] === 1) b.set([0xf0, 0xff, 0xff, 0xff], 0); else b[26] ^= 0x7f;
                return b.buffer;
            }
        }
    };
    return u8(f()).slice();
}
// ---------------------------------------------------------------- the rig
function decode(buffer: ArrayBufferLike): Array<[number, string]> {
    const r = new P.BufferReaderMessages(), out: Array<[number, string]> = [];
    if (r.chunk(buffer as ArrayBuffer) !== undefined) return [[0, "garbage"]];
    for (let m = r.next(); m !== undefined; m = r.next()) {
        const x: any = m.msg, s = x.InternalServiceGroup || {}, g = x.G || {};
        const t = s.ConnectConfirmationBeacon ? "Confirm" : s.SelfKeyResponse ? "KeyResp:" + s.SelfKeyResponse.uuid : s.HashResponse ? "HashResp:" + (s.HashResponse.error !== undefined)
            : s.BeaconConfirmation ? "BeaConf:" + (s.BeaconConfirmation.error === undefined ? "false" : s.BeaconConfirmation.error.indexOf("refused") >= 0) : x.ResA ? "ResA:" + x.ResA.what : x.ResB ? "ResB:" + x.ResB.what : x.Err ? "Err:" + x.Err.what
            : x.BcX ? "BcX:" + x.BcX.what : x.BcY ? "BcY:" + x.BcY.what : g.ResA ? "G.ResA:" + g.ResA.what : g.Err ? "G.Err:" + g.Err.what : g.BcZ ? "G.BcZ:" + g.BcZ.what : "other";
        out.push([unwire(m.header.sequence), t]);
    }
    return out;
}
class Stub extends Server {
    public ev = { ready: new Subject<void>("r"), shutdown: new Subject<void>("s"), error: new Subject<any>("e"), connected: new Subject<string>("c"), disconnected: new Subject<string>("d"), received: new Subject<any>("v") };
    public on = new Set<string>(); public fail = new Set<string>(); public failDisc = false; public listenOk = true; public lagging = 0;
    constructor(private lag: string) { super(); }
    public listen(): Promise<void> { return this.listenOk ? Promise.resolve() : Promise.reject(new Error("stub")); }
    public send(buffer: ArrayBufferLike, uuid?: string): Promise<void> {
        const end = (): Promise<void> => {
            if (uuid !== undefined && (!this.on.has(uuid) || this.fail.has(uuid))) return Promise.reject(new Error("stub"));
            decode(buffer).forEach(([q, t]) => rig.log.push(["send", uuid === undefined ? "" : uuid, q, t]));
            return Promise.resolve();
        };
        if (this.lag !== uuid) return end();
        this.lagging += 1; return new Promise((r) => setImmediate(r)).then(() => { this.lagging -= 1; return end(); });
    }
    public disconnect(uuid: string): Promise<void> { rig.log.push(["disc", uuid]); return this.failDisc ? Promise.reject(new Error("stub")) : Promise.resolve(); }
    public shutdown(): Promise<void> { rig.log.push(["down"]); return Promise.resolve(); }
    public getEvents() { return this.ev; }
}
const turn = () => new Promise((r) => setImmediate(r));
async function exec(cfg: Cfg, script: Step[]): Promise<[Input[], any[]]> {
    const inputs: Input[] = []; rig.log = []; rig.gates = []; rig.mode = { con: cfg.con, dis: cfg.dis, err: cfg.herr }; const log = rig.log;
    const t = new Stub(cfg.lag), p = new Producer(t, new Context(), new Options({ consumerErrorHandelingStrategy: cfg.err, producerIndentificationStrategy: cfg.ident }));
    const settle = async () => { do { await turn(); await turn(); } while (t.lagging > 0); };
    for (let k = 0; k < script.length; k += 1) {
        const [join, inp] = script[k];
        if (k > 0) { if (join === "Q") { await settle(); log.push(["quiet"]); } else if (typeof join === "number") for (let n = 0; n < join; n += 1) await undefined; }
        if (inp.k === "resume" && rig.gates.length === 0) continue;
        const what = inp.k === "resume" ? rig.gates[inp.last ? rig.gates.length - 1 : 0][0] : 0;
        inputs.push(inp); log.push(["in", inputs.length - 1, what]);
        switch (inp.k) {
            case "conn": t.on.add(inp.u!); t.ev.connected.emit(inp.u!); break;
            case "dis": t.on.delete(inp.u!); t.ev.disconnected.emit(inp.u!); break;
            case "recv": { const parts = inp.items!.map((x, n) => pack(inp.no![n], x)); const b = new Uint8Array(parts.reduce((s, x) => s + x.length, 0)); let at = 0; parts.forEach((x) => { b.set(x, at); at += x.length; }); t.ev.received.emit({ uuid: inp.u!, buffer: b.buffer }); break; }
            case "part": { const b = pack(inp.no![0], inp.items![0]); const cut = 22 + (b.length % 9); t.ev.received.emit({ uuid: inp.u!, buffer: (inp.first ? b.slice(0, cut) : b.slice(cut)).buffer }); break; }
            case "app": { const [kind, out, to, act] = inp.app!; const m = { what: inp.no![0], to, act: out * 16 + act }; if (kind === 0) p.events.ev.emit(new P.Ev(m)); else p.events.gEvO.emit(new P.G.EvO(m)); break; }
            case "resume": { const i = inp.last ? rig.gates.length - 1 : 0; const g = rig.gates.splice(i, 1)[0]; g[1](); break; }
            case "fail": t.fail.add(inp.u!); break;
            case "faildisc": t.failDisc = true; break;
            case "ready": t.ev.ready.emit(); break;
            case "shutdown": t.ev.shutdown.emit(); break;
            case "serr": t.ev.error.emit(new Error("stub")); break;
            case "destroy": p.destroy().catch(() => log.push(["odd"])); break;
            case "listen": t.listenOk = inp.ok!; p.listen().then(() => log.push(["listen", true]), () => log.push(["listen", false])); break;
        }
    }
    await settle(); log.push(["quiet"]);
    return [inputs, log];
}
// ---------------------------------------------------------------- the reference machine
type Exp = { o: any[]; opt: boolean; after: Exp[]; gate: number; met: boolean; own: string; late: boolean };
type Con = { hash: boolean; key: any; asg: any; disc: boolean; half: boolean; last: Exp | undefined };
const show = (k: any, f: string[]) => (k === undefined ? "-" : f.map((x) => (k[x] === undefined ? "" : String(k[x]))).join(","));
/** The index of the first entry of the log which is not allowed, or -1. */
function check(cfg: Cfg, inputs: Input[], log: any[]): number {
    const cons = new Map<string, Con>(); const fail = new Set<string>(); let gone = false; let exp: Exp[] = [];
    const want = (o: any[], after: Exp[] = [], opt = false, gate = 0, own = ""): Exp => { const e = { o, opt: opt || gone, after, gate, met: false, own, late: false }; exp.push(e); return e; };
    const send = (u: string, q: number, t: string, after: Exp[] = [], gate = 0, own = ""): Exp | undefined => (cons.has(u) && !fail.has(u) ? want(["send", u, q, t], after, false, gate, own) : undefined);
    const disconnect = (u: string) => { const c = cons.get(u); if (c === undefined) return; want(["disc", u], [], c.disc); c.disc = true; };
    const refuse = (u: string) => { // the configured strategy
        const c = cons.get(u);
        if (cfg.err === 0 || cfg.err === 2) disconnect(u);
        if (cfg.err === 1 || cfg.err === 2) want(["E", c === undefined ? "" : u]);
    };
    const fails = (u: string, h: Exp, gate: number) => { // the same, as soon as a handler has failed
        if (cfg.err === 0 || cfg.err === 2) want(["disc", u], [h], false, gate, u).late = true;
        if (cfg.err === 1 || cfg.err === 2) want(["E", u], [h], false, gate, u);
    };
    const merge = (old: any, n: any, over: boolean) => (old === undefined || over ? n : Object.assign({}, old, Object.keys(n).reduce((s: any, x) => { if (n[x] !== undefined) s[x] = n[x]; return s; }, {})));
    const all = () => Array.from(cons.keys()), k2 = () => all().filter((x) => { const k = cons.get(x)!.key; return k !== undefined && k.id === 2; }), a7 = () => all().filter((x) => { const k = cons.get(x)!.asg; return k !== undefined && k.uid === 7; });
    /** A handler starts: what it sees and does; returns its start, its recipients and its gate. */
    const enter = (kind: number, what: number, to: number, act: number, u: string, c: Con | undefined): [Exp, string[], number] => {
        const self = u === "" ? "u1" : u;
        const h = want(["H", kind, what, u, c === undefined ? "" : show(c.key, ["id", "name"]) + "|" + show(c.asg, ["uid", "auth", "level"]), all().sort().join(), k2().sort().join(), a7().sort().join()], c !== undefined && c.last !== undefined ? [c.last] : []);
        if (c !== undefined) {
            c.last = h;
            switch (act) {
                case 1: c.key = merge(c.key, { id: 2, name: undefined }, false); break;
                case 2: c.key = { id: 2, name: 5 }; break;
                case 13: c.key = { id: 3, name: undefined }; break;
                case 3: c.asg = merge(c.asg, { uid: 7, auth: undefined, level: 1 }, false); break;
                case 4: c.asg = merge(c.asg, { uid: undefined, auth: true, level: 2 }, false); break;
                case 5: c.asg = { uid: 8, auth: undefined, level: 3 }; break;
                case 15: c.key = merge(c.key, { id: 0, name: 0 }, false); c.asg = merge(c.asg, { uid: 0, auth: false, level: 0 }, false); break;
                case 7: want(["disc", u], [h]); break;
            }
        }
        switch (act) {
            case 8: destroy([h]); break;
            case 10: cons.forEach((x) => { x.asg = merge(x.asg, { uid: 7, auth: undefined, level: 9 }, false); }); break;
            case 12: if (cons.has("u2")) { const x = cons.get("u2")!; x.key = merge(x.key, { id: 2, name: 9 }, false); } break;
            case 11: if (!gone) event(0, what + 100, 0, 0, 0, h); break;
            case 14: cons.forEach((x) => { x.asg = { uid: 7, auth: undefined, level: 9 }; x.key = { id: 2, name: 9 }; }); break;
        }
        const list = [all, () => all().filter((x) => x !== self), () => [], () => FIXED.slice(), k2, () => all().filter((x) => x !== self), () => all().filter((x) => x !== "u1" && x !== "u2")][to]();
        return [h, list, act === 9 ? what : 0];
    };
    const cast = (to: string[], t: string, after: Exp[], gate: number, own: string, open = false): Exp[] => to.map((x) => (cons.has(x) ? send(x, 0, t, after, gate, own) : want(["send", x, 0, t], after, true, gate, own))).filter((x) => x !== undefined).map((x) => { if (open) x!.opt = true; return x!; });
    const event = (kind: number, what: number, out: number, to: number, act: number, from?: Exp) => {
        const [h, list, gate] = enter(20 + kind, what, to, act, "", undefined); if (from !== undefined) h.after.push(from);
        if (out === 3 || kind === 0 && out > 5) return;
        if (kind === 0) cast(list, "BcX:" + what, [h], gate, ""); else if (out === 4) cast(list, "BcY:" + what, [h], gate, "");
        if (kind === 0 && out === 4) cast(FIXED, "G.BcZ:" + what, [h], gate, "");
    };
    const conEvent = (n: number, u: string, c: Con) => {
        const [out, to, act] = n === 0 ? cfg.con : cfg.dis; const what = (n === 0 ? 80 : 90) + Number(u.slice(1));
        const [h, list, gate] = enter(10 + n, what, to, act, u, c);
        if (out === 3 || n === 1 && out > 5) return;
        if (n === 1) { cast(list, "BcY:" + what, [h], gate, ""); cast(list, "BcX:" + what, [h], gate, ""); } else if (out === 4) cast(list, "BcX:" + what, [h], gate, "");
    };
    const destroy = (after: Exp[] = []) => { if (!gone) exp.forEach((e) => { if (e.o[0] !== "H") e.opt = true; }); want(["down"], after); gone = true; };
    const item = (u: string, c: Con, i: Item, no: number) => {
        if (c.disc) return;
        const q = 100 + no;
        if (i[0] === "bad") return;
        if (i[0] === "key" && !c.hash) { c.key = { id: i[1], name: i[2] === null ? undefined : i[2] }; if (send(u, q, "KeyResp:" + u) === undefined) { want(["E", u], [], true); want(["disc", u], [], true); } return; }
        if (i[0] === "hash") {
            if (send(u, q, "HashResp:" + (i[1] !== 0)) === undefined) { want(["E", u], [], true); want(["disc", u], [], true); }
            if (i[1] !== 0) { disconnect(u); want(["E", u]); } else c.hash = true;
            return;
        }
        if (!c.hash || c.key === undefined) { disconnect(u); want(["E", u]); return; }
        if (c.asg === undefined && cfg.ident > 1) {
            if (cfg.ident === 2 || cfg.ident === 4) disconnect(u);
            if (cfg.ident === 3 || cfg.ident === 4) want(["E", u]);
            return;
        }
        if (i[0] === "req") {
            const [, kind, out, to, act] = i; const [h, list, gate] = enter(kind, no, to, act, u, c);
            if (out === 3 || out > 5 && (kind === 1 || kind === 3)) { fails(u, h, gate); return; }
            const name = out === 1 ? (kind === 3 ? "G.Err" : "Err") : kind === 2 ? (out === 2 ? "ResB" : "ResA") : kind === 3 ? (out === 0 || out === 4 ? "G.ResA" : "ResB") : "ResA";
            const bcs: Array<[string[], string]> = [];
            if (kind === 1 && (out === 0 || out === 4) || kind === 3 && (out === 4 || out === 2 || out === 5)) bcs.push([list, "BcX:"]);
            if (kind === 1 && out === 4) bcs.push([FIXED, "BcY:"]);
            if (kind === 3 && (out === 2 || out === 5)) bcs.push([list, "G.BcZ:"]);
            if (kind === 3 && out === 5) bcs.push([FIXED, "BcY:"]);
            const r = send(u, q, name + ":" + no, [h], gate, u);
            if (r === undefined) fails(u, h, gate);
            // whether broadcasts of an answer which could not be delivered are sent is left open
            const b = bcs.reduce((s: Exp[], [l, m]) => s.concat(cast(l, m + no, r === undefined ? [h] : [h, r], gate, u, r === undefined)), []);
            if (act === 6) want(["deferred", no], b.concat(r === undefined ? [h] : [r]), r === undefined, gate, u);
        } else if (i[0] === "bea") {
            const [, kind, out, act] = i; const [h, , gate] = enter(4 + kind, no, 2, act, u, c);
            const r = send(u, q, "BeaConf:" + (out === 3), [h], gate, u);
            if (out === 3 || r === undefined) fails(u, h, gate);
            if (act === 6 && out !== 3) want(["deferred", no], r === undefined ? [h] : [r], r === undefined, gate, u);
        } else refuse(u);
    };
    const lost = (u: string, disc: boolean) => { // answers to this consumer may come to nothing
        exp.forEach((e) => { if (e.own === u || e.o[0] === "send" && e.o[1] === u) e.opt = true; });
        const gates = new Set<number>(); exp.forEach((e) => { if (e.own === u && e.gate !== 0) gates.add(e.gate); });
        gates.forEach((g) => { want(["E", u], [], true, g, u); want(["disc", u], [], true, g, u); });
        for (let k = 0; k < 3; k += 1) { want(["E", u], [], true); if (disc || cons.has(u)) want(["disc", u], [], true); }
    };
    for (let n = 0; n < log.length; n += 1) {
        const o = log[n];
        if (o[0] === "in") {
            const i = inputs[o[1]], u = i.u!, c = cons.get(u);
            if (i.k === "resume") { exp.forEach((e) => { if (e.gate === o[2]) { e.gate = 0; } }); continue; }
            if (i.k === "fail") { fail.add(u); lost(u, true); continue; }
            if (i.k === "app") { if (!gone) { const [kind, out, to, act] = i.app!; event(kind, i.no![0], out, to, act); } continue; }
            if (i.k === "destroy") { destroy(); continue; }
            if (i.k === "listen") { if (!i.ok) destroy(); want(["listen", i.ok]).opt = false; continue; }
            if (gone) { if (i.k === "dis" && c !== undefined) lost(u, true); continue; }
            switch (i.k) {
                case "conn": if (c !== undefined) { want(["E", ""]); break; } { const x: Con = { hash: false, key: undefined, asg: undefined, disc: false, half: false, last: undefined }; cons.set(u, x); send(u, 0, "Confirm"); conEvent(0, u, x); } break;
                case "dis": if (c === undefined) { want(["E", ""]); break; } cons.delete(u); lost(u, true); conEvent(1, u, c); break;
                case "recv": case "part":
                    if (c === undefined) { refuse(u); break; }
                    if (c.disc) { want(["E", u], [], true); want(["disc", u], [], true); break; }
                    if (i.items!.some((x) => x[0] === "bad") && !(i.k === "part" && i.first)) refuse(u);
                    if (!(i.k === "part" && i.first)) i.items!.forEach((x, k) => item(u, c, x, i.no![k]));
                    break;
                case "ready": want(["ready"]); break;
                case "shutdown": want(["shutdown"]); break;
                case "serr": want(["E", ""]); break;
            }
        } else if (o[0] === "quiet") {
            if (exp.some((e) => !e.opt && e.gate === 0 && !(e.late && cons.has(e.o[1]) && cons.get(e.o[1])!.disc))) return n;
            exp = exp.filter((e) => e.gate !== 0);
        } else {
            let at = -1;
            for (const opt of [false, true]) for (let k = 0; k < exp.length && at < 0; k += 1) {
                const e = exp[k]; if (e.opt !== opt || e.gate !== 0 || e.after.some((x) => !x.met && !x.opt)) continue;
                if (e.o.length === o.length && e.o.every((x, j) => x === o[j])) at = k;
            }
            if (at < 0) return n;
            exp[at].met = true;
            // a consumer which is disconnected because a handler failed is not served any more
            if (exp[at].late && cons.has(o[1])) cons.get(o[1])!.disc = true;
            exp.splice(at, 1);
        }
    }
    return -1;
}
// ---------------------------------------------------------------- families
const recv = (u: string, ...x: any[]): Input => ({ k: "recv", u, items: [x] }), part = (sep: boolean, u: string, ...x: any[]): Input => ({ k: "part", u, items: [x], first: sep });
const conn = (u: string): Input => ({ k: "conn", u }), dis = (u: string): Input => ({ k: "dis", u }), app = (...x: number[]): Input => ({ k: "app", app: x }), fail = (u: string): Input => ({ k: "fail", u });
const key = (u: string) => recv(u, "key", Number(u.slice(1)), u === "u1" ? 4 : null), hash = (u: string, n = 0) => recv(u, "hash", n), est = (u: string) => [conn(u), key(u), hash(u)];
const RESUME: Input = { k: "resume", last: false }, RESUMELAST: Input = { k: "resume", last: true }, READY: Input = { k: "ready" }, DOWN: Input = { k: "shutdown" }, SERR: Input = { k: "serr" }, DESTROY: Input = { k: "destroy" }, FAILDISC: Input = { k: "faildisc" };
const quiet = (l: Input[]): Step[] => l.map((x) => ["Q", x] as Step);
const QB: Join[] = ["Q", "B"], QBC: Join[] = ["Q", "B", "C"], TURNS: Join[] = ["Q", "B", "C", 1, 2, 3, 4, 6];
const cfg = (ident: number, err: number, more: any = {}): Cfg => Object.assign({ ident, err, con: [0, 0, 0], dis: [0, 2, 0], herr: 0, lag: "" }, more);
const leaves = (s: Input) => s.items !== undefined && (s.items[0][0] === "req" && s.items[0][4] === 7 || s.items[0][0] === "bea" && s.items[0][3] === 7);
function valid(seq: Step[], s: Input): boolean {
    const count = (f: (x: Input) => boolean) => seq.filter((x) => f(x[1])).length;
    switch (s.k) {
        case "conn": return count((x) => x.k === "dis" && x.u === s.u) === 0 && count((x) => x.k === "conn" && x.u === s.u) < 2;
        case "dis": return count((x) => x.k === "dis" && x.u === s.u) === 0;
        case "fail": return count((x) => x.k === "fail" && x.u === s.u) === 0 && count((x) => x.k === "conn" && x.u === s.u) > 0;
        case "recv": case "part": return count((x) => leaves(x) && x.u === s.u) === 0; // the application has disconnected it: it is over
        case "resume": return count((x) => x.k === "resume") < 2;
        case "destroy": case "faildisc": case "listen": case "ready": case "shutdown": return count((x) => x.k === s.k) === 0;
        default: return true;
    }
}
type Emit = (c: Cfg, s: Step[]) => void;
function emit(seq: Step[], cfgs: Cfg[], f: Emit) {
    const out: Step[] = []; let no = 0;
    for (const [j, s] of seq) {
        no += 1; const last = out[out.length - 1];
        if (j === "C") { out[out.length - 1] = [last[0], { k: "recv", u: s.u, items: last[1].items!.concat(s.items!), no: last[1].no!.concat([no]) }]; continue; }
        if (s.k === "part") { out.push([j, { k: "part", u: s.u, items: s.items, first: true, no: [no] }], [s.first ? "Q" : "B", { k: "part", u: s.u, items: s.items, first: false, no: [no] }]); continue; }
        out.push([j, s.k === "recv" || s.k === "app" ? Object.assign({ no: [no] }, s) : s]);
    }
    cfgs.forEach((c) => f(c, out));
}
function grow(prefix: Step[], syms: Input[], depth: number, joins: Join[], cfgs: Cfg[], f: Emit, tail: Input[] = []) {
    const seq = prefix.slice();
    const rec = (left: number) => {
        emit(seq.concat(quiet(tail)), cfgs, f);
        if (left === 0) return;
        for (const s of syms) {
            if (!valid(seq, s)) continue;
            for (const j of joins) {
                const last = seq[seq.length - 1];
                if (j === "C" && !(last !== undefined && last[1].k === "recv" && s.k === "recv" && last[1].u === s.u)) continue;
                if (j !== "Q" && last !== undefined && last[1].k === "listen") continue; // whether anything is served until the failure is noticed is left open
                seq.push([j, s]); rec(left - 1); seq.pop();
            }
        }
    };
    rec(depth);
}
const ALL: Cfg[] = []; for (let i = 0; i < 5; i += 1) for (let e = 0; e < 4; e += 1) ALL.push(cfg(i, e));
const KINDS = [[0, 0], [0, 1], [0, 3], [1, 0], [1, 4], [1, 1], [1, 3], [1, 6], [1, 7], [2, 0], [2, 2], [2, 1], [2, 3], [3, 0], [3, 4], [3, 2], [3, 5], [3, 1], [3, 3], [3, 6], [3, 7]];
function each(fam: string, quick: boolean, f: Emit) {
    const both = quiet([READY].concat(est("u1"), est("u2"))), d = quick ? 0 : 1, few = [cfg(0, 2), cfg(3, 1), cfg(4, 3)], errs = [0, 1, 2, 3].map((e) => cfg(0, e)), lags = [cfg(0, 2), cfg(0, 1, { lag: "u1" }), cfg(0, 0, { lag: "u2" })];
    const tail = [recv("u2", "req", 1, 4, 3, 0), app(0, 4, 0, 0)];
    if (fam === "T01") {
        const one = [key("u1"), hash("u1"), hash("u1", 1), hash("u1", 2), recv("u1", "req", 0, 0, 0, 3), recv("u1", "req", 3, 5, 3, 0), recv("u1", "bea", 0, 0, 0), recv("u1", "stray"), recv("u1", "bad", 0), dis("u1")];
        const pre = quiet([READY].concat(est("u2"), [conn("u1")]));
        grow(pre, one, 3, QBC, ALL, f); grow(pre, one, 4, QBC, few.slice(0, 1 + 2 * d), f); if (!quick) grow(pre, one, 5, ["Q", "B"], few.slice(0, 1), f); grow(pre, one, 2 + d, TURNS, few, f, tail);
        grow(quiet([READY].concat(est("u2"))), one.concat([conn("u1"), part(true, "u1", "key", 1, null), part(false, "u1", "hash", 0), part(false, "u1", "hash", 3)]), 3 + d, QB, [cfg(0, 2)], f);
        const two = (u: string) => [conn(u), key(u), hash(u), hash(u, 3), recv(u, "req", 1, 4, 0, 0), dis(u)];
        grow([], two("u1").concat(two("u2")), 5 + d, ["Q"], [cfg(0, 2)], f);
        // every request, outcome, set of recipients and action; pairs and triples of them
        const every: Input[] = [];
        for (const u of ["u1", "u2"]) for (const [k, o] of KINDS) for (let to = 0; to < 7; to += 1) for (const a of [0, 6, 9]) every.push(recv(u, "req", k, o, to, a));
        grow(both, every, 1, ["Q"], lags.concat(few.slice(1)), f, [RESUME].concat(tail));
        const some: Input[] = [dis("u1"), dis("u2"), recv("u1", "bea", 0, 0, 0), recv("u2", "bea", 1, 0, 9), app(0, 4, 0, 0), RESUME];
        for (const u of ["u1", "u2"]) { for (const [k, o] of KINDS) some.push(recv(u, "req", k, o, o % 2 === 0 ? 0 : 3, k === 3 ? 6 : 0)); some.push(part(true, u, "req", 3, 5, 0, 0), part(false, u, "req", 1, 4, 3, 0), recv(u, "req", 1, 4, 0, 9)); }
        grow(both, some, 2, quick ? ["Q", "B", "C", 2] : TURNS, lags, f, tail);
        if (!quick) grow(both, some, 3, QBC, lags.slice(0, 1), f);
        const small = [dis("u1"), recv("u1", "req", 0, 0, 0, 9), recv("u1", "req", 3, 5, 3, 9), recv("u1", "req", 1, 4, 1, 6), recv("u2", "req", 2, 1, 0, 9), part(false, "u2", "req", 3, 2, 5, 0), RESUME, RESUMELAST];
        grow(both, small, 4 + d, QBC, lags.slice(0, quick ? 1 : 3), f, [RESUME, RESUMELAST]);
        grow(both, small, 3, TURNS, quick ? lags.slice(1, 2) : lags, f, [RESUME]);
    }
    if (fam === "T03") {
        const syms: Input[] = [];
        for (const u of ["u1", "u2"]) { for (const a of [1, 2, 3, 4, 5, 10, 13, 14, 15]) syms.push(recv(u, "req", 0, 0, 0, a)); syms.push(recv(u, "req", 1, 0, 4, 0), recv(u, "bea", 0, 0, 4)); }
        syms.push(recv("u1", "req", 0, 0, 0, 12), app(0, 0, 4, 10), app(1, 4, 4, 12), app(0, 0, 4, 14), dis("u2"), key("u1"));
        grow(both, syms, 3, ["Q"], [cfg(0, 1)], f, [recv("u1", "req", 1, 0, 4, 0), recv("u2", "req", 1, 0, 4, 0)]);
        grow(both, syms, 2, QBC, [cfg(0, 1), cfg(4, 1), cfg(2, 3)], f, [recv("u1", "req", 1, 0, 4, 0), recv("u2", "req", 1, 0, 4, 0)]);
        if (!quick) grow(both, syms, 4, ["Q"], [cfg(0, 1)], f);
        const modes: Cfg[] = []; for (let i = 0; i < 5; i += 1) for (const a of [0, 1, 3, 4, 5, 10, 14]) modes.push(cfg(i, 1, { con: [4, 4, a], dis: [0, 4, a] }));
        const two = (u: string) => [conn(u), key(u), recv(u, "key", 2, null), recv(u, "key", 2, 9), hash(u), recv(u, "req", 1, 4, 4, 0), recv(u, "req", 0, 0, 0, 5)];
        grow(quiet([READY].concat(est("u2"), [conn("u1")])), two("u1").slice(1).concat([app(0, 0, 4, 10), recv("u2", "req", 0, 0, 4, 0), recv("u2", "req", 0, 0, 4, 10), dis("u2")]), 3 + d, QBC, modes, f);
        grow([], two("u1").concat(two("u2")), 5 + d, ["Q"], [cfg(0, 1)], f);
    }
    if (fam === "T04") {
        const bad = [recv("u1", "bad", 0), recv("u1", "bad", 1), recv("u1", "bad", 2), hash("u1", 1), recv("u1", "stray"), key("u1"), recv("u1", "req", 1, 3, 0, 0), recv("u1", "req", 3, 6, 0, 0), recv("u1", "req", 1, 4, 0, 0), recv("u1", "req", 0, 3, 0, 9), recv("u1", "bea", 0, 3, 0), recv("u1", "bea", 1, 3, 9), recv("u1", "bea", 1, 0, 6), recv("u1", "req", 0, 0, 0, 7), recv("u3", "req", 0, 0, 0, 0), conn("u1"), dis("u1"), dis("u3"), fail("u1"), FAILDISC, SERR, RESUME, app(0, 3, 0, 0), app(0, 6, 0, 0)];
        const good = [recv("u2", "req", 1, 4, 3, 0), recv("u2", "bea", 0, 0, 0)], end = good.concat([app(0, 4, 3, 0)]), herr = errs.concat([0, 1, 2, 3].map((e) => cfg(0, e, { herr: 1 })));
        grow(both, bad.concat(good), 2, quick ? ["Q", "B", "C", 2] : TURNS, herr, f, end); grow(both, bad.concat(good), 3, quick ? ["B", "C"] : QBC, [cfg(0, 2), cfg(0, 0)], f, end);
        const modes: Cfg[] = []; for (const con of [[3, 0, 0], [0, 0, 0], [4, 3, 0], [4, 0, 11], [4, 0, 9]]) for (const dd of [[3, 0, 0], [0, 0, 0], [0, 3, 9], [6, 0, 0], [7, 0, 0]]) for (let e = 0; e < 4; e += 1) modes.push(cfg(0, e, { con, dis: dd }));
        const life = [conn("u1"), conn("u2"), key("u1"), hash("u1"), recv("u1", "req", 1, 4, 0, 0), dis("u1"), dis("u2"), recv("u1", "bad", 0), RESUME, app(1, 4, 0, 0)];
        grow(quiet([READY]), life, 3, QB, modes, f, [RESUME, RESUMELAST]); grow(quiet([READY]), life, 4 + d, ["Q"], modes.slice(0, 8), f, [RESUME]);
        // beacons and events
        const bea: Input[] = []; for (const u of ["u1", "u2"]) for (const k of [0, 1]) for (const o of [0, 3]) for (const a of [0, 6, 7, 9, 10, 11, 14]) bea.push(recv(u, "bea", k, o, a));
        for (const k of [0, 1]) for (const o of [0, 3, 4, 6, 7]) for (let to = 0; to < 7; to += 1) for (const a of [0, 9, 11]) if (k === 0 || a < 11) bea.push(app(k, o, to, a));
        grow(both, bea, 1, QB, herr, f, [RESUME].concat(end)); grow(both, bea, 2, ["B"], [cfg(0, 1)], f, [RESUME, RESUMELAST]);
        const mix = [recv("u1", "bea", 0, 0, 0), recv("u1", "bea", 1, 3, 0), recv("u2", "bea", 0, 3, 9), recv("u2", "bea", 1, 0, 6), app(0, 0, 0, 0), app(0, 4, 4, 9), app(0, 3, 0, 0), app(1, 4, 5, 0), dis("u1"), conn("u3"), recv("u1", "req", 1, 4, 0, 0), recv("u1", "bea", 0, 0, 11), RESUME, RESUMELAST];
        grow(both, mix, 3 + d, QBC, [cfg(0, 1)], f, [RESUME]); grow(both, mix, 2 + d, TURNS, lags, f, [RESUME]);
        // the end
        const ends = [DESTROY, { k: "listen", ok: true }, { k: "listen", ok: false }, DOWN, READY, SERR, conn("u3"), recv("u1", "req", 1, 4, 0, 0), recv("u2", "req", 0, 0, 0, 8), recv("u1", "req", 3, 5, 0, 9), recv("u1", "bea", 0, 0, 9), RESUME, app(0, 4, 0, 0), dis("u1")] as Input[];
        grow(both.slice(1), ends, 3 + d, QBC, [cfg(0, 2), cfg(0, 1, { herr: 1 })], f, [RESUME].concat(end));
    }
}
async function main() {
    const quick = process.argv[2] !== "thorough", shard = Number(process.argv[3]), of = Number(process.argv[4]), fam = process.argv[5];
    const st = { scripts: 0, runs: 0, observations: 0, longest: 0, bad: 0, undecided: 0 }; const bad: string[] = []; let n = 0; let broken: string | undefined;
    process.on("uncaughtException", (e) => { broken = "uncaught: " + e.message; }); process.on("unhandledRejection", (e: any) => { broken = "unhandled rejection: " + (e && e.message); });
    const queue: Array<[Cfg, Step[]]> = [];
    const flush = async () => {
        for (const [g, s] of queue) {
            broken = undefined; let inputs: Input[] = [], log: any[] = [], at = -1;
            try { [inputs, log] = await exec(g, s); at = check(g, inputs, log); } catch (e: any) { broken = "exception: " + (e && e.stack); }
            st.scripts += 1; st.runs += 1; st.observations += log.length; st.longest = Math.max(st.longest, s.length);
            if (broken !== undefined || at >= 0) {
                st.bad += 1; if (bad.length < 40) bad.push(JSON.stringify({ len: s.length, cfg: JSON.stringify(g), script: JSON.stringify(s), what: broken || "", choices: [], log: log.map((o, k) => (k === at ? ">>> " : "") + (o[0] === "in" ? "<- " + JSON.stringify(inputs[o[1]]) : JSON.stringify(o))) }));
            }
            if (st.bad >= 200) break;
            if (st.scripts < 2000 && (st.scripts & (st.scripts - 1)) === 0 && shard === 0) console.log("SAMPLE " + JSON.stringify(g) + " " + JSON.stringify(s));
        }
        queue.length = 0;
    };
    // scripts are generated by recursion; they are taken in portions to keep the memory small
    const portions: Array<() => void> = []; let skip = 0; const LIMIT = 200000;
    for (;;) {
        n = 0; let more = false;
        each(fam, quick, (g, s) => { n += 1; if (n % of !== shard) return; const k = (n - shard) / of; if (k < skip) return; if (queue.length >= LIMIT) { more = true; return; } queue.push([g, s]); });
        skip += queue.length; await flush(); if (st.bad >= 200 || !more) break;
    }
    bad.sort((a, b) => a.length - b.length).forEach((b) => console.log("BAD " + b));
    console.log("STATS " + JSON.stringify(st));
}
main();
