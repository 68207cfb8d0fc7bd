// Joint exploration: one producer and up to two consumers of either language, every order in which their inputs come.
import * as fs from "fs";
import { Server, Client, Subject, Options, ConsumerErrorHandelingStrategy as Ce, ProducerIdentificationStrategy as Pi } from "clibri";
import { Producer, Context } from "./p/typescript/index";
import * as PP from "./p/typescript/implementation/protocol";
import * as C1 from "./c/typescript/index";
import * as C2 from "./c2/typescript/index";
import * as C3 from "./c3/typescript/index";
import * as C4 from "./c4/typescript/index";
import { rig, note, num, uid } from "./rig";

// ---------------------------------------------------------------- agents
type Out = [number, string]; // agent, what it did: tx, disc, dial, down or a note
type In = { k: string; i: number; data?: Uint8Array; call?: [string, number]; no?: number };
const hex = (b: ArrayBufferLike) => Buffer.from(new Uint8Array(b)).toString("hex");
interface Agent { feed(inputs: In[]): Promise<void> }
const settle = async () => { for (let n = 0; n < 2; n += 1) await new Promise((r) => setImmediate(r)); };

class ServerStub extends Server {
    public ev = { ready: new Subject<void>("r"), shutdown: new Subject<void>("s"), error: new Subject<any>("e"), connected: new Subject<string>("c"), disconnected: new Subject<string>("d"), received: new Subject<any>("v") };
    public gone = new Set<string>();
    public listen(): Promise<void> { return Promise.resolve(); }
    public send(buffer: ArrayBufferLike, uuid?: string): Promise<void> {
        if (uuid !== undefined && this.gone.has(uuid)) return Promise.reject(new Error("stub"));
        note(0, "tx " + (uuid === undefined ? 0 : num(uuid)) + " " + hex(buffer)); return Promise.resolve();
    }
    public disconnect(uuid: string): Promise<void> { note(0, "disc " + num(uuid)); return Promise.resolve(); }
    public shutdown(): Promise<void> { note(0, "down"); return Promise.resolve(); }
    public getEvents() { return this.ev; }
}
class TsProducer implements Agent {
    private t = new ServerStub(); private p: Producer;
    constructor(ident: number) { this.p = new Producer(this.t, new Context(), new Options({ consumerErrorHandelingStrategy: Ce.EmitError, producerIndentificationStrategy: [Pi.Log, Pi.EmitErrorAndDisconnect, Pi.Ignore][ident] })); this.p.listen(); }
    public async feed(inputs: In[]) {
        for (const x of inputs) switch (x.k) {
            case "ready": this.t.ev.ready.emit(); break;
            case "conn": this.t.ev.connected.emit(uid(x.i)); break;
            case "lost": this.t.gone.add(uid(x.i)); this.t.ev.disconnected.emit(uid(x.i)); break;
            case "data": this.t.ev.received.emit({ uuid: uid(x.i), buffer: new Uint8Array(x.data!).buffer }); break;
            case "tick": this.p.events.tick.emit(new PP.Tick({ what: x.no! })); break;
        }
        await settle();
    }
}
class ClientStub extends Client {
    public ev = { data: new Subject<ArrayBufferLike>("d"), connected: new Subject<void>("c"), disconnected: new Subject<void>("x"), error: new Subject<Error>("e") };
    public up = false;
    constructor(private id: number) { super(); }
    public send(buffer: ArrayBufferLike | string): Error | undefined { if (!this.up) return new Error("stub"); note(this.id, "tx 0 " + hex(buffer as ArrayBuffer)); return undefined; }
    public destroy(): Promise<void> { note(this.id, "down"); this.up = false; return Promise.resolve(); }
    public getEvents() { return this.ev; }
}
class TsConsumer implements Agent {
    private t: ClientStub; private c: any; private m: any;
    constructor(private id: number, variant: number) {
        const M: any = [C1, C2, C3, C4][variant]; this.m = M; this.t = new ClientStub(id);
        this.c = new M.Consumer(this.t, { id: 10 + id, name: undefined }, { global: false });
        const b: any = this.c.broadcast;
        this.c.ready.subscribe((u: string) => note(id, "ready")); this.c.disconnected.subscribe(() => note(id, "disconnected")); this.c.error.subscribe((e: any) => note(id, "error " + e.message));
        for (const k of ["Bc", "Tock"]) b[k].subscribe((m: any) => note(id, "bc " + k + " " + m.what));
        b.GHNote.subscribe((m: any) => note(id, "bc Note " + m.what));
        for (const k of ["Joined", "Left"]) b[k].subscribe((m: any) => note(id, "bc " + k + " " + m.id));
        note(id, "dial");
    }
    public async feed(inputs: In[]) {
        for (const x of inputs) switch (x.k) {
            case "up": this.t.up = true; this.t.ev.connected.emit(); break;
            case "data": this.t.ev.data.emit(new Uint8Array(x.data!).buffer); break;
            case "lost": this.t.up = false; this.t.ev.disconnected.emit(); break;
            case "call": this.call(x.call![0], x.call![1], x.no!); break;
        }
        await settle();
    }
    private call(kind: string, what: number, no: number) {
        const M = this.m, P = M.Protocol, done = (s: string) => note(this.id, "done " + no + " " + s); let got: string[] = [];
        const resA = (r: any) => "ResA " + r.what + " " + (r.text === undefined ? "-" : r.text);
        const end = (p: Promise<any>) => p.then(() => done(got.length === 1 ? got[0] : "callbacks: " + got.join("; ")), () => done(got.length === 0 || got[0] === "failed" ? "failed" : "callbacks: " + got.join("; ")));
        switch (kind) {
            case "req": end(new M.Req({ what, text: what % 4 === 0 ? "t\u00e9" + what : undefined }, this.c).response((r: any) => got.push(resA(r))).err((r: any) => got.push("Err " + r.what)).send()); break;
            case "two": end(new M.GHTwo({ what }, this.c).first((r: any) => got.push("First " + resA(r))).second((r: any) => got.push("Second G.ResB " + r.what)).err((r: any) => got.push("G.Err " + r.what)).send()); break;
            case "bea": end(new M.BeaconBea({ what }, this.c).response(() => got.push("ok")).err(() => got.push("failed")).send()); break;
            default: this.c.destroy().then(() => done("ok"), () => done("failed"));
        }
    }
}
// Rust agents live in one process, spoken to through two pipes.
let fin = -1, fout = -1, rest = "";
function tell(l: string) { fs.writeSync(fin, l + "\n"); }
function go(): void {
    tell("go");
    const buf = Buffer.alloc(65536);
    for (;;) {
        const at = rest.indexOf("\n");
        if (at < 0) { const n = fs.readSync(fout, buf, 0, buf.length, null); if (n === 0) throw new Error("the Rust agents are gone"); rest += buf.toString("utf8", 0, n); continue; }
        const l = rest.slice(0, at); rest = rest.slice(at + 1);
        if (l === ".") return;
        const sp = l.indexOf(" "); rig.out.push([Number(l.slice(0, sp)), l.slice(sp + 1)]);
    }
}
class RustProducer implements Agent {
    constructor(ident: number) { tell("producer " + ident); go(); }
    public async feed(inputs: In[]) {
        for (const x of inputs) tell(x.k === "data" ? "data " + x.i + " " + hex(x.data!) : x.k === "tick" ? "tick " + x.no : x.k === "ready" ? "ready" : x.k + " " + x.i);
        go();
    }
}
class RustConsumer implements Agent {
    constructor(private id: number, variant: number, private again: boolean) { tell("consumer " + id + " " + variant + (again ? " 1" : " 0")); go(); }
    public async feed(inputs: In[]) {
        for (const x of inputs) { tell(x.k === "data" ? "c.data " + this.id + " " + hex(x.data!) : x.k === "call" ? "c.call " + this.id + " " + x.call![0] + " " + x.call![1] + " " + x.no : "c." + x.k + " " + this.id); if (x.k === "lost" && this.again) tell("c.wait"); }
        go();
    }
}

// ---------------------------------------------------------------- one execution
type Scenario = { name: string; producer: string; ident: number; choose: number; consumers: Array<{ lang: string; variant: number; calls: Array<[string, number]>; lose: boolean; close?: boolean; again?: number }>; tick: boolean; dev: number };
type Link = { conn: boolean; up: boolean; lostP: boolean; lostC: boolean; closing: boolean; down: boolean; toP: Uint8Array[]; toC: Uint8Array[]; called: number; ready: boolean; half: boolean[] };
type Action = { agent: number; key: string; dev: number; inputs: In[] };
class World {
    public links: Link[] = []; public agents: Agent[] = []; public log: string[] = []; public ticked = false;
    constructor(private s: Scenario) { }
    public async start() {
        rig.out = []; this.agents = []; this.links = this.s.consumers.map(() => ({ conn: false, up: false, lostP: false, lostC: false, closing: false, down: false, toP: [], toC: [], called: 0, ready: false, half: [false, false] }));
        if (usesRust(this.s)) tell("reset " + this.s.choose);
        this.agents.push(this.s.producer === "rs" ? new RustProducer(this.s.ident) : new TsProducer(this.s.ident));
        this.s.consumers.forEach((c, n) => { if (c.again === undefined) this.agents.push(c.lang === "rs" ? new RustConsumer(n + 1, c.variant, this.s.consumers.some((x) => x.again === n + 1)) : new TsConsumer(n + 1, c.variant)); });
        await settle(); await this.agents[0].feed([{ k: "ready", i: 0 }]); this.collect();
    }
    /** The connection which a consumer has now: the one after a lost one is its next. */
    private now(agent: number): number {
        let n = agent; for (let k = 0; k < this.links.length; k += 1) if (this.s.consumers[k].again === n && this.links[n - 1].lostC) n = k + 1;
        return n;
    }
    private collect() {
        for (const [a, s] of rig.out) {
            this.log.push((a === 0 ? "P" : a === 9 ? "!" : "C" + a) + " " + (s.startsWith("tx ") ? s.slice(0, 5) + " " + describe(s) : s));
            const f = s.split(" ");
            if (f[0] === "tx") { const b = new Uint8Array(Buffer.from(f[2], "hex")); if (a === 0) { const l = this.links[Number(f[1]) - 1]; if (l !== undefined && !l.lostP) l.toC.push(b); } else if (this.links[this.now(a) - 1].up) this.links[this.now(a) - 1].toP.push(b); }
            else if (f[0] === "disc" && a === 0) { const l = this.links[Number(f[1]) - 1]; if (l !== undefined) l.closing = true; }
            else if (f[0] === "down" && a > 0) this.links[this.now(a) - 1].down = true;
            else if (f[0] === "ready" && a > 0) this.links[this.now(a) - 1].ready = true;
        }
        rig.out = [];
    }
    /** Single inputs which can come now. */
    private single(agent: number, skip: In[]): In[] {
        const out: In[] = [], had = (k: string, i: number) => skip.some((x) => x.k === k && x.i === i);
        const data = (q: Uint8Array[], half: boolean, i: number) => { // after what is delivered in the same burst
            const used = skip.filter((x) => x.k === "data" && x.i === i).length; if (q.length <= used || used > 0 && half) return;
            out.push({ k: "data", i, data: q[used], no: 1 });
            if (skip.length > 0) return;
            for (let n = 2; n <= Math.min(q.length, 3); n += 1) out.push({ k: "data", i, data: Buffer.concat(q.slice(0, n)), no: n });
            if (!half) out.push({ k: "data", i, data: q[0].slice(0, Math.floor(q[0].length / 2)), no: 0 });
            if (!half && q.length > 1) out.push({ k: "data", i, data: Buffer.concat([q[0], q[1].slice(0, 13)]), no: -1 });
        };
        if (agent === 0) {
            this.links.forEach((l, n) => {
                const i = n + 1;
                const before = this.s.consumers[n].again; if (before !== undefined && !this.links[before - 1].lostC) return;
                if (!l.conn && !had("conn", i)) out.push({ k: "conn", i });
                if ((l.conn || had("conn", i)) && !l.lostP && !had("lost", i)) { data(l.toP, l.half[0], i); if (this.s.consumers[n].lose || l.closing || l.down || l.lostC && l.toP.length === 0) out.push({ k: "lost", i }); }
            });
            if (this.s.tick && !this.ticked && !had("tick", 0)) out.push({ k: "tick", i: 0, no: 77 });
        } else {
            const i = this.now(agent), l = this.links[i - 1], c = this.s.consumers[i - 1];
            if (!l.up && !had("up", i)) out.push({ k: "up", i });
            if ((l.up || had("up", i)) && !l.lostC && !had("lost", i)) { if (!l.down) data(l.toC, l.half[1], i); if (c.lose || l.closing || l.down || l.lostP) out.push({ k: "lost", i }); }
            const done = l.called + skip.filter((x) => x.k === "call").length;
            if (l.ready && done < c.calls.length) out.push({ k: "call", i, call: c.calls[done], no: 10 * (i - 1) + done });
        }
        return out;
    }
    public actions(dev: number): Action[] {
        const out: Action[] = [], name = (x: In) => x.k + x.i + (x.k === "data" ? "x" + x.no : "");
        for (let a = 0; a < this.agents.length; a += 1) {
            const one = this.single(a, []);
            for (const x of one) {
                const d = x.k === "data" && x.no !== 1 ? 1 : 0;
                if (d <= dev) out.push({ agent: a, key: a + ":" + name(x), dev: d, inputs: [x] });
                if (d === 0 && dev > 0) for (const y of this.single(a, [x])) if (!(y.k === "data" && y.no !== 1)) out.push({ agent: a, key: a + ":" + name(x) + "+" + name(y), dev: 1, inputs: [x, y] });
            }
        }
        return out;
    }
    public async take(act: Action) {
        this.log.push("<- " + (act.agent === 0 ? "P" : "C" + act.agent) + " " + act.inputs.map((x) => x.k + (x.i > 0 && (act.agent === 0 || x.k === "up") ? " " + x.i : "") + (x.k === "call" ? " " + x.call!.join(" ") : "") + (x.k === "data" ? " (" + (x.no === 0 ? "first half" : x.no === -1 ? "one and a piece" : x.no + "") + ")" : "")).join(", "));
        for (const x of act.inputs) {
            if (x.k === "tick") { this.ticked = true; continue; } if (x.k === "ready") continue;
            const l = this.links[x.i - 1];
            if (x.k === "conn") l.conn = true; else if (x.k === "up") l.up = true; else if (x.k === "call") l.called += 1;
            else if (x.k === "lost") { if (act.agent === 0) { l.lostP = true; l.toP = []; } else { l.lostC = true; l.toC = []; } }
            else if (x.k === "data") { const q = act.agent === 0 ? l.toP : l.toC, w = act.agent === 0 ? 0 : 1;
                if (x.no === 0) { q[0] = q[0].slice(x.data!.length); l.half[w] = true; } else if (x.no === -1) { q.shift(); q[0] = q[0].slice(13); l.half[w] = true; } else { q.splice(0, x.no); l.half[w] = false; } }
        }
        await this.agents[act.agent].feed(act.inputs); this.collect();
    }
}
const usesRust = (s: Scenario) => s.producer === "rs" || s.consumers.some((c) => c.lang === "rs");
const reader = new Map<string, string>();
function describe(s: string): string {
    const h = s.split(" ")[2]; const known = reader.get(h.slice(0, 26) + h.slice(42)); if (known !== undefined) return known;
    const r = new PP.BufferReaderMessages(), out: string[] = []; r.chunk(new Uint8Array(Buffer.from(h, "hex")).buffer);
    for (let m = r.next(); m !== undefined; m = r.next()) out.push("#" + m.header.sequence + " " + JSON.stringify(m.msg, (k, v) => (v === undefined ? undefined : typeof v === "bigint" ? String(v) : k.startsWith("_") ? undefined : v)));
    const t = out.length === 0 ? "?" : out.join(" "); if (reader.size < 20000) reader.set(h.slice(0, 26) + h.slice(42), t); return t;
}
// ---------------------------------------------------------------- the oracle
const answer = (c: [string, number]): string => {
    const [k, w] = c, text = w % 4 === 0 ? "t\u00e9" + w : "-";
    if (k === "req") return w % 2 === 1 ? "Err " + w : "ResA " + w + " " + text;
    if (k === "two") return ["First ResA " + w + " -", "Second G.ResB " + w, "Second G.ResB " + w, "G.Err " + w][w % 4];
    if (k === "bea") return w % 2 === 1 ? "failed" : "ok";
    return "ok";
};
/** Says what is wrong at the end of an execution in which everything was delivered. */
function judge(s: Scenario, w: World): string | undefined {
    const log = w.log, of = (a: string) => log.filter((l) => l.startsWith(a + " ")).map((l) => l.slice(a.length + 1));
    // what a consumer did, from the start of one connection to the start of the next
    const part = (n: number): string[] => {
        const next = s.consumers.findIndex((c) => c.again === n + 1), a = "C" + (s.consumers[n].again || n + 1);
        const up = (k: number) => log.findIndex((l) => l.startsWith("<- " + a + " up " + (k + 1))), from = s.consumers[n].again === undefined ? 0 : up(n), to = next < 0 ? -1 : up(next);
        return log.slice(from, to < 0 ? log.length : to).filter((l) => l.startsWith(a + " ")).map((l) => l.slice(a.length + 1));
    };
    if (log.some((l) => l.startsWith("! "))) return "panic";
    const P = of("P"), lossy = s.consumers.some((c) => c.lose || c.calls.some((x) => x[0] === "close"));
    const strict = s.consumers.every((c) => c.variant === 0) && !lossy;
    if (P.filter((l) => l === "ready").length !== 1) return "producer's ready event";
    if (strict && P.filter((l) => l.startsWith("E ")).length > P.filter((l) => /^H bea \d*[13579] /.test(l)).length) return "producer reports an error"; // a refused beacon is reported
    if (strict && P.some((l) => l.startsWith("disc "))) return "producer disconnects a consumer";
    if (P.some((l) => l.startsWith("end") || l.startsWith("down"))) return "producer ended";
    if (s.tick && P.filter((l) => l.startsWith("H tick 77 ")).length !== 1) return "application event is not handled once";
    for (let n = 0; n < s.consumers.length; n += 1) {
        const c = s.consumers[n], id = n + 1, key = 10 + (c.again || id), L = part(n), l = w.links[n], H = P.filter((x) => x.startsWith("H ") && x.split(" ")[3] === String(id));
        if (H.some((x) => x.split(" ")[4] !== String(key) && !(x.split(" ")[4] === "0" && /^H (dis)?connected /.test(x)))) return "C" + id + " is known by a wrong key";
        const ready = L.filter((x) => x === "ready").length, con = H.filter((x) => x.startsWith("H connected ")).length, dis = H.filter((x) => x.startsWith("H disconnected ")).length;
        if (c.variant > 0) {
            if (ready > 0) return "C" + id + " of other sources became ready";
            if (H.some((x) => !/^H (dis)?connected /.test(x))) return "a handler ran for C" + id + " of other sources";
            if (c.variant < 3 && !P.includes("disc " + id) && !l.lostP) return "C" + id + " of other sources is not disconnected";
            continue;
        }
        const calls = c.calls.filter((x) => x[0] !== "close"), closed = calls.length < c.calls.length;
        const dones = L.filter((x) => x.startsWith("done "));
        const cut = c.lose || closed;
        if (ready > 1 || con !== (l.conn ? 1 : 0) || !cut && ready !== 1) return "C" + id + ": ready " + ready + " times, connected on producer " + con + " times";
        if (dis !== (l.lostP ? 1 : 0)) return "disconnected event of C" + id + " " + dis + " times";
        if (!cut && P.includes("disc " + id)) return "producer disconnects C" + id;
        if (!cut && P.filter((x) => x.startsWith("E " + id + " ")).length > H.filter((x) => /^H bea \d*[13579] /.test(x)).length) return "producer reports an error of C" + id;
        if (!cut && L.some((x) => x.startsWith("error") || x.startsWith("disconnected") || x.startsWith("shutdown"))) return "C" + id + " reports an error or an end";
        for (let k = 0; k < c.calls.length; k += 1) {
            const x = c.calls[k], d = dones.filter((y) => y.startsWith("done " + (10 * n + k) + " ")), want = "done " + (10 * n + k) + " " + answer(x);
            if (k < l.called ? d.length !== 1 : d.length !== 0) return "call " + k + " of C" + id + " settled " + d.length + " times";
            if (k < l.called && d[0] !== want && !(cut && d[0] === "done " + (10 * n + k) + " failed")) return "call " + k + " of C" + id + " settled with " + d[0].slice(7) + " instead of " + answer(x);
            if (x[0] === "close") continue;
            const h = H.filter((y) => y.startsWith("H " + x[0] + " " + x[1] + " ")).length;
            if (h > 1 || h === 0 && !cut) return "call " + k + " of C" + id + " is handled " + h + " times";
            if (h === 0 && d.length === 1 && d[0] === want && want !== "done " + (10 * n + k) + " failed") return "call " + k + " of C" + id + " is answered without its handler";
        }
        if (!cut && l.called !== c.calls.length) return "C" + id + " could not make its calls";
        // broadcasts: those of every handler which chose this consumer, each once
        const sent: string[] = [];
        for (const x of P) if (x.startsWith("H ")) {
            const f = x.split(" "), who = Number(f[3]); if (!(f[5] || "").split(",").includes(String(id))) continue;
            if (f[1] === "req" && Number(f[2]) % 2 === 0) sent.push("bc Bc " + f[2]);
            else if (f[1] === "two" && Number(f[2]) % 4 === 1) sent.push("bc Note " + f[2]);
            else if (f[1] === "tick") sent.push("bc Tock " + f[2]); else if (f[1] === "connected") sent.push("bc Joined " + f[4]); else if (f[1] === "disconnected") sent.push("bc Left " + f[4]);
        }
        const got = L.filter((x) => x.startsWith("bc ")).sort(), exp = sent.slice().sort();
        if (!cut && got.join("|") !== exp.join("|")) return "C" + id + " got broadcasts [" + got.join(", ") + "], chosen for [" + exp.join(", ") + "]";
        if (cut) for (const g of Array.from(new Set(got))) if (got.filter((x) => x === g).length > exp.filter((x) => x === g).length) return "C" + id + " got a broadcast it was not chosen for: " + g;
    }
    return undefined;
}
// ---------------------------------------------------------------- exploration: all orders up to commuting inputs of different agents
type Frame = { acts: Action[]; sleep: Set<string>; done: Set<string>; chosen: number };
async function explore(s: Scenario, stats: any, bad: any[]) {
    let stack: Frame[] = [], first = true; const agentOf = (k: string) => k.slice(0, k.indexOf(":"));
    stats.scenarios += 1;
    for (;;) {
        // next prefix
        if (!first) {
            for (;;) {
                if (stack.length === 0) return;
                const f = stack[stack.length - 1]; f.sleep.add(f.acts[f.chosen].key);
                let k = f.chosen + 1; while (k < f.acts.length && f.sleep.has(f.acts[k].key)) k += 1;
                if (k < f.acts.length) { f.chosen = k; break; }
                stack.pop();
            }
        }
        first = false;
        const w = new World(s); await w.start(); let dev = s.dev, cut = false;
        for (const f of stack) { const a = f.acts[f.chosen]; const now = w.actions(dev).find((x) => x.key === a.key); if (now === undefined) throw new Error("not deterministic: " + s.name + " " + a.key + "\n" + w.log.join("\n")); dev -= now.dev; await w.take(now); stats.steps += 1; }
        for (;;) {
            const acts = w.actions(dev); if (acts.length === 0) break;
            const top = stack[stack.length - 1], sleep = new Set<string>();
            if (top !== undefined) top.sleep.forEach((k) => { if (agentOf(k) !== String(top.acts[top.chosen].agent)) sleep.add(k); });
            let k = 0; while (k < acts.length && sleep.has(acts[k].key)) k += 1;
            if (k === acts.length) { cut = true; break; }
            stack.push({ acts, sleep, done: new Set(), chosen: k }); dev -= acts[k].dev; await w.take(acts[k]); stats.steps += 1;
            if (stack.length > 80) throw new Error("endless: " + s.name + "\n" + w.log.join("\n"));
        }
        if (cut) { stats.pruned += 1; continue; }
        stats.runs += 1; stats.longest = Math.max(stats.longest, stack.length);
        const e = judge(s, w);
        if (e !== undefined) { stats.bad += 1; bad.push({ what: e, scenario: s, log: w.log.slice(), len: w.log.length }); if (bad.length > 20) return; return; }
        if ((stats.runs & (stats.runs - 1)) === 0) stats.samples.push(s.name + ": " + stack.map((f) => f.acts[f.chosen].key).join(" "));
    }
}
function* scenarios(quick: boolean): Generator<Scenario> {
    const langs = ["rs", "ts"]; const deep = quick ? 0 : 1;
    const CALLS: Array<[string, number]> = [["req", 0], ["req", 1], ["req", 2], ["two", 0], ["two", 1], ["two", 2], ["two", 3], ["bea", 0], ["bea", 1]];
    for (const producer of langs) for (const choose of producer === "rs" || true ? [0, 1, 2] : [0]) for (const lang of langs) {
        if (producer === "ts" && lang === "ts" && choose > 0) continue;
        const one = (name: string, calls: Array<[string, number]>, tick: boolean, dev: number, lose: boolean, variant = 0, ident = 0): Scenario => ({ name: producer + "-" + lang + " " + name, producer, ident, choose, consumers: [{ lang, variant, calls, lose }], tick, dev });
        for (const c of CALLS) yield one("call " + c.join(), [c], false, 2, false);
        for (const a of CALLS) for (const b of CALLS) if (!quick || choose === 0 || a[0] !== b[0]) yield one("calls " + a.join() + " " + b.join(), [a, [b[0], b[1] + 4]], false, 1 + deep, false);
        yield one("event", [["req", 0]], true, 1 + deep, false);
        for (const calls of [[], [["req", 0]], [["bea", 0], ["two", 1]]] as Array<Array<[string, number]>>) yield one("lost", calls, false, 1 + deep, true);
        for (const calls of [[["close", 0]], [["req", 0], ["close", 0]], [["close", 0], ["req", 0]]] as Array<Array<[string, number]>>) yield one("closed", calls, false, 1 + deep, false);
        // the connection is lost and another one follows
        const again = (name: string, x: Array<[string, number]>, y: Array<[string, number]>, tick: boolean, dev: number): Scenario => ({ name: producer + "-" + lang + " " + name, producer, ident: 0, choose, consumers: [{ lang, variant: 0, calls: x, lose: true }, { lang, variant: 0, calls: y, lose: false, again: 1 }], tick, dev });
        yield again("again", [], [], false, quick && choose > 0 ? 0 : 1 + deep);
        yield again("again", [["req", 0]], [["req", 4]], false, deep);
        yield again("again", [["bea", 0]], [["two", 1]], false, deep);
        yield again("again", [], [["req", 1]], true, deep);
        for (const variant of [1, 2, 3]) for (const ident of [0, 1, 2]) yield one("foreign " + variant, [["req", 0]], false, 1 + deep, false, variant, ident);
        for (const lang2 of langs) {
            if (producer === "ts" && lang === "ts" && lang2 === "ts" && choose > 0) continue;
            const two = (name: string, a: Array<[string, number]>, b: Array<[string, number]>, tick: boolean, dev: number, lose: boolean, variant = 0): Scenario => ({ name: producer + "-" + lang + "-" + lang2 + " " + name, producer, ident: 0, choose, consumers: [{ lang, variant: 0, calls: a, lose: false }, { lang: lang2, variant, calls: b, lose }], tick, dev });
            yield two("handshakes", [], [], false, 1 + deep, false);
            yield two("event", [], [], true, deep, false);
            yield two("call", [["req", 0]], [], false, deep, false);
            yield two("calls", [["req", 0]], [["two", 1]], false, deep, false);
            yield two("second lost", [], [], false, deep, true);
            if (!quick || choose === 0 && lang === producer && lang !== lang2) yield { ...two("first again", [], [], false, deep, false), consumers: [{ lang, variant: 0, calls: [], lose: true }, { lang: lang2, variant: 0, calls: [], lose: false }, { lang, variant: 0, calls: [], lose: false, again: 1 }] };
            yield two("second closed", [], [["close", 0]], false, deep, false);
            for (const variant of [1, 2, 3]) yield two("second foreign " + variant, [["req", 0]], [], false, deep, false, variant);
        }
    }
}
(async () => {
    const quick = process.argv[2] !== "thorough", only = process.argv[7];
    fin = fs.openSync(process.argv[5], "w"); fout = fs.openSync(process.argv[6], "r");
    const stats: any = { scenarios: 0, runs: 0, steps: 0, pruned: 0, longest: 0, bad: 0, samples: [] }, bad: any[] = []; let n = 0;
    for (const s of [...scenarios(quick)].sort((a, b) => b.consumers.length - a.consumers.length)) {
        if (only !== undefined && !s.name.includes(only)) continue;
        try { fs.closeSync(fs.openSync(process.argv[5].replace(/[^/]*$/, "claim" + n++), "wx")); } catch (e: any) { if (e.code !== "EEXIST") throw e; continue; } // whoever is free takes the next one
        const t = Date.now(); await explore(s, stats, bad); if (process.env.VF_TIMES) console.log("TIME " + (Date.now() - t) + " " + stats.runs + " " + s.name + " choose " + s.choose);
    }
    for (const b of bad) console.log("BAD " + JSON.stringify(b));
    stats.samples.slice(-6).forEach((x: string) => console.log("SAMPLE " + x)); delete stats.samples;
    console.log("STATS " + JSON.stringify(stats));
    fs.closeSync(fin); fs.closeSync(fout);
})();
