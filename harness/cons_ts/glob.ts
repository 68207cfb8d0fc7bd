// The consumer of the application: every sequence of creations, waits, calls and destructions, decided against a reference machine.
import { Client, Subject, globals } from "clibri";
import * as C from "./c/index";
const P = C.Protocol;
const I = P.InternalServiceGroup;
const UUID = "00000000-0000-0000-0000-000000000001";
const u8 = (b: ArrayBufferLike) => new Uint8Array(b).slice();
const settle = () => new Promise<void>((r) => setImmediate(r));
type Op = [string, number];

class Stub extends Client {
    public ev = { data: new Subject<ArrayBufferLike>("d"), connected: new Subject<void>("c"), disconnected: new Subject<void>("x"), error: new Subject<Error>("e") };
    public gone = false; public calls: Array<[number, string, number]> = [];
    constructor(public n: number, private log: string[]) { super(); }
    public send(buffer: ArrayBufferLike | string): Error | undefined {
        if (this.gone) return new Error("gone");
        const r = new P.BufferReaderMessages(); r.chunk(buffer as ArrayBuffer);
        for (let m = r.next(); m !== undefined; m = r.next()) {
            const x: any = m.msg;
            const what = x.SelfId !== undefined ? "key" + x.SelfId.id : x.ReqP !== undefined ? "req" + x.ReqP.what : x.Bea !== undefined ? "bea" + x.Bea.what : "other";
            this.log.push("send " + this.n + " " + what); this.calls.push([m.header.sequence, what.slice(0, 3), x.ReqP !== undefined ? x.ReqP.what : 0]);
        }
        return undefined;
    }
    public destroy(): Promise<void> { this.gone = true; return Promise.resolve(); }
    public getEvents() { return this.ev; }
    public answer() {
        for (const [q, what, v] of this.calls.splice(0)) {
            if (what === "req") this.ev.data.emit(u8(new P.ResA({ what: v }).pack(q, UUID)).buffer as any);
            else if (what === "bea") this.ev.data.emit(u8(new I.BeaconConfirmation({ error: undefined }).pack(q, UUID)).buffer as any);
        }
    }
}
/** Runs a script: what was seen after each step, in words. */
async function exec(script: Op[]): Promise<string[][]> {
    const g: any = globals(); Object.keys(g).forEach((k) => { delete g[k]; });
    let log: string[] = []; const out: string[][] = [], stubs: Stub[] = [], cons: any[] = [], subs: any[] = []; let n = 0;
    const name = (x: any) => (x instanceof Error ? "none" : "c" + cons.indexOf(x));
    const told = (tag: string, p: Promise<any>) => { p.then((r) => log.push(tag + " ok" + (r && r.what !== undefined ? r.what : "")), (e) => log.push(tag + (e instanceof Error ? " refused" : " odd"))); };
    const old: any = new C.ReqP({ what: 99, to: 0, act: 0 });
    for (const [op, k] of script) {
        log = []; n += 1; (stubs as any[]).forEach((s) => { s.log = log; });
        switch (op) {
            case "new": {
                const t = new Stub(stubs.length, log); stubs.push(t); const at = cons.length; cons.push(undefined);
                // a waiting handler may run inside of the constructor: then the consumer is known to it only through get()
                try { const c = new C.Consumer(t, { id: at, name: 4 }, k === 0 ? undefined : { global: k === 1 }); cons[at] = c; log = log.map((l) => l.replace("c-1", "c" + at)); log.push("made"); } catch (e) { log.push(e instanceof Error ? "refused" : "odd"); }
                break;
            }
            case "wait": {
                const i = subs.length;
                const s: any = C.Consumer.wait(() => { const again: any = C.Consumer.wait(() => log.push("inner")); log.push("woken " + i + " " + name(C.Consumer.get()) + (again instanceof Error ? "" : " can wait")); });
                subs.push(s); log.push(s instanceof Error ? "refused" : "waits"); break;
            }
            case "unwait": subs[k].destroy(); break;
            case "destroy": told("destroy", cons[k].destroy()); break;
            case "up": stubs[k].ev.connected.emit(); stubs[k].ev.data.emit(u8(new I.ConnectConfirmationBeacon({}).pack(0, undefined)).buffer as any); break;
            case "call": told("call", k < 0 ? new C.ReqP({ what: n, to: 0, act: 0 }).send() : new C.ReqP({ what: n, to: 0, act: 0 }, cons[k]).send()); break;
            case "hold": told("hold" + n, new C.ReqP({ what: n, to: 0, act: 0 }).send()); break;
            case "old": told("old", old.send()); break;
            case "bea": told("bea", new C.BeaconBea({ what: n, act: 0 }).send()); break;
        }
        (stubs as any[]).forEach((s) => { s.log = log; });
        await settle();
        if (op === "hold") stubs.forEach((s) => s.calls.splice(0)); else { stubs.forEach((s) => s.answer()); await settle(); }
        log.push("now " + name(C.Consumer.get())); out.push(log);
    }
    // leave nothing behind for the next script
    subs.forEach((s) => { if (!(s instanceof Error)) s.destroy(); }); cons.forEach((c, k) => { if (c !== undefined && !stubs[k].gone) c.destroy(); });
    return out;
}
/** What has to be seen after each step. */
function model(script: Op[]): string[][] {
    let g = -1, n = 0; const alive: boolean[] = [], up: boolean[] = []; let waits: number[] = [], count = 0; let held: Array<[number, number]> = []; const out: string[][] = [];
    for (const [op, k] of script) {
        const l: string[] = []; n += 1;
        const call = (tag: string, on: number, what: string, ok: string) => { if (on < 0 || !alive[on]) l.push(tag + " refused"); else { l.push("send " + on + " " + what); l.push(tag + " ok" + ok); } };
        switch (op) {
            case "new":
                if (k !== 2 && g >= 0) { alive.push(false); l.push("refused"); }
                else {
                    alive.push(true); if (k !== 2) { g = alive.length - 1; waits.forEach((w) => l.push("woken " + w + " c" + g)); waits = []; }
                    l.push("made");
                }
                up.push(false); break;
            case "wait": if (g >= 0) l.push("refused"); else { l.push("waits"); waits.push(count); } count += 1; break;
            case "unwait": waits = waits.filter((w) => w !== k); break;
            case "destroy": alive[k] = false; if (g === k) g = -1; held.filter(([c]) => c === k).forEach(([, h]) => l.push("hold" + h + " refused")); held = held.filter(([c]) => c !== k); l.push("destroy ok"); break;
            case "up": if (alive[k]) l.push("send " + k + " key" + k); break;
            case "call": call("call", k < 0 ? g : k, "req" + n, "" + n); break;
            case "hold": if (g < 0) l.push("hold" + n + " refused"); else { l.push("send " + g + " req" + n); held.push([g, n]); } break;
            case "old": call("old", g, "req99", "99"); break;
            case "bea": call("bea", g, "bea" + n, ""); break;
        }
        l.push("now " + (g < 0 ? "none" : "c" + g)); out.push(l);
    }
    return out;
}
function* scripts(depth: number): Generator<Op[]> {
    const rec = function* (s: Op[]): Generator<Op[]> {
        if (s.length > 0) yield s;
        if (s.length === depth) return;
        const m = model(s), news = s.filter((o) => o[0] === "new").length, made: number[] = []; let w = 0; const subs: number[] = [];
        { let i = 0, j = 0; s.forEach((o, at) => { if (o[0] === "new") { if (m[at].includes("made")) made.push(i); i += 1; } if (o[0] === "wait") { if (m[at].includes("waits")) subs.push(j); j += 1; } }); w = j; }
        const did = (op: string, k: number) => s.some((o) => o[0] === op && o[1] === k), next: Op[] = [];
        if (news < 3) next.push(["new", 1], ["new", 2], ["new", 0]);
        if (w < 3) next.push(["wait", 0]);
        subs.filter((k) => !did("unwait", k)).forEach((k) => next.push(["unwait", k]));
        made.filter((k) => s.filter((o) => o[0] === "destroy" && o[1] === k).length < 2).forEach((k) => next.push(["destroy", k]));
        for (let k = 0; k < news; k += 1) if (!did("up", k)) next.push(["up", k]);
        next.push(["call", -1], ["old", 0], ["bea", 0], ["hold", 0]); made.forEach((k) => next.push(["call", k]));
        for (const o of next) yield* rec([...s, o]);
    };
    yield* rec([]);
}
async function main() {
    const quick = process.argv[2] !== "thorough", shard = Number(process.argv[3]), of = Number(process.argv[4]);
    const st = { scripts: 0, runs: 0, observations: 0, longest: 0, bad: 0, undecided: 0 }; const bad: string[] = []; let n = 0; let broken: string | undefined;
    process.on("uncaughtException", (e) => { broken = "uncaught: " + e.message; }); process.on("unhandledRejection", (e: any) => { broken = "unhandled rejection: " + (e && e.message); });
    for (const s of scripts(quick ? 5 : 6)) {
        n += 1; if (n % of !== shard) continue;
        broken = undefined; let got: string[][] = []; const want = model(s);
        try { got = await exec(s); } catch (e: any) { broken = "exception: " + (e && e.stack); }
        // within one step the order counts only for the waiting handlers
        const norm = (l: string[]) => JSON.stringify([l.filter((x) => x.startsWith("woken")), l.slice().sort()]);
        const at = want.findIndex((w, i) => got[i] === undefined || norm(w) !== norm(got[i]));
        st.scripts += 1; st.runs += 1; st.observations += got.reduce((a, l) => a + l.length, 0); st.longest = Math.max(st.longest, s.length);
        if (broken !== undefined || at >= 0) {
            st.bad += 1;
            if (bad.length < 40) bad.push(JSON.stringify({ len: s.length, cfg: "", script: JSON.stringify(s), what: broken || "", choices: [], log: s.map((o, i) => (i === at ? ">>> " : "") + JSON.stringify(o) + ": " + JSON.stringify(got[i]) + (i === at ? " instead of " + JSON.stringify(want[i]) : "")) }));
            if (st.bad >= 200) break;
        }
        if (st.scripts < 2000 && (st.scripts & (st.scripts - 1)) === 0 && shard === 0) console.log("SAMPLE " + JSON.stringify(s));
    }
    bad.sort((a, b) => a.length - b.length).forEach((b) => console.log("BAD " + b));
    console.log("STATS " + JSON.stringify(st));
}
main();
