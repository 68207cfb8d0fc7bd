// Executes operations (one JSON object per line of argv[2]) on the generated TypeScript code; one JSON result per line on stdout.
// argv[3]: description of the protocol (vf/schema.py: Schema.desc()).
import * as fs from "fs";
import * as P from "./p";
const PA = P as any;
type Ref = string;
interface Ent { k: "struct" | "enum"; fields?: [string, Ref, boolean, boolean][]; variants?: [string, Ref, boolean][]; }
const D: { [k: string]: Ent } = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));
const PRIM = new Set(["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "str"]);

function cls(t: string): any { let o: any = PA; for (const p of t.split(".")) o = o[p]; return o; }
const hex = (b: any): string => Buffer.from(b).toString("hex");
const unhex = (h: string): Buffer => Buffer.from(h, "hex");
// ---------------------------------------------------------------- model value <-> generated value
function mk(t: Ref, v: any): any {
    if (PRIM.has(t)) {
        switch (t) {
            case "u64": case "i64": return BigInt(v);
            case "f32": { const b = Buffer.from(v, "hex"); return b.readFloatBE(0); }
            case "f64": { const b = Buffer.from(v, "hex"); return b.readDoubleBE(0); }
            case "bool": case "str": return v;
            default: return Number(v);
        }
    }
    const e = D[t];
    if (e.k === "struct") {
        const o: any = {};
        for (const [n, r, opt, rep] of e.fields!) {
            if (v[n] === null && opt) o[n] = undefined;
            else o[n] = rep ? v[n].map((x: any) => mk(r, x)) : mk(r, v[n]);
        }
        return new (cls(t))(o);
    }
    const k = Object.keys(v)[0];
    const [, r, rep] = e.variants!.find(x => x[0] === k)!;
    return { [k]: rep ? v[k].map((x: any) => mk(r, x)) : mk(r, v[k]) };
}
function rd(t: Ref, x: any): any {
    if (PRIM.has(t)) {
        switch (t) {
            case "f32": { if (typeof x !== "number") throw new Error("f32 is " + typeof x); const b = Buffer.alloc(4); b.writeFloatBE(x, 0); return b.toString("hex"); }
            case "f64": { if (typeof x !== "number") throw new Error("f64 is " + typeof x); const b = Buffer.alloc(8); b.writeDoubleBE(x, 0); return b.toString("hex"); }
            case "bool": if (typeof x !== "boolean") throw new Error("bool is " + typeof x); return x;
            case "str": if (typeof x !== "string") throw new Error("str is " + typeof x); return x;
            case "u64": case "i64": if (typeof x !== "bigint") throw new Error(t + " is " + typeof x); return x.toString();
            default: if (typeof x !== "number") throw new Error(t + " is " + typeof x); return x.toString();
        }
    }
    const e = D[t];
    if (e.k === "struct") {
        if (!(x instanceof cls(t))) throw new Error("not an instance of " + t);
        const o: any = {};
        for (const [n, r, opt, rep] of e.fields!) {
            if (x[n] === undefined) { if (!opt) throw new Error("field " + n + " is undefined"); o[n] = null; }
            else if (rep) { if (!Array.isArray(x[n])) throw new Error("field " + n + " is not a list"); o[n] = x[n].map((y: any) => rd(r, y)); }
            else o[n] = rd(r, x[n]);
        }
        return o;
    }
    const ks = Object.keys(x).filter(k => x[k] !== undefined);
    if (ks.length === 0) return {};
    if (ks.length > 1) throw new Error("several options " + ks.join());
    const v = e.variants!.find(y => y[0] === ks[0]);
    if (v === undefined) throw new Error("unknown option " + ks[0]);
    return { [ks[0]]: v[2] ? x[ks[0]].map((y: any) => rd(v[1], y)) : rd(v[1], x[ks[0]]) };
}
function inst(t: Ref, v: any): any {           // an object with encode() / pack()
    if (D[t].k === "struct") return mk(t, v);
    const o = new (cls(t))();
    const e = o.set(mk(t, v));
    if (e instanceof Error) throw e;
    return o;
}
const val = (t: Ref, o: any): any => D[t].k === "struct" ? rd(t, o) : rd(t, o.get());
function decode(t: Ref, b: Uint8Array): any {  // Error or model value
    if (D[t].k === "struct") { const o = cls(t).from(b); return o instanceof Error ? o : rd(t, o); }
    const o = cls(t).from(b);
    return o instanceof Error ? o : rd(t, o);
}
const J = (x: any) => JSON.stringify(x);
function message(m: any): any {
    let node: any = m.msg; const path: string[] = [];
    for (;;) {
        const ks = Object.keys(node).filter(k => node[k] !== undefined);
        if (ks.length !== 1) throw new Error("message has keys " + ks.join());
        path.push(ks[0]); node = node[ks[0]];
        const t = path.join(".");
        if (D[t] !== undefined) {
            if (m.getRef() !== node) throw new Error("getRef() is another object");
            return { t, v: rd(t, node), id: String(m.header.id), seq: String(m.header.sequence) };
        }
    }
}
function wrap(f: () => any): any {
    try { const r = f(); return r instanceof Error ? { err: r.message } : { ok: r }; } catch (e: any) { return { panic: String(e && e.message || e) }; }
}
const PK = (P as any).PackingMiddleware;
const GUID = "___clibriPackingMiddleware___";

// ---------------------------------------------------------------- operations
function round(t: string, v: any, seq: number): any {
    try {
        const want = J(v);
        const o = inst(t, v);
        if (J(val(t, o)) !== want) return { err: `harness: value ${want} read back as ${J(val(t, o))}` };
        const b = o.encode();
        if (b instanceof Error) return { err: "encode: " + b.message };
        if (J(val(t, o)) !== want) return { err: "encoding changed the value" };
        const d = decode(t, new Uint8Array(b));
        if (d instanceof Error) return { err: `decode: ${d.message} (bytes ${hex(b)})` };
        if (J(d) !== want) return { err: `decoded to ${J(d)} (bytes ${hex(b)})` };
        for (const alt of [b, Buffer.from(b)]) { const d2 = decode(t, alt); if (d2 instanceof Error || J(d2) !== want) return { err: `decoding depends on the kind of buffer` }; }
        const pkg = o.pack(seq);
        if (hex(pkg).slice(52) !== hex(b)) return { err: `package ${hex(pkg)} does not carry body ${hex(b)}` };
        const r = new P.BufferReaderMessages();
        const errs = r.chunk(pkg);
        if (errs !== undefined) return { err: "reader: " + errs.map((e: any) => e.message).join() };
        const m = r.next();
        if (m === undefined) return { err: "reader: nothing" };
        const j = message(m);
        if (J(j.v) !== want) return { err: `reader gave ${j.t} ${J(j.v)}` };
        if (j.seq !== String(seq) || j.id !== String(o.getId())) return { err: `header ${J({ id: j.id, seq: j.seq })}` };
        if (r.next() !== undefined || r.len() !== 0 || r.pending() !== 0) return { err: "reader: leftovers" };
        // a decoded object encodes to the same bytes, also when its fields are assigned afterwards
        if (D[t].k === "struct") {
            const o2 = cls(t).from(Buffer.from(b));
            if (hex(o2.encode()) !== hex(b)) return { err: "decoded object encodes differently: " + hex(o2.encode()) };
            const o3 = cls(t).defaults();
            for (const [n] of D[t].fields!) o3[n] = o[n];
            if (hex(o3.encode()) !== hex(b)) return { err: "object with assigned fields encodes differently: " + hex(o3.encode()) };
        }
        return { ok: { b: hex(b), t: j.t, h: hex(pkg).slice(0, 52) } };
    } catch (e: any) { return { err: "thrown: " + (e && e.message || e) }; }
}
function stream(steps: string[], uuid?: string): any[] {
    const r = new P.BufferReaderMessages();
    const out: any[] = [];
    for (const st of steps) {
        try {
            switch (st[0]) {
                case "c": { const e = r.chunk(unhex(st.slice(1)), uuid); out.push(e === undefined ? "ok" : { err: e.length }); break; }
                case "n": { const m = r.next(); out.push(m === undefined ? null : message(m)); break; }
                case "d": { const a: any[] = []; for (let m = r.next(); m !== undefined; m = r.next()) a.push(message(m)); out.push(a); break; }
                case "l": out.push({ len: String(r.len()), pending: String(r.pending()) }); break;
            }
        } catch (e: any) { out.push({ panic: String(e && e.message || e) }); break; }
    }
    return out;
}
function cutOp(o: any): any {
    const data = unhex(o.data); const ends: number[] = o.ends.map(Number); const exp: string[] = o.exp.map(J); const n = data.length; const depth = Number(o.depth);
    const sets: number[][] = [[]];
    for (let i = 1; i < n; i++) sets.push([i]);
    if (depth >= 2) for (let i = 1; i < n; i++) for (let j = i; j < n; j++) sets.push([i, j]);
    if (depth >= 3) {
        const s = new Set<number>();
        for (const e of [0, ...ends]) for (const d of [-1, 0, 1, 4, 6, 10, 18, 25, 26, 27]) { const x = e + d; if (x > 0 && x < n) s.add(x); }
        const pts = [...s].sort((a, b) => a - b);
        for (let a = 0; a < pts.length; a++) for (let b = a + 1; b < pts.length; b++) for (let c = b + 1; c < pts.length; c++) sets.push([pts[a], pts[b], pts[c]]);
    }
    for (let k = 1; k <= 8; k++) sets.push([...Array(n).keys()].filter(i => i > 0 && i % k === 0));
    for (let mask = 0; mask < (1 << (ends.length - 1)); mask++) sets.push(ends.slice(0, -1).filter((_, i) => mask & (1 << i)));
    let runs = 0, chunks = 0; const bad: any[] = [];
    for (const cs of sets) for (let mode = 0; mode < 3; mode++) {
        runs++;
        try {
            const r = new P.BufferReaderMessages();
            let fed = 0, got = 0;
            for (const e of [...cs, n]) {
                const er = r.chunk(data.subarray(fed, e)); chunks++; fed = e;
                if (er !== undefined) throw new Error(`chunk ..${e}: ${er.map((x: any) => x.message).join()}`);
                const complete = ends.filter(x => x <= fed).length;
                if (r.pending() !== complete - got) throw new Error(`after ${fed} bytes: ${r.pending()} pending, expected ${complete - got}`);
                const start = complete === 0 ? 0 : ends[complete - 1];
                if (r.len() !== fed - start) throw new Error(`after ${fed} bytes: ${r.len()} bytes kept, expected ${fed - start}`);
                const last = fed === n;
                const take = last || mode === 0 ? Infinity : mode === 1 ? 0 : 1;
                for (let k = 0; k < take; k++) {
                    const m = r.next(); if (m === undefined) break;
                    const j = J(message(m));
                    if (got >= exp.length || j !== exp[got]) throw new Error(`message ${got} is ${j}`);
                    got++;
                }
                if (take === Infinity && got !== complete) throw new Error(`after ${fed} bytes: ${got} messages delivered, expected ${complete}`);
            }
            if (got !== exp.length) throw new Error(`${got} of ${exp.length} messages`);
        } catch (e: any) { if (bad.length < 3) bad.push({ cuts: cs.map(String), mode: String(mode), why: String(e.message) }); }
    }
    return { runs: String(runs), chunks: String(chunks), bad };
}
function probe(t: string, b: Buffer, what: string, st: any) {
    st.n++;
    let d: any;
    try { d = decode(t, b); } catch (e: any) { if (st.bad.length < 3) st.bad.push({ what, hex: hex(b), why: "thrown: " + (e && e.message || e) }); return; }
    if (d instanceof Error) return;
    st.accepted++;
    try {
        let o: any;
        if (D[t].k === "struct") o = cls(t).from(b); else { o = new (cls(t))(); o.decode(b); }
        const k = decode(t, Buffer.from(o.encode()));
        if (k instanceof Error) throw new Error("which does not re-encode: " + k.message);
        if (J(k) !== J(d)) throw new Error("which re-encodes to " + J(k));
    } catch (e: any) { if (st.bad.length < 3) st.bad.push({ what, hex: hex(b), why: `accepted as ${J(d)} ${e && e.message || e}` }); }
}
function hostile(t: string, body: Buffer, deep: boolean): any {
    const st = { n: 0, accepted: 0, bad: [] as any[] };
    const one = (b: Buffer, w: string) => probe(t, b, w, st);
    const n = body.length;
    for (let k = 0; k < n; k++) one(body.subarray(0, k), `first ${k} bytes`);
    for (let k = 1; k < n; k++) one(body.subarray(k), `without first ${k} bytes`);
    const subs = deep ? [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 192, 224, 240, 247, 248, 253, 254, 255] : [0, 1, 8, 16, 32, 64, 127, 128, 255];
    for (let i = 0; i < n; i++) {
        for (const x of subs) if (body[i] !== x) { const b = Buffer.from(body); b[i] = x; one(b, `byte ${i} = ${x}`); }
        one(Buffer.concat([body.subarray(0, i), body.subarray(i + 1)]), `byte ${i} removed`);
        for (const x of [0, 8, 64, 255]) one(Buffer.concat([body.subarray(0, i), Buffer.from([x]), body.subarray(i)]), `${x} inserted at ${i}`);
    }
    for (const w of [2, 4, 8]) for (let i = 0; i + w <= n; i++) {
        const rest = BigInt(n - i - w), mask = (1n << BigInt(8 * w)) - 1n;
        for (const x of [mask, mask >> 1n, (mask >> 1n) + 1n, mask - 7n, mask - 8n, mask - 9n, rest + 1n, rest, rest - 1n, 1n << BigInt(8 * w - 9), -BigInt(i + w)]) {
            const b = Buffer.from(body); let y = BigInt.asUintN(8 * w, x);
            for (let k = 0; k < w; k++) { b[i + k] = Number(y & 255n); y >>= 8n; }
            one(b, `${w} bytes at ${i} = ${BigInt.asUintN(8 * w, x)}`);
        }
    }
    return { n: String(st.n), accepted: String(st.accepted), bad: st.bad };
}
function words(t: string, alphabet: Buffer, len: number): any {
    const st = { n: 0, accepted: 0, bad: [] as any[] };
    const idx: number[] = [];
    for (;;) {
        probe(t, Buffer.from(idx.map(i => alphabet[i])), "word", st);
        let k = idx.length;
        for (;;) {
            if (k === 0) { idx.unshift(0); idx.fill(0); break; }
            k--;
            if (idx[k] + 1 < alphabet.length) { idx[k]++; idx.fill(0, k + 1); break; }
        }
        if (idx.length > len) break;
    }
    return { n: String(st.n), accepted: String(st.accepted), bad: st.bad };
}
function ids(t: string, v: any): any {
    const o = inst(t, v), c = cls(t);
    return { id: String(o.getId()), sig: String(o.signature()), static: String(c.getId()) };
}

// ---------------------------------------------------------------- C10: creating from plain objects
// Reference judgement: true (conforms), false (does not), undefined (not specified)
const INT: { [k: string]: [bigint, bigint] } = { u8: [0n, 255n], u16: [0n, 65535n], u32: [0n, 4294967295n], i8: [-128n, 127n], i16: [-32768n, 32767n], i32: [-2147483648n, 2147483647n],
    u64: [0n, 18446744073709551615n], i64: [-9223372036854775808n, 9223372036854775807n] };
function all(xs: (boolean | undefined)[]): boolean | undefined { return xs.some(x => x === false) ? false : xs.some(x => x === undefined) ? undefined : true; }
function conforms(t: Ref, rep: boolean, x: any): boolean | undefined {
    if (rep) { if (!Array.isArray(x)) return false; return all([...x].map(y => conforms(t, false, y))); }
    switch (t) {
        case "u64": case "i64": return typeof x === "bigint" && x >= INT[t][0] && x <= INT[t][1];
        case "u8": case "u16": case "u32": case "i8": case "i16": case "i32":
            return typeof x === "number" && Number.isInteger(x) && BigInt(x) >= INT[t][0] && BigInt(x) <= INT[t][1];
        case "f64": return typeof x !== "number" ? false : Number.isFinite(x) ? true : undefined;
        case "f32": return typeof x !== "number" ? false : Number.isFinite(x) ? Number.isFinite(Math.fround(x)) : undefined;
        case "bool": return typeof x === "boolean";
        case "str": return typeof x === "string";
    }
    const e = D[t];
    if (e.k === "struct") return x instanceof cls(t);
    if (typeof x !== "object" || x === null || Array.isArray(x)) return Array.isArray(x) ? undefined : false;
    const ks = Object.keys(x).filter(k => x[k] !== undefined);
    if (ks.length > 1) return false;
    if (ks.length === 0) return undefined;
    const v = e.variants!.find(y => y[0] === ks[0]);
    if (v === undefined) return undefined;
    return conforms(v[1], v[2], x[ks[0]]);
}
function show(x: any): string {
    return JSON.stringify(x, (_, v) => typeof v === "bigint" ? v.toString() + "n" : typeof v === "number" && !Number.isFinite(v) ? String(v) : v === undefined ? "undefined" : typeof v === "function" ? "function" : v);
}
function base(t: Ref): any {
    if (PRIM.has(t)) return mk(t, t === "bool" ? true : t === "str" ? "s" : t === "f32" ? "3fc00000" : t === "f64" ? "3ff8000000000000" : "1");
    const e = D[t];
    if (e.k === "enum") { const [n, r, rep] = e.variants![0]; return { [n]: rep ? [base(r)] : base(r) }; }
    const o: any = {};
    for (const [n, r, , rep] of e.fields!) o[n] = rep ? [base(r)] : base(r);
    return new (cls(t))(o);
}
function probes(t: Ref): any[] {
    const nums = [0, -0, 1, -1, 2, 127, 128, -128, -129, 255, 256, -255, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296,
        Number.MAX_SAFE_INTEGER, 2 ** 53, -(2 ** 53), 2 ** 64, 0.5, -0.5, 1.5, 255.5, 3.5e38, -3.5e38, 1e308, 5e-324, NaN, Infinity, -Infinity];
    const bigs = [0n, 1n, -1n, 255n, 256n, 9007199254740991n, 9007199254740993n, -9007199254740993n, 9223372036854775807n, 9223372036854775808n, -9223372036854775808n, -9223372036854775809n,
        18446744073709551615n, 18446744073709551616n];
    const simple = [undefined, null, true, false, ...nums, ...bigs, "", "1", "text", {}, () => 1, new Date(0), Symbol.iterator];
    const structs = Object.keys(D).filter(k => D[k].k === "struct").slice(0, 6).map(k => base(k));
    const extra: any[] = [];
    if (!PRIM.has(t)) {
        if (D[t].k === "struct") extra.push(base(t), Object.assign({}, base(t)));
        else {
            for (const [n, r, rep] of D[t].variants!) {
                for (const x of [...simple, ...structs]) extra.push({ [n]: x });
                if (!PRIM.has(r)) extra.push({ [n]: base(r) });
                extra.push({ [n]: [] }); extra.push({ [n]: [base(r)] });
                for (const [n2] of D[t].variants!) if (n2 !== n) extra.push({ [n]: rep ? [base(r)] : base(r), [n2]: undefined });
                if (rep) for (const x of simple) extra.push({ [n]: [base(r), x] });
                for (const [n2, r2, rep2] of D[t].variants!) if (n2 !== n) extra.push({ [n]: rep ? [base(r)] : base(r), [n2]: rep2 ? [base(r2)] : base(r2) });
            }
            extra.push({ no_such_option: 1 });
        }
    }
    const flat = [...simple, ...structs, ...extra];
    const ok = base(t);
    const lists = [[], [ok], [ok, ok], ...flat.map(x => [x]), ...flat.map(x => [ok, x])];
    return [...flat, ...lists];
}
/** every field of structure t gets every probe value (the other fields being valid), every field removed, several wrong fields */
function from(t: string): any {
    const e = D[t]; let n = 0, ok = 0, rej = 0; const bad: any[] = [];
    const fields = e.fields!;
    const good = (): any => { const o: any = {}; for (const [f, r, , rep] of fields) o[f] = rep ? [base(r)] : base(r); return o; };
    const check = (obj: any, want: boolean | undefined, what: string, unchanged: boolean) => {
        n++;
        try {
            const r = cls(t).from(obj);
            const acc = !(r instanceof Error);
            if (want !== undefined && acc !== want) throw new Error((acc ? "accepted, though it does not conform" : "rejected, though it conforms: " + r.message));
            if (acc) {
                ok++;
                if (want === true) {
                    for (const [f] of fields) if (!Object.is(r[f], obj[f])) throw new Error(`field ${f} is ${show(r[f])}`);
                    const back = cls(t).from(Buffer.from(r.encode()));
                    if (back instanceof Error) throw new Error("created, but does not decode: " + back.message);
                    const a = J(rd(t, r)), b = J(rd(t, back));
                    if (a !== b) throw new Error(`created as ${a}, decoded as ${b}`);
                }
            } else rej++;
        } catch (er: any) { if (bad.length < 4) bad.push({ what, why: String(er && er.message || er) }); }
    };
    check(good(), true, "all fields valid", true);
    for (const [f, r, opt, rep] of fields) {
        for (const x of probes(r)) {
            const o = good(); o[f] = x;
            const want = x === undefined ? opt : conforms(r, rep, x);
            let w = ""; try { w = show(x); } catch (e) { w = String(x); }
            check(o, want, `${f} = ${w === undefined ? String(x) : w}`, true);
        }
        const o = good(); delete o[f];
        check(o, opt, `${f} missing`, true);
    }
    for (const x of [null, undefined, 1, "x", true]) check(x, false, `from(${String(x)})`, true);
    for (let i = 0; i < fields.length; i++) for (let j = 0; j < fields.length; j++) if (i !== j) {
        const o = good(); delete o[fields[i][0]]; delete o[fields[j][0]];
        check(o, fields[i][2] && fields[j][2], `${fields[i][0]} and ${fields[j][0]} missing`, true);
        const o2 = good(); o2[fields[i][0]] = Symbol.iterator; o2[fields[j][0]] = fields[j][2] ? undefined : o2[fields[j][0]];
        check(o2, false, `${fields[i][0]} invalid, ${fields[j][0]} unset`, true);
    }
    return { n: String(n), accepted: String(ok), rejected: String(rej), bad };
}
/** creating an enumeration message from every probe */
function fromEnum(t: string): any {
    let n = 0, ok = 0, rej = 0; const bad: any[] = [];
    for (const x of probes(t)) {
        const want = conforms(t, false, x);
        n++;
        try {
            const r = cls(t).from(x);
            const acc = !(r instanceof Error);
            if (want !== undefined && acc !== want) throw new Error(acc ? "accepted, though it does not conform" : "rejected, though it conforms: " + r.message);
            if (acc && want) {
                ok++;
                const k = Object.keys(x).filter(y => x[y] !== undefined)[0];
                if (!Object.is(r[k], x[k])) throw new Error(`option is ${show(r)}`);
            } else rej++;
        } catch (er: any) { let w = ""; try { w = show(x); } catch (e) { w = String(x); } if (want !== undefined && bad.length < 4) bad.push({ what: w, why: String(er && er.message || er) }); }
    }
    return { n: String(n), accepted: String(ok), rejected: String(rej), bad };
}

// ---------------------------------------------------------------- C09: packing middleware
/** msgs: [{t, v, seq, uuid}]; enc / dec: one behaviour letter per expected call: i identity, x every byte xor 0x55, g grow by two bytes, s shrink to one byte, e error.
 *  cuts: positions where the packed stream is cut. Everything is judged here against the obvious reference. */
class Mw extends PK {
    calls: any[] = []; enc = ""; dec = ""; ne = 0; nd = 0;
    private tr(b: any, k: string, back: boolean): any {
        const x = Buffer.from(b);
        switch (k) {
            case "x": return new Uint8Array(x.map(y => y ^ 0x55)).buffer;
            case "g": return back ? new Uint8Array(x.subarray(2)).buffer : new Uint8Array(Buffer.concat([Buffer.from([0xaa, 0xbb]), x])).buffer;
            case "e": return new Error("middleware");
            default: return new Uint8Array(x).buffer;
        }
    }
    encode(b: any, id: number, seq: number, uuid?: string): any { const k = this.enc[this.ne++] || "i"; this.calls.push(["enc", hex(b), id, seq, uuid]); return this.tr(b, k, false); }
    decode(b: any, id: number, seq: number, uuid?: string): any { const k = this.dec[this.nd++] || "i"; this.calls.push(["dec", hex(b), id, seq, uuid]); return this.tr(b, k, true); }
}
function apply(h: string, k: string): string { const x = Buffer.from(h, "hex"); return k === "x" ? Buffer.from(x.map(y => y ^ 0x55)).toString("hex") : k === "g" ? "aabb" + h : h; }
function mw(o: any): any {
    const g: any = globalThis;
    let runs = 0, calls = 0; const bad: any[] = [];
    const warn = console.warn; console.warn = () => {};
    try {
        for (const enc of o.enc as string[]) for (const dec of o.dec as string[]) for (const cuts of o.cuts as number[][]) {
            runs++;
            try {
                delete g[GUID];
                const bodies = o.msgs.map((m: any) => hex(inst(m.t, m.v).encode()));
                const idsv = o.msgs.map((m: any) => inst(m.t, m.v).getId());
                const h = new Mw() as any; h.enc = enc; h.dec = dec;
                let data = Buffer.alloc(0); const sent: number[] = [];
                o.msgs.forEach((m: any, i: number) => {
                    let p: any;
                    try { p = inst(m.t, m.v).pack(m.seq, m.uuid); } catch (e: any) { if (enc[i] !== "e") throw new Error(`packing ${i} failed: ${e.message}`); return; }
                    if (enc[i] === "e") throw new Error(`packing ${i} succeeded though the middleware failed`);
                    const want = apply(bodies[i], enc[i]);
                    const got = Buffer.from(p);
                    if (got.subarray(26).toString("hex") !== want) throw new Error(`package ${i} carries ${got.subarray(26).toString("hex")}, expected ${want}`);
                    if (got.readBigUInt64LE(18) !== BigInt(want.length / 2)) throw new Error(`package ${i} has length ${got.readBigUInt64LE(18)}`);
                    data = Buffer.concat([data, got]); sent.push(i);
                });
                const ec = h.calls; h.calls = [];
                const wantE = o.msgs.map((m: any, i: number) => ["enc", bodies[i], idsv[i], m.seq, m.uuid]);
                if (J(ec) !== J(wantE)) throw new Error(`encoding calls ${J(ec)}, expected ${J(wantE)}`);
                // ---- reading
                const r = new P.BufferReaderMessages();
                let errs = 0; const got: any[] = [];
                let fed = 0;
                for (const c of [...cuts.filter(c => c < data.length), data.length]) {
                    const e = r.chunk(data.subarray(fed, c), o.uuid); fed = c;
                    if (e !== undefined) errs += e.length;
                    for (let m = r.next(); m !== undefined; m = r.next()) got.push(message(m));
                }
                const wantD: any[] = [], wantM: any[] = []; let wantErr = 0, unsure = false;
                sent.forEach((i, k) => {
                    const kd = dec[k] || "i", ke = enc[i] || "i";
                    wantD.push(["dec", apply(bodies[i], ke), idsv[i], o.msgs[i].seq, o.uuid]);
                    if (kd === "e") wantErr++;
                    else if (kd === ke) wantM.push({ t: o.msgs[i].t, v: o.msgs[i].v, id: String(idsv[i]), seq: String(o.msgs[i].seq) });
                    else unsure = true;
                });
                if (J(h.calls) !== J(wantD)) throw new Error(`decoding calls ${J(h.calls)}, expected ${J(wantD)}`);
                if (!unsure) {
                    if (J(got) !== J(wantM)) throw new Error(`messages ${J(got)}, expected ${J(wantM)}`);
                    if (errs !== wantErr) throw new Error(`${errs} errors, expected ${wantErr}`);
                    if (r.len() !== 0) throw new Error(`${r.len()} bytes left`);
                }
                calls += wantE.length + wantD.length;
            } catch (e: any) { if (bad.length < 4) bad.push({ enc, dec, cuts, why: String(e && e.message || e) }); }
        }
    } finally { delete g[GUID]; console.warn = warn; }
    return { runs: String(runs), calls: String(calls), bad };
}

const lines = fs.readFileSync(process.argv[2], "utf8").split("\n");
for (const l of lines) {
    if (l === "") continue;
    const o = JSON.parse(l);
    let r: any;
    switch (o.op) {
        case "enc": r = wrap(() => { const b = inst(o.t, o.v).encode(); return b instanceof Error ? b : hex(b); }); break;
        case "pack": r = wrap(() => { const b = inst(o.t, o.v).pack(Number(o.seq)); return b instanceof Error ? b : hex(b); }); break;
        case "dec": r = wrap(() => decode(o.t, unhex(o.b))); break;
        case "round": r = round(o.t, o.v, Number(o.seq)); break;
        case "ids": r = ids(o.t, o.v); break;
        case "hostile": r = hostile(o.t, unhex(o.b), o.deep !== undefined); break;
        case "words": r = words(o.t, unhex(o.alphabet), Number(o.len)); break;
        case "stream": r = stream(o.steps, o.uuid); break;
        case "cuts": r = cutOp(o); break;
        case "from": r = D[o.t].k === "struct" ? from(o.t) : fromEnum(o.t); break;
        case "mw": r = mw(o); break;
        case "hash": r = P.hash(); break;
        default: throw new Error("op " + o.op);
    }
    fs.writeSync(1, JSON.stringify(r) + "\n");
}
