"""G01, G02: identifiers of messages and fields, hashes of the sources."""
import collections, hashlib, itertools, json, os, re, shutil
from . import common, farm, protlang as P
from .checks_gen import MARK, TOP
from .checks_cli import argv, put, tree
from . import checks_wf as WFC

# ------------------------------------------------------------------ readers of identifiers
def rust_ids(text):
    """({path: (id, {field: id})}, {id: path}) out of a Rust output; ValueError when two places disagree."""
    i = text.find("pub enum AvailableMessages"); body = text[i:]
    path, out, cur, disp = [], {}, None, {}
    for l in body.split("\n"):
        ind = (len(l) - len(l.lstrip(" "))) // 4; s = l.strip()
        if s: path = path[:ind]
        m = re.match(r"pub mod (\w+) \{", s)
        if m: path = path[:ind] + [m.group(1)]; continue
        m = re.match(r"impl (?:Struct|Enum)(?:De|En)code for (\w+) \{", s)
        if m: cur = ".".join(path[:ind] + [m.group(1)]); out.setdefault(cur, (set(), {})); fn = False; continue
        if re.match(r"impl (DecodeBuffer|Packing)", s): cur = None
        m = re.match(r"(\d+) => match ([\w:]+)::extract\(", s)
        if m and cur is None: last = int(m.group(1)); disp.setdefault(last, []).append(m.group(2).replace("::", ".")); continue
        if cur is None: continue
        if re.match(r"fn get_id\(", s): fn = True
        if fn:
            m = re.search(r"\b(\d+)\b", re.sub(r"u32", "", s))
            if m: out[cur][0].add(int(m.group(1))); fn = False
        for f, n in re.findall(r"self\.(\w+)\.get_buf_to_store\(Some\((\d+)\)\)", s) + re.findall(r"self\.(\w+) = match .*get_from_storage\(.*Some\((\d+)\)\)", s): out[cur][1].setdefault(f, set()).add(int(n))
    return _single(out, disp)

def ts_ids(text):
    i = text.find(MARK); body = text[i:]
    path, out, cur, disp, case = [], {}, None, {}, None
    for l in body.split("\n"):
        ind = (len(l) - len(l.lstrip(" "))) // 4; s = l.strip()
        if s: path = path[:ind]
        m = re.match(r"(?:export )?namespace (\w+) \{", s)
        if m: path = path[:ind] + [m.group(1)]; continue
        m = re.match(r"export class (\w+) extends ([\w.]+)", s)
        if m:
            if m.group(1) == "BufferReaderMessages": cur = None; continue
            cur = ".".join(path[:ind] + [m.group(1)]); out.setdefault(cur, (set(), {})); continue
        if cur is None:
            m = re.match(r"case (\d+):", s)
            if m: case = int(m.group(1)); disp.setdefault(case, [])
            m = re.match(r"instance = (?:new )?([\w.]+?)(?:\.defaults)?\(\);", s)
            if m and case is not None: disp[case].append(m.group(1))
            continue
        m = re.search(r"getId\(\): number \{ return (\d+); \}", s)
        if m: out[cur][0].add(int(m.group(1)))
        m = re.match(r"\(\) => .*?this\.(?!getBuffer)(\w+)", s)
        if m:
            for n in re.findall(r"this\.getBuffer(?:FromBuf)?(?:<[^(]*>)?\((\d+),", s): out[cur][1].setdefault(m.group(1), set()).add(int(n))
        m = re.match(r"const (\w+?)(?:Buf)?: .* = (?:this\.getValue<.*>\(storage, |storage\.get\()(\d+)", s)
        if m: out[cur][1].setdefault(m.group(1), set()).add(int(m.group(2)))
    return _single(out, disp)

def _single(out, disp):
    res = {}
    for p, (ids, fields) in out.items():
        if len(ids) != 1: raise ValueError("%s has the identifiers %s" % (p, sorted(ids)))
        for f, n in fields.items():
            if len(n) != 1: raise ValueError("field %s.%s has the identifiers %s" % (p, f, sorted(n)))
        res[p] = (min(ids), {f: min(n) for f, n in fields.items()})
    d = {}
    for i, ps in disp.items():
        if len(ps) != 1: raise ValueError("identifier %d is read as %s" % (i, ps))
        d[i] = ps[0]
    return res, d

def wrong_ids(ids, disp, decls):
    """Problem of one output or None; decls: [(path, kind, fields)]."""
    want = {".".join(p): (k, f) for p, k, f in decls}
    if set(ids) - {x for x in ids if x.startswith("InternalServiceGroup.")} != set(want): return "identifiers of %s, declared %s" % (sorted(ids), sorted(want))
    by = {}
    for p, (i, fields) in sorted(ids.items()):
        if i in by: return "%s and %s have the same identifier %d" % (by[i], p, i)
        by[i] = p
        if not 0 <= i < 1 << 32: return "identifier %d" % i
        back = {}
        for f, n in sorted(fields.items()):
            if n in back: return "fields %s and %s of %s have the same identifier %d" % (back[n], f, p, n)
            back[n] = f
            if not 0 <= n < 1 << 16: return "field %s.%s has the identifier %d, which does not fit" % (p, f, n)
        if p in want and want[p][0] == "struct" and set(fields) != set(want[p][1]): return "identifiers for the fields %s of %s, declared %s" % (sorted(fields), p, want[p][1])
    if disp != by: return "the reader maps %s, the types have %s" % (_d(disp, by), _d(by, disp))
    return None
def _d(a, b): return ", ".join("%s to %s" % (k, a[k]) for k in sorted(a) if b.get(k) != a[k]) or "nothing else"

def _decls(text):
    d, _ = P.model(text)
    return [(x.path, x.kind, [i[0] for i in x.items]) for x in d]

def _ids(text):
    """Generate in several combinations, compare the identifiers. (problem, ids, tail of the TypeScript output)"""
    decls = _decls(text); got = {}
    for name, kw in (("both", {}), ("both embedded", {"em": True}), ("rust", {"ts": False}), ("typescript", {"rs": False, "em": True})):
        okd, files, said = farm.gen(text, **kw)
        if not okd: return "rejected: " + said, None, None
        for f, rd in (("p.rs", rust_ids), ("p.ts", ts_ids)):
            if files[f] is None: continue
            if f == "p.ts" and MARK not in files[f]: continue
            try: ids, disp = rd(files[f])
            except ValueError as e: return "%s of %s: %s" % (f, name, e), None, None
            p = wrong_ids(ids, disp, decls)
            if p: return "%s of %s: %s" % (f, name, p), None, None
            got[(f, name)] = ids
        if name == "both embedded": em = files["p.ts"]
    first = None
    for k, ids in got.items():
        flat = (k, {p: (i, f if any(d[0] == tuple(p.split(".")) and d[1] == "struct" for d in decls) else {}) for p, (i, f) in ids.items()})
        if first is None: first = flat
        elif first[1] != flat[1]: return "%s has %s, %s has %s" % (first[0], _x(first[1], flat[1]), k, _x(flat[1], first[1])), None, None
    return None, first[1], em
def _x(a, b): return {k: v for k, v in a.items() if b.get(k) != v}

def _wf(job):
    """Identifiers in the protocols inside of generated producers and consumers and in outputs generated along."""
    text, wf, alone = job; d = farm.DIR + "/g"
    put(d, {"ok.prot": text.encode(), "ok.workflow": wf.encode(), "Cargo.toml": b'[package]\nname = "x"\nversion = "0.1.0"\n[dependencies]\n', "package.json": b'{"name":"x"}', "out/": None})
    rc, out, err = farm.clibri(argv({"src": "ok", "wf": "ok", "cd": "absent", "pd": "absent", "rs": "absent", "ts": "absent", "em": "on"}), d)
    if not farm.ok(rc, out): return "rejected: exit status %s: %s" % (rc, (out + err)[-300:])
    decls = _decls(text); first = None
    for f, rd in (("out/p.rs", rust_ids), ("out/p.ts", ts_ids), ("c/rust/implementation/protocol/mod.rs", rust_ids), ("p/rust/implementation/protocol/mod.rs", rust_ids), ("c/typescript/protocol/protocol.ts", ts_ids), ("p/typescript/implementation/protocol/index.ts", ts_ids)):
        try: ids, disp = rd(open(d + "/" + f).read())
        except (ValueError, OSError) as e: return "%s: %s" % (f, e)
        p = wrong_ids(ids, disp, decls)
        if p: return "%s: %s" % (f, p)
        ids = {p: (i, fs if not any(d[0] == tuple(p.split(".")) and d[1] == "enum" for d in decls) else {}) for p, (i, fs) in ids.items()}
        if first is None: first = (f, ids)
        elif first[1] != ids: return "%s and %s differ: %s, %s" % (first[0], f, _x(first[1], ids), _x(ids, first[1]))
    for p, v in alone.items():
        if first[1].get(p) != v: return "%s has %s, generated without a workflow it has %s" % (p, first[1].get(p), v)
    return None

# ------------------------------------------------------------------ protocols
def forests(n, depth):
    """All ordered forests of n nodes: structures, enumerations and groups (possibly empty, nested to the given depth)."""
    if n == 0: yield (); return
    for k in "se":
        for r in forests(n - 1, depth): yield (k,) + r
    if depth:
        for m in range(0, n):
            for inner in forests(m, depth - 1):
                for r in forests(n - 1 - m, depth): yield (("g",) + inner,) + r

def text_of(forest, pre="", refs=True):
    cnt = itertools.count(1); prev = []
    def walk(f, pad):
        o = []
        for x in f:
            n = next(cnt)
            if x == "s": o.append("struct S%d { u8 a; str b?; %s}" % (n, "%s r; " % prev[-1] if refs and prev else "")); prev.append("S%d" % n) if not pad else None
            elif x == "e": o.append("enum E%d { A; u16 B; }" % n)
            else: o.append("group G%d { %s }" % (n, walk(x[1:], pad + 1)))
        return " ".join(o)
    return walk(forest, 0)

def family(c):
    out = []
    for n in range(1, 6 if c.quick else 7):
        for f in forests(n, 3):
            if "s" in str(f).replace("'", ""): out.append(text_of(f))
    out.append("struct Big { %s } enum L { %s } struct After { Big b; L l; }" % (" ".join("u8 f%d;" % i for i in range(300)), " ".join("u8 o%d;" % i for i in range(300))))
    out.append(" ".join("struct M%d { u8 a; M%d b; }" % (i, i - 1) if i else "struct M0 { u8 a; }" for i in range(200)) + " ".join("group Gr%d { enum X { A; } struct M%d { u8 q; X x; } }" % (i, i) for i in range(150)))
    out.append("group A { group B { group C { group D { group E { struct F { u8 x; } enum G { H; } } } struct I { D.E.F x; } } } enum J { B.C.I x; } } struct K { A.J y; }")
    out.append("struct A { u8 a; } group G { struct A { u8 a; } group G2 { struct A { u8 a; } enum E { A; } } } group H { struct A { u8 a; } group G { struct A { u8 a; } } }")
    return list(dict.fromkeys(out))

def merged(texts):
    """One protocol which holds many others, each in a group of its own."""
    return " ".join("group W%d { %s }" % (i, t) for i, t in enumerate(texts))

def g01(c):
    texts = family(c); n = 0
    res = farm.run(_ids, texts, 8)
    good = []
    for t, (p, ids, em) in zip(texts, res):
        n += 1
        if p: c.violation("ids:" + t[:300], "%s: %s" % (t[:400], p[:600]), {"text": t[:20000]})
        else: good.append((t, ids, em))
    if not good: return
    # the same protocols next to a workflow
    wj = []
    for t, ids, em in good[::4 if c.quick else 1]:
        s = [x for x, k, f in _decls(t) if k == "struct"]
        if len(s) < 2: continue
        a, b = ".".join(s[0]), ".".join(s[-1])
        wj.append((t, "&config { %sProducer: rust typescript; Consumer: rust typescript; } %s !%s { (%s); }" % ("SelfKey: %s; " % b if len(s) % 2 else "", a, b, b), ids))
    for j, p in zip(wj, farm.run(_wf, wj, 4)):
        n += 1
        if p: c.violation("wf:" + j[0][:300], "%s with %s: %s" % (j[0][:400], j[1], p[:600]), {"text": j[0], "workflow": j[1]})
    nt = run_ts(c, good); nr = run_rust(c, [good[-1], good[-2], good[-4]] + [(merged([t for t, _, _ in good[i::40 if c.quick else 12]][:60]), None, None) for i in (1, 2)])
    c.cov.update({"evaluations": n, "distinct_nontrivial": len(texts), "with_workflow": len(wj), "messages_packed_and_read_in_typescript": nt, "messages_packed_and_read_in_rust": nr, "exhaustive": True})
    c.cov["rule"] = "every ordered forest of up to %d structures (at least one), enumerations and groups (also empty ones, to depth three), large and deep protocols; each generated in four combinations of outputs and an evenly spread part next to a workflow (six protocols); identifiers are read out of all outputs and compared; every message of every protocol is packed and read back in TypeScript, of merged protocols in Rust" % (5 if c.quick else 6)
    for t, _, _ in good[:: max(1, len(good) // 6)]: c.sample(t)

TSMAIN = """
function flat(o: any, pre: string): string[] { return Object.keys(o).filter(k => o[k] !== undefined).map(k => k); }
export function go(name: string, P: any, list: [string, string, { [k: string]: number }, number][]): void {
    for (const [path, kind, fields, id] of list) {
        try {
            const cls: any = path.split('.').reduce((o: any, k: string) => o[k], P);
            let m: any;
            if (kind === 'struct') m = cls.defaults(); else { m = new cls(); m.set({ A: '', B: undefined, H: undefined }); if (!m.isDefined || !m.isDefined()) { m = new cls(); for (const k of Object.keys(fields)) { m.set({ [k]: fields[k] === 0 ? '' : 1 }); break; } } }
            const buf = m.pack(7, 'u'); if (buf instanceof Error) throw buf;
            const b = Buffer.from(buf); const got = b.readUInt32LE(0);
            if (got !== id) throw new Error('packed with the identifier ' + got + ' instead of ' + id);
            const r = new P.BufferReaderMessages(); const errs = r.chunk(buf, 'u'); if (errs instanceof Error || (Array.isArray(errs) && errs.length)) throw new Error('reader: ' + errs);
            const msg = r.next(); if (msg === undefined) throw new Error('nothing was read');
            let o: any = msg.msg; for (const k of path.split('.')) { const ks = Object.keys(o).filter(x => o[x] !== undefined); if (ks.length !== 1 || ks[0] !== k) throw new Error('read as ' + ks.join('.')); o = o[k]; }
            if (kind === 'struct') {
                if (!(o instanceof cls)) throw new Error('read as an object of another class');
                const ids: number[] = []; let at = 26;
                while (at < b.length) { ids.push(b.readUInt16LE(at)); const rank = b[at + 2]; const n = rank === 8 ? b[at + 3] : rank === 16 ? b.readUInt16LE(at + 3) : rank === 32 ? b.readUInt32LE(at + 3) : Number(b.readBigUInt64LE(at + 3)); at += 3 + rank / 8 + n; }
                const want = Object.keys(fields).map(k => fields[k]);
                if (JSON.stringify(ids.slice().sort()) !== JSON.stringify(want.slice().sort())) throw new Error('fields ' + ids + ' instead of ' + want);
            }
        } catch (e) { console.log(JSON.stringify([name, path, String(e)])); }
    }
    console.log(JSON.stringify([name, '', list.length]));
}
"""
def run_ts(c, good):
    base = common.fresh("ids-ts"); head = good[0][2][:good[0][2].index(MARK)]
    tops = {}
    for e, k, n in TOP.findall(head): tops.setdefault(n, []).append((bool(e), k))
    inner = [n for n, l in tops.items() if not any(e for e, _ in l)]
    types = [n for n in inner if all(k in ("interface", "type") for _, k in tops[n])]; vals = [n for n in inner if n not in types]
    allt = {n for n, l in tops.items() if all(k in ("interface", "type") for _, k in l)}
    common.write(base + "/em.ts", head + ("\nexport { %s };\n" % ", ".join(vals) if vals else "") + ("export type { %s };\n" % ", ".join(types) if types else ""))
    imp = "import { %s } from './em'; " % ", ".join(n for n in tops if n not in allt) + "import type { %s } from './em'; export { BufferReaderMessages as _B };\n" % ", ".join(allt)
    common.write(base + "/go.ts", TSMAIN)
    def shard(k):
        part = list(enumerate(good))[k::8]; m = "import { go } from './go';\n"
        for i, (t, ids, em) in part:
            common.write(base + "/f%d.ts" % i, (imp if em.startswith(head) else "") + (em[len(head):] if em.startswith(head) else em))
            lst = [[".".join(p), kind, (ids[".".join(p)][1] if kind == "struct" else {f: (0 if f in ("A", "H") else 1) for f in fs[:1]}), ids[".".join(p)][0]] for p, kind, fs in _decls(t) if not (kind == "enum" and fs and fs[0] not in ("A", "H", "o0"))]
            m += "import * as P%d from './f%d'; go('%d', P%d, %s as any);\n" % (i, i, i, i, json.dumps(lst))
        common.write(base + "/main%d.ts" % k, m)
        r = common.esbuild(base + "/main%d.ts" % k, base + "/main%d.js" % k)
        if r.returncode != 0: raise common.CheckError("esbuild: " + r.stderr[-2000:])
        return common.run(["node", base + "/main%d.js" % k], timeout=300)
    n = 0; seen = set()
    for r in common.pmap(shard, range(8), 8):
        for l in r.stdout.split("\n"):
            if not l.strip(): continue
            name, path, what = json.loads(l)
            if path == "": n += what; seen.add(name); continue
            t = good[int(name)][0]
            c.violation("ts:%s:%s" % (path, t[:300]), "TypeScript, %s of %s: %s" % (path, t[:400], what), {"text": t[:20000]})
        if r.returncode != 0: c.violation("ts-run", "the TypeScript program ended with %s: %s" % (r.returncode, r.stderr[-800:]))
    return n

def _unset(t):
    """Structures which hold an enumeration, directly or inside of other structures."""
    decls, _ = P.model(t); kinds = {x.path: x for x in decls}; bad = set()
    for x in decls:   # types are declared before they are used
        if x.kind == "struct" and any(i[1][0] == "ref" and not i[2] and not i[3] and (kinds[i[1][1]].kind == "enum" or i[1][1] in bad) for i in x.items): bad.add(x.path)
    return bad

RSMAIN = """#![allow(warnings)]
%(mods)s
fn fields(b: &[u8]) -> Vec<u16> { let mut v = vec![]; let mut at = 26; while at < b.len() { v.push(u16::from_le_bytes([b[at], b[at + 1]])); let n = match b[at + 2] { 8 => (1, b[at + 3] as usize), 16 => (2, u16::from_le_bytes([b[at + 3], b[at + 4]]) as usize), 32 => (4, u32::from_le_bytes([b[at + 3], b[at + 4], b[at + 5], b[at + 6]]) as usize), _ => (8, u32::from_le_bytes([b[at + 3], b[at + 4], b[at + 5], b[at + 6]]) as usize) }; at += 3 + n.0 + n.1; } v.sort(); v }
fn main() { %(calls)s }
"""
def run_rust(c, items):
    d = os.path.join(common.BUILD, "h-ids"); mods, calls, total = "", [], 0; fns = ""
    for k, (t, ids, em) in enumerate(items):
        r = farm.run(gen_rs, [t], 1, 1)[0]
        if r is None: c.violation("rs-gen:" + t[:200], "no Rust output for %s" % t[:400]); continue
        ids, _ = rust_ids(r); common.write(d + "/src/m%d.rs" % k, r); mods += "mod m%d;\n" % k
        body = ""; unset = _unset(t)
        for p, kind, fs in _decls(t):
            if p in unset: continue   # the default value of an enumeration is not one which can be packed
            path = "m%d::" % k + "::".join(p); total += 1
            pat = "_"
            for i in range(len(p) - 1, -1, -1): pat = "m%d::%sAvailableMessages::%s(%s)" % (k, "".join(x + "::" for x in p[:i]), p[i], pat)
            mk = path + "::defaults()" if kind == "struct" else "%s::%s" % (path, "A(String::new())" if fs[0] == "A" else "H(String::new())" if fs[0] == "H" else "%s(Default::default())" % fs[0]) if fs else None
            if kind == "enum" and fs[0] not in ("A", "H", "o0"): continue
            q = '%d %s' % (k, ".".join(p)); i, fl = ids[".".join(p)]
            body += ("{ use m%d::*; let mut m = %s; match m.pack(7, None) { Err(e) => println!(\"%s: not packed: {}\", e), Ok(b) => { let id = u32::from_le_bytes([b[0], b[1], b[2], b[3]]); if id != %du32 { println!(\"%s: packed with the identifier {}\", id); } %s"
                     "let mut r = m%d::Buffer::<m%d::AvailableMessages>::new(); if let Err(e) = r.chunk(&b, None) { println!(\"%s: reader: {:?}\", e); } match r.next() { None => println!(\"%s: nothing was read\"), Some(x) => if !matches!(x.msg, %s) { println!(\"%s: read as {:?}\", x.msg); } } } } }\n") % (
                k, mk, q, i, q, ("let f = fields(&b); if f != vec!%s { println!(\"%s: fields {:?}\", f); } " % (json.dumps(sorted(fl.values())), q)) if kind == "struct" else "", k, k, q, q, pat, q)
        for x in body.split("\n"):
            if x: fns += "fn c%d() { %s }\n" % (len(calls), x); calls.append("c%d();" % len(calls))
    common.write(d + "/src/main.rs", RSMAIN % {"mods": mods, "calls": " ".join(calls)} + fns)
    common.write_if_changed(d + "/Cargo.toml", '[package]\nname = "ids"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nbytes = "=1.1.0"\n[profile.dev]\ndebug = false\n[workspace]\n')
    r, exe = common.cargo_build(d, "ids")
    if r.returncode != 0: c.violation("rs-build", "the Rust outputs do not compile together: " + r.stderr[-1500:]); return 0
    o = common.run([exe], timeout=120)
    for l in o.stdout.split("\n"):
        if l.strip(): k, rest = l.split(" ", 1); c.violation("rs:" + l[:200], "Rust: %s (protocol %s)" % (rest, items[int(k)][0][:300]), {"text": items[int(k)][0][:20000]})
    if o.returncode != 0: c.violation("rs-run", "the Rust program ended with %s: %s" % (o.returncode, o.stderr[-800:]))
    return total

def gen_rs(t):
    okd, f, said = farm.gen(t, ts=False, em=True)
    return f["p.rs"] if okd else None

# ------------------------------------------------------------------ G02
HASH = re.compile(r"""["'`]([0-9A-Za-z+/=_-]{16,128})["'`]""")
def _hashes(job):
    """Hashes in every output of one pair of texts: {place: [..]} or a problem."""
    prot, wf, sub, names = job; d = farm.DIR + "/" + sub
    pn, wn = names
    put(d, {pn: prot.encode(), "out/": None, "Cargo.toml": b'[package]\nname = "x"\nversion = "0.1.0"\n[dependencies]\n', "package.json": b'{"name":"x"}', **({wn: wf.encode()} if wf is not None else {})})
    a = ["-s", pn, "-rs", "out/p.rs", "-ts", "out/p.ts", "--em"] + (["-wf", wn, "-cd", "c", "-pd", "p"] if wf is not None else [])
    rc, out, err = farm.clibri(a, d)
    if not farm.ok(rc, out): shutil.rmtree(d); return "rejected: exit status %s: %s" % (rc, (out + err)[-300:])
    res = {}
    def rd(f): return open(os.path.join(d, f)).read()
    def one(f, what, rx):
        m = re.findall(rx, rd(f))
        if len(m) != 1: raise ValueError("%s: %d hashes of the %s" % (f, len(m), what))
        res[(f, what)] = m[0]
    Q = r"""["'`]([0-9A-Za-z+/=_-]{16,128})["'`]"""
    try:
        fs = ["out/p.rs"] + (["c/rust/implementation/protocol/mod.rs", "p/rust/implementation/protocol/mod.rs"] if wf is not None else [])
        for f in fs: one(f, "protocol", r"fn hash\(\)[^{]*\{[^}]*?" + Q)
        fs = ["out/p.ts"] + (["c/typescript/protocol/protocol.ts", "p/typescript/implementation/protocol/index.ts"] if wf is not None else [])
        for f in fs: one(f, "protocol", r"function hash\(\)[^{]*\{[^}]*?" + Q)
        if wf is not None:
            for f in ("c/rust/implementation/consumer/mod.rs", "c/rust/implementation/mod.rs", "p/rust/implementation/mod.rs"):
                t = rd(f)
                if "PROTOCOL: &str" in t: one(f, "protocol", r"PROTOCOL: &str\s*=\s*" + Q); one(f, "workflow", r"WORKFLOW: &str\s*=\s*" + Q)
            one("c/typescript/index.ts", "protocol", r"PROTOCOL_HASH[^=]*=\s*" + Q); one("c/typescript/index.ts", "workflow", r"WORKFLOW_HASH[^=]*=\s*" + Q)
            m = re.search(r"static hash\b.*?\n    \}(?: = \{.*?\n    \})?;", rd("p/typescript/implementation/index.ts"), re.S)
            hs = re.findall(Q, m.group()) if m else []
            if len(hs) != 2: raise ValueError("p/typescript/implementation/index.ts: %d hashes" % len(hs))
            res[("p/typescript", "protocol")], res[("p/typescript", "workflow")] = hs
            if sum(1 for f, w in res if w == "workflow") != 4: raise ValueError("hash of the workflow in %s" % [f for f, w in res if w == "workflow"])
    except (ValueError, OSError) as e: res = str(e)
    shutil.rmtree(d); return res

def g02(c):
    base = "struct A { u8 a; str b?; } struct B { A[] list; } enum E { One; u16 Two; } group G { struct C { E e; } }\n"
    wbase = "&config { Producer: rust typescript; Consumer: rust typescript; }\nA !B { (X > A) > B; (Y > B); } @A { > B; } @beacons { > G.C; } # comment\n"
    prots = [base]; wfs = [wbase]
    def add(l, t):
        if t not in l: l.append(t)
    for i in range(len(base) + 1):
        if i < len(base):
            ch = base[i]
            if ch in " \n": add(prots, base[:i] + ("\n" if ch == " " else " ") + base[i + 1:]); add(prots, base[:i] + "  " + base[i + 1:])
    for a, b in ((" a;", " z;"), (" b?", " b"), ("u8 a", "u16 a"), ("A[] list", "A list"), ("One", "Uno"), ("u16 Two", "i16 Two"), ("group G", "group H"), ("struct C", "struct D"), ("E e", "E f"), ("str b?", "str[] b?"), ("u8 a; str b?;", "str b?; u8 a;"), ("One; u16 Two", "u16 Two; One"), ("struct A { u8 a; str b?; }", "struct A { u8 a; str b?; } struct Z {}")): assert a in base; add(prots, base.replace(a, b, 1))
    for i in range(len(wbase)):
        if wbase[i] in " \n" and i < len(wbase) - 12: add(wfs, wbase[:i] + ("\n" if wbase[i] == " " else " ") + wbase[i + 1:]); add(wfs, wbase[:i] + "  " + wbase[i + 1:])
    for a, b in (("X >", "Z >"), ("(Y > B)", "(Y > G.C)"), ("> B;", "> B?;"), ("@A", "@B"), ("> G.C", "> B"), ("comment", "commenT"), ("comment", "comment."), (" # comment\n", ""), ("rust typescript; C", "typescript rust; C"), ("A !B", "E !B") if 0 else ("X > A", "X > B")): assert a in wbase; add(wfs, wbase.replace(a, b, 1))
    # long texts with one difference, over the limits of buffers
    sizes = (1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000) if c.quick else range(900, 5200, 37)
    for n in sizes:
        pad = base + " " * (n - len(base)); add(prots, pad); add(wfs, wbase + " " * (n - len(wbase)))
        for at in ({n - 1, 1022, 1023, 1024, 1025, 2047, 2048, n // 2} if c.quick else {n - 1, n - 2, 1023, 1024, 2047, 2048, 3071, 3072, 4095, 4096, n // 2}):
            if len(wbase) < at < n: add(prots, pad[:at] + "\n" + pad[at + 1:]); w = wbase + " " * (n - len(wbase)); add(wfs, w[:at] + "\n" + w[at + 1:]); add(wfs, w[:at] + "#" + w[at + 1:])
    N = ("a.prot", "a.workflow"); M = ("sub.x/other name.prot", "sub.x/b.wf")
    def fit(p, w): return w if re.search(r"group\s+G\s*{\s*struct\s+C\b", p) else w.replace("G.C", "B")
    jobs = [(p, fit(p, wbase), "t", N) for p in prots] + [(base, w, "t", N) for w in wfs]
    jobs += [(p, fit(p, w), "some/other place", M) for p in prots[::9] for w in wfs[::23]] + [(p, None, s, n) for p in prots[::3] for s, n in (("t", N), ("deep/er/dir", M))] + [(prots[i], fit(prots[i], wfs[-1 - i]), "t", M) for i in range(min(len(prots), len(wfs)))]
    seen = {"protocol": {}, "workflow": {}}; back = {"protocol": {}, "workflow": {}}; n = 0
    for j, r in zip(jobs, farm.run(_hashes, jobs, 4)):
        n += 1; key = hashlib.sha256(repr(j).encode()).hexdigest()[:12]
        if isinstance(r, str): c.violation("out:" + key, "%r with %r: %s" % (j[0][:300], j[1] and j[1][:300], r), {"job": j}); continue
        for what, text in (("protocol", j[0]), ("workflow", j[1])):
            hs = {h for (f, w), h in r.items() if w == what}
            if text is None: continue
            if len(hs) != 1: c.violation("same:%s:%s" % (what, key), "the outputs have different hashes of the %s: %s" % (what, {k: v for k, v in r.items() if k[1] == what}), {"job": j}); continue
            h = hs.pop()
            if seen[what].setdefault(text, h) != h: c.violation("stable:%s:%s" % (what, key), "one text of a %s got two hashes, %s and %s (in %s, with %r)" % (what, h, seen[what][text], j[2:], j[0 if what == "workflow" else 1]), {"job": j})
            if back[what].setdefault(h, text) != text: c.violation("diff:%s:%s" % (what, key), "two texts of a %s got one hash %s: %r and %r" % (what, h, text[-400:], back[what][h][-400:]), {"job": j})
    c.cov.update({"evaluations": n, "distinct_nontrivial": len(prots) + len(wfs), "protocol_texts": len(prots), "workflow_texts": len(wfs), "exhaustive": True})
    c.cov["rule"] = "every white space of a protocol and a workflow changed or doubled, changed names, types, marks, orders and comments, texts of sizes around multiples of 1024 with one character changed at the limits; in several directories and under several names, with and without a workflow; all ten places of a hash are compared; distinct_nontrivial = different texts"
    for t in (prots[3], wfs[5], prots[-1][-60:]): c.sample(t)
