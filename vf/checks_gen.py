"""G01-G04, G10: the protocol language, the identifiers, and what is generated for it."""
import itertools, json, os, re, shutil, collections
from . import common, farm, protlang as P

# ------------------------------------------------------------------ G03
ALPHA = ["struct", "enum", "group", "{", "}", ";", "[", "]", "?", ".", "u8", "A", "B", "N1"]
BASE = ["struct", "A", "{", "u8", "a", ";", "}"]   # something declared, so that references can resolve

def _states(depth):
    """Shortest prefix reaching each syntactic state with at most `depth` nested braces."""
    seen = {P.START: []}
    q = collections.deque([P.START]); n = 0
    while q:
        s = q.popleft()
        for t in ("group", "struct", "enum", "NAME", "{", "}", ";", "[", "]", "?", ".", "u8"):
            if t == "NAME":
                if not (s[1].startswith("name:") or s[1] in ("ftype", "etype", "fname?", "ename?", "etype1")): continue
                n += 1; tok = "N%d_" % n
            else:
                if s[1].startswith("name:") or s[1] in ("fname?", "ename?"): continue
                tok = t
                if t == "u8" and s[1] not in ("struct", "enum", "fpath", "epath"): continue
            r = P.step(s, tok)
            if r is None or len(r[0]) > depth or r in seen: continue
            seen[r] = seen[s] + [tok]; q.append(r)
    return seen

_n = [0]
def _completion(st):
    """Shortest tokens completing a viable state into a well-formed text."""
    out = []
    while not P.complete(st):
        pos = st[1]
        if pos == "decl" or pos in ("struct", "enum"): t = "}"
        elif pos.startswith("open:"): t = "{"
        elif pos.startswith("name:") or pos in ("ftype", "fname?", "etype", "ename?"): _n[0] += 1; t = "z%d" % _n[0]
        elif pos == "etype1": t = ";"
        elif pos in ("fpath", "epath"): _n[0] += 1; t = "A"
        elif pos in ("fbr", "ebr"): t = "]"
        else: t = ";"
        st = P.step(st, t); out.append(t)
        assert st is not None
    return out

def render(tokens, style=0):
    """Token texts with different layouts; words never touch."""
    out = ""
    for i, t in enumerate(tokens):
        need = bool(out) and P.is_word(t) and (out[-1].isalnum() or out[-1] == "_")
        if style == 0: sep = " " if i else ""
        elif style == 1: sep = " " if need else ""
        elif style == 2: sep = "\n" if i else "\n\n"
        elif style == 3: sep = "\t \r\n"
        else: sep = " " if need else ""
        out += sep + t
    return out + ("\n" if style in (2, 3) else "")

def judge(text):
    """Run the generator on one text and compare with the reference: (verdict, problem)."""
    try: decls, groups = P.model(text); want = True
    except P.Ill as e: want = False; why = str(e)
    except P.Unspecified: return "unspecified", None
    okd, files, said = farm.gen(text)
    if want != okd:
        return "wrong", ("well-formed, but rejected: " + said) if want else "ill-formed (%s), but accepted: %s" % (why, said)
    if not want:
        if any(v is not None for v in files.values()): return "wrong", "rejected, but wrote %s" % [k for k, v in files.items() if v is not None]
        return "rejected", None
    for f, rd, lang in (("p.rs", P.read_rust, "Rust"), ("p.ts", P.read_ts, "TypeScript")):
        if files[f] is None: return "wrong", "accepted, but there is no %s output" % lang
        d = P.compare(decls, rd(files[f], groups), lang)
        if d: return "wrong", d
    return "accepted", None

DOC = ("struct A { u8 a; str[] b?; f64 c; bool[] d; } enum E { One; Two; u16 n; A[] list; A single; } "
       "group G { struct S { A x?; E e; A[] y?; i64[] z; } group H { enum F { S s; Last; } struct T { F f; S[] q; G.S r; } } struct U { H.F f?; H.T t; } } struct Z { G.H.T t; G.S[] s; E[] e; }").replace("{", " { ").replace("}", " } ").replace(";", " ; ").replace("[]", " [ ] ").replace("?", " ? ").replace(".", " . ").split()
DOC2 = "group A { group B { group C { struct D { u8 x ; } } enum E { C . D d ; } } } struct F { A . B . C . D [ ] x ? ; } struct G { } enum H { K ; L ; }".split()

def _texts(c):
    """(kind, text) of the enumerated protocol texts."""
    seen = set()
    def emit(kind, text):
        if text in seen: return None
        seen.add(text); return (kind, text)
    deep = not c.quick
    st = _states(3 if deep else 2)
    # from every syntactic state: every continuation by up to k tokens, viable except possibly for its last token
    k = 3 if deep else 2
    for s, pre in sorted(st.items(), key=lambda x: (len(x[1]), x[1])):
        front = [(s, [])]
        for d in range(k + 1):
            nx = []
            for q, w in front:
                yield emit("state", render(BASE + pre + w))
                yield emit("state", render(BASE + pre + w + _completion(q)))
                if d == k: continue
                for t in ALPHA:
                    r = P.step(q, t)
                    if r is None: yield emit("deviation", render(BASE + pre + w + [t])); yield emit("deviation", render(BASE + pre + w + [t] + _completion(q)))
                    elif len(r[0]) <= 4: nx.append((r, w + [t]))
            front = nx
    # every one-token edit of two documents
    for doc in (DOC, DOC2):
        for style in (0, 1, 2, 3): yield emit("layout", render(doc, style))
        for i in range(len(doc) + 1):
            if i < len(doc):
                yield emit("edit", render(doc[:i] + doc[i + 1:]))
                yield emit("edit", render(doc[:i] + [doc[i]] + doc[i:]))
                if i + 1 < len(doc): yield emit("edit", render(doc[:i] + [doc[i + 1], doc[i]] + doc[i + 2:]))
                yield emit("edit", render(doc[:i])); yield emit("edit", render(doc[:i]) + " ")
            for t in ALPHA:
                yield emit("edit", render(doc[:i] + [t] + doc[i:]))
                if i < len(doc): yield emit("edit", render(doc[:i] + [t] + doc[i + 1:]))
        # layout: every boundary on its own with every separator; other characters at every boundary and in every word
        for i in range(len(doc) + 1):
            a, b = render(doc[:i], 1), render(doc[i:], 1)
            need = bool(a) and bool(b) and P.is_word(a[-1:]) and (b[0].isalnum() or b[0] == "_")
            for sep in ([] if need else [""]) + [" ", "\n", "\t", "\r\n", "\x0c", " \n\n\t "]: yield emit("layout", a + sep + b)
            for ch in "#/\"'-,:@&!()<>=*+\\|~`$%^0" if doc is DOC2 or deep else "#/,:(@0": yield emit("char", a + (" " if need else "") + ch + (" " if b else "") + b)
        for i, t in enumerate(doc):
            for o in range(1, len(t)):
                for ch in "#/-,.:@;?[]{} \n" if deep else "#-. [\n": yield emit("char", " ".join(doc[:i]) + " " + t[:o] + ch + t[o:] + " " + " ".join(doc[i + 1:]))
    for ch in "\x00\x0b\x7f\u00a0\u00e9\u4e2d\ufeff":
        for i in (0, 1, 4, len(DOC2)): yield emit("char", render(DOC2[:i]) + ch + " " + render(DOC2[i:]))
    for w in ("_a", "a_", "a1", "A_1b", "a1_2", "x" * 200, "_", "a0"):
        if w != "_": yield emit("name", "struct A { u8 %s; } enum B { A %s; } group %s { struct C { A q; } }" % (w, w, w)); yield emit("name", "struct %s { u8 a; } struct B { %s b?; }" % (w, w))
    for n in ("1a", "1", "a-b", "a$", "a.b"): yield emit("name", "struct %s { u8 a; }" % n); yield emit("name", "struct A { u8 %s; }" % n)

def c03g(c):
    texts = [x for x in _texts(c) if x]
    verd = collections.Counter(); kinds = collections.Counter()
    for (k, t), (v, p) in zip(texts, farm.run(judge, [t for _, t in texts])):
        verd[v] += 1; kinds[k] += 1
        if p: c.violation("%s:%s" % (k, t[:300]), "%s: %s" % (t[:500], p[:600]), {"text": t})
    c.cov["states"] = len(_states(2 if c.quick else 3))
    c.cov["transitions"] = sum(verd.values())
    c.cov["traces_validated_against_impl"] = verd["accepted"] + verd["rejected"]
    c.cov.update({"accepted": verd["accepted"], "rejected": verd["rejected"], "left_unspecified": verd["unspecified"]})
    c.cov["kinds"] = dict(kinds)
    c.cov["rule"] = ("every state of the reference acceptor with up to %d nested braces x every continuation by up to %d tokens of a 14-token alphabet (viable up to its last token), bare and completed; every one-token deletion, doubling, swap, "
                     "insertion, replacement and cut of two documents; every boundary with every separator; foreign characters at every boundary and inside every word" % ((2, 2) if c.quick else (3, 3)))
    c.cov["exhaustive"] = True
    acc = [t for k, t in texts if k == "state"]
    c.sample({"text": acc[len(acc) // 2]}); c.sample({"text": texts[-1][1]})

# ------------------------------------------------------------------ G04
CHAIN = ("G", "H", "K", "L", "W", "Q")
def _scopes_text(decl, use, path, kind, order, wrap, tree=None):
    """A text with scopes '', G, GH, GHK, H, HG; `decl` scopes declare T before the uses (order=0) or after (order=1) them."""
    n = [0]
    def T(sc):
        n[0] += 1
        mark = "m_" + ("".join(sc) or "root")
        if kind == "clash" and (len(sc) % 2 if sc[:1] != ("H",) else not len(sc) % 2): return "group T { struct T { u8 %s; } }" % mark
        return ("enum T { u8 %s; }" if kind == "enum" else "struct T { u8 %s; }") % mark if kind != "mixed" or len(sc) % 2 else "enum T { u8 %s; }" % mark
    def U(sc): return {"s": "struct U { %s f; }", "o": "struct U { %s f?; }", "r": "struct U { %s[] f; }", "e": "enum U { %s f; }", "x": "enum U { %s[] f; }"}[wrap] % path
    def scope(sc, subs):
        a = T(sc) if sc in decl else ""
        u = U(sc) if sc == use else ""
        body = " ".join("group %s { %s }" % (s[-1], scope(sc + (s[-1],), x)) for s, x in subs)
        if order == 0: return " ".join((a, body, u))
        return " ".join((body if order == 1 else "", u, a, body if order == 2 else ""))
    if tree is not None: return scope((), tree)
    return scope((), [(("G",), [(("G", "H"), [(("G", "H", "K"), [])])]), (("H",), [(("H", "G"), [])])])

def c04g(c):
    scopes = [(), ("G",), ("G", "H"), ("G", "H", "K"), ("H",), ("H", "G")]
    paths = ["T", "T.T", "G.T.T", "G.T", "H.T", "K.T", "G.H.T", "H.K.T", "H.G.T", "G.H.K.T", "G.G.T", "U"]
    texts = []
    for m in range(1 << len(scopes)):
        decl = [s for i, s in enumerate(scopes) if m >> i & 1]
        if c.quick and len(decl) > 4: continue
        for use in scopes:
            for p in paths:
                for order in (0, 1, 2):
                    if c.quick and order and len(decl) > 2: continue
                    for kind, wrap in (("struct", "s"), ("enum", "s"), ("mixed", "o"), ("struct", "r"), ("struct", "e"), ("clash", "s")) if not c.quick or len(decl) <= 2 else (("mixed", "s"), ("clash", "x")):
                        texts.append(_scopes_text(decl, use, p, kind, order, wrap))
    # one group inside of another, deeper
    n = 5 if c.quick else 6; tree = []
    for i in range(n, 0, -1): tree = [(CHAIN[:i], tree)]
    chain = [CHAIN[:i] for i in range(n + 1)]
    for m in range(1 << (n + 1)):
        decl = [s for i, s in enumerate(chain) if m >> i & 1]
        if not 0 < len(decl) <= (3 if c.quick else 4): continue
        for use in chain:
            for a in range(n + 1):
                for b in range(a, n + 1):
                    p = ".".join(CHAIN[a:b] + ("T",)) if b > a or a == 0 else None
                    if p is None or c.quick and b - a > 1 and b - a < n - 1 and len(decl) > 2: continue
                    for order in (0,) if c.quick and len(decl) > 2 else (0, 1): texts.append(_scopes_text(decl, use, p, "mixed" if len(decl) == 2 else "struct", order, "s" if b % 2 else "e", tree))
    texts = list(dict.fromkeys(texts))
    verd = collections.Counter(); acc = []
    for t, (v, p) in zip(texts, farm.run(judge, texts)):
        verd[v] += 1
        if v == "accepted": acc.append(t)
        if p: c.violation("text:" + t, "%s: %s" % (t, p[:600]), {"text": t})
    # what the compilers make of the references: the type of the field is the declared type, checked by rustc and tsc
    k = 160 if c.quick else 1600
    pick = acc[::max(1, len(acc) // k)]
    typed = compile_typed(c, pick)
    c.cov["evaluations"] = len(texts)
    c.cov["distinct_nontrivial"] = len(acc)
    c.cov.update({"accepted": verd["accepted"], "rejected": verd["rejected"], "typed_by_rustc_and_tsc": typed})
    c.cov["rule"] = "scopes root, G, G.H, G.H.K, H, H.G and a chain of %d groups: T declared in every subset of them (up to four in the quick tier) before, after or between the uses x place of use x %d reference paths x structure/enumeration/group of the same name and optional/repeated/option uses; distinct_nontrivial = accepted texts, whose outputs are read back; an evenly spread part of them is typed by rustc and tsc" % (n, len(paths))
    c.cov["exhaustive"] = True
    c.sample({"text": acc[len(acc) // 3]}); c.sample({"text": texts[len(texts) // 2]})

def gen_em(text):
    o, f, said = farm.gen(text, em=True)
    return f["p.rs"] if o else None, f["p.ts"] if o else None, said

def bytes_meta():
    """The bytes crate compiled for checking: directory of its metadata."""
    d = os.path.join(common.BUILD, "h-bytes")
    os.makedirs(d + "/src", exist_ok=True)
    common.write_if_changed(d + "/Cargo.toml", '[package]\nname = "hb"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nbytes = "=1.1.0"\n[workspace]\n')
    common.write_if_changed(d + "/src/lib.rs", "")
    r, _ = common.cargo_build(d, "hb", target="t-bytes")
    if r.returncode != 0: raise common.CheckError(r.stderr[-2000:])
    dd = os.path.join(common.BUILD, "t-bytes", "debug", "deps")
    m = sorted(f for f in os.listdir(dd) if f.startswith("libbytes-") and f.endswith(".rmeta"))
    return os.path.join(dd, m[0])

def rustc_check(name, src, extern):
    d = os.path.join(common.scratch(), "rc"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".rs")
    with open(p, "w") as f: f.write(src)
    r = common.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", re.sub(r"\W", "_", name), "--emit=metadata", "-A", "warnings", "--extern", "bytes=" + extern, p, "-o", os.path.join(d, name + ".rmeta")], timeout=120)
    for x in (p, os.path.join(d, name + ".rmeta")):
        try: os.unlink(x)
        except OSError: pass
    return None if r.returncode == 0 else r.stderr[:1500]

TSC = ["node", "--max-old-space-size=6000", common.NODE_MODULES + "/typescript/bin/tsc"]
LIBS = ["es5", "es2015.core", "es2015.collection", "es2015.promise", "es2015.iterable", "es2015.generator", "es2015.symbol", "es2015.proxy", "es2016.array.include", "es2017.object", "es2017.string"]
MARK = "export interface IAvailableMessages {"
TOP = re.compile(r"^(export )?(?:declare )?(const|let|function|(?:abstract )?class|interface|type|enum|namespace) ([A-Za-z_$][\w$]*)", re.M)

def tsc_check(files, shards=8):
    """{name: text} of embedded outputs; returns {name: [diagnostics]} of those which do not type-check. The library part which all
    embedded outputs start with is checked once and imported (a text which starts with anything else is checked as a whole)."""
    names = sorted(files)
    base = common.fresh("tsc")
    shutil.copy(os.path.join(common.VERIF, "harness/ts_types/env.d.ts"), base + "/env.d.ts")
    heads = collections.Counter(files[n][:files[n].index(MARK)] for n in names if files[n].count("\n" + MARK) == 1)
    head = heads.most_common(1)[0][0] if heads else None
    imp = ""
    if head:
        tops = {}
        for e, k, n in TOP.findall(head): tops.setdefault(n, []).append((bool(e), k))
        inner = [n for n, l in tops.items() if not any(e for e, _ in l)]
        types = [n for n in inner if all(k in ("interface", "type") for _, k in tops[n])]
        vals = [n for n in inner if n not in types]
        common.write(base + "/em.ts", head + "\nexport { %s };\n" % ", ".join(vals) + ("export type { %s };\n" % ", ".join(types) if types else ""))
        imp = "import { %s } from '../em'; " % ", ".join(tops)
    def one(k):
        part = names[k::shards]
        if not part: return {}
        d = os.path.join(base, "s%d" % k); os.makedirs(d)
        for n in part:
            t = files[n]
            if head and t.startswith(head): t = imp + t[len(head):]
            common.write(os.path.join(d, n + ".ts"), t)
        common.write(d + "/tsconfig.json", json.dumps({"compilerOptions": {"target": "es2020", "lib": LIBS, "module": "commonjs", "moduleResolution": "node", "strict": True, "noEmit": True, "ignoreDeprecations": "5.0", "types": []},
            "files": ["../env.d.ts"] + [n + ".ts" for n in part]}))
        r = common.run(TSC + ["-p", d, "--pretty", "false"], cwd=d, timeout=600)
        out = {}
        for l in r.stdout.split("\n"):
            m = re.match(r"(\S+?)\.ts\((\d+),\d+\): error (TS\d+): (.*)", l)
            if m: out.setdefault(m.group(1) if "/" not in m.group(1) else "the library part", []).append("%s line %s: %s" % (m.group(3), m.group(2), m.group(4)))
            elif re.match(r"(error |tsconfig)", l): raise common.CheckError("tsc: " + l)
        if r.returncode != 0 and not out: raise common.CheckError("tsc: %s %s" % (r.stdout[-500:], r.stderr[-1500:]))
        return out
    res = {}
    for o in common.pmap(one, range(shards), shards): res.update(o)
    return res

def compile_typed(c, texts):
    """Compile both outputs of every text together with assertions on the type of every field which refers to a type."""
    ext = bytes_meta()
    outs = farm.run(gen_em, texts, 8)
    jobs = []; tsf = {}
    for i, (t, (rs, ts, said)) in enumerate(zip(texts, outs)):
        if rs is None or ts is None: c.violation("gen:" + t, "no output for %s: %s" % (t, said), {"text": t}); continue
        decls, _ = P.model(t)
        ra, ta = [], []
        for k, d in enumerate(decls):
            for n, ty, rep, opt in d.items:
                if ty[0] != "ref": continue
                kind = next(x.kind for x in decls if x.path == ty[1])
                rt = "crate::" + "::".join(ty[1])
                if rep: rt = "Vec<%s>" % rt
                if opt: rt = "Option<%s>" % rt
                own = "crate::" + "::".join(d.path)
                if d.kind == "struct": ra.append("pub fn chk%d_%s(x: %s) -> %s { x.%s }" % (k, n, own, rt, n))
                else: ra.append("pub fn chk%d_%s(x: %s) -> %s { %s::%s(x) }" % (k, n, rt, own, own, n))
                tt = ".".join(ty[1][:-1] + (("I" if kind == "enum" else "") + ty[1][-1],))
                if rep: tt = "Array<%s>" % tt
                if opt: tt += " | undefined"
                if d.kind == "struct": ta.append("export function chk%d_%s(x: %s): %s { return x.%s; }" % (k, n, ".".join(d.path), tt, n))
                else: ta.append("export function chk%d_%s(x: %s): %s { return { %s: x }; }" % (k, n, tt, ".".join(d.path[:-1] + ("I" + d.path[-1],)), n))
        jobs.append((i, t, rs + "\n" + "\n".join(ra)))
        tsf["f%d" % i] = ts + "\n" + "\n".join(ta)
    for (i, t, src), err in zip(jobs, common.pmap(lambda j: rustc_check("f%d" % j[0], j[2], ext), jobs)):
        if err: c.violation("rustc:" + t[:300], "%s: the Rust output does not compile with the declared types: %s" % (t, err), {"text": t})
    for n, errs in tsc_check(tsf).items():
        t = texts[int(n[1:])] if n[1:].isdigit() else n
        c.violation("tsc:" + t[:300], "%s: the TypeScript output does not compile with the declared types: %s" % (t, "; ".join(errs[:5])), {"text": t})
    return len(jobs)
