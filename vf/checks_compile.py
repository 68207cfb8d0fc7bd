"""G10: what the generator accepts, it turns into code that the compilers accept."""
import itertools, json, os, re, shutil, collections
from . import common, farm
from .checks_gen import gen_em, bytes_meta, rustc_check, tsc_check, TSC, LIBS
from .schema import PRIMS

# ------------------------------------------------------------------ protocols
PRE = "enum A { X; Y; } enum N { One; } enum E { str S; u8 U; } struct S { u8 a; str b?; } struct V {} group G { enum A { Z; } struct S { A a; } enum E { u64 U; S S; } group H { struct S { u16 c; } enum E { bool B; } } }\n"
TYPES = PRIMS + ["A", "N", "E", "S", "V", "G.S", "G.E", "G.A", "G.H.S", "G.H.E"]
def shapes(types): return [(t + r, o) for t in types for r in ("", "[]") for o in ("", "?")]
def options(types): return [""] + [t + r for t in types for r in ("", "[]")]
def needed(body):
    """Only the declarations a body refers to, so that a shape also stands alone."""
    return PRE if re.search(r"\b(A|N|E|S|V|G)\b", re.sub(r"\b(struct|enum) \w+", "", body)) else ""

def protocols(quick):
    for t, o in shapes(TYPES): yield "field", "struct T { %s f%s; }" % (t, o)
    for t in options(TYPES): yield "option", "enum T { %s F; }" % t
    for name in ("struct", "group"): yield "empty", name + " T { }"
    yield "empty", "struct T { } struct U { T t?; T[] l; }"; yield "empty", "group T { group U { } struct S { } }"; yield "empty", ""
    few = ["u8", "str", "u64", "f64", "A", "E", "S"]
    for a, b in itertools.product(options(few), repeat=2):
        if not quick or (a == "") != (b == "") or (len(a) * 7 + len(b)) % 5 == 0: yield "two options", "enum T { %s F; %s H; } struct U { T t; T o?; T[] l; T[] z?; }" % (a, b)
    for (a, o), (b, p) in itertools.product(shapes(few), repeat=2):
        if not quick or o != p and a < b and "[]" in a + b and len(a + b) % 3 == 0: yield "two fields", "struct T { %s a%s; %s b%s; }" % (a, o, b, p)
    # uses of types from every place of a tree of groups
    places = ["%s", "group K { %s }", "group K { struct W { u8 a; } group L { %s } }", "group K { group L { group Q { %s } } }", "group K { group L { group Q { group W { %s } } } }", "group K { group L { group Q { group W { struct J { u8 a; } group Z { %s } } } } }"]
    for pl in places:
        for kind in ("struct T { %s f%s; }", "enum T { %s F; }%s"):
            for t in ("A", "E", "S", "G.S", "G.E", "G.H.S", "G.H.E", "V"):
                for r in ("", "[]"):
                    for o in (("", "?") if kind[0] == "s" else ("",)):
                        if quick and (len(t) + len(r) + len(pl) + len(o)) % 2: continue
                        yield "place", pl % (kind % (t + r, o))
                    # the declaration stands beside its use
        yield "beside", pl % "enum A1 { P; } struct S1 { A1 a; A1[] l?; } enum E1 { A1 A; S1 S; S1[] L; } struct T { E1 e; E1 o?; E1[] l; S1 s?; }"

def compile_protocols(c):
    items = list(dict.fromkeys(protocols(c.quick))); texts = [needed(b) + b for _, b in items]
    ext = bytes_meta(); kinds = collections.Counter(k for k, _ in items)
    outs = farm.run(gen_em, texts, 8); jobs, tsf = [], {}
    for i, (t, (rs, ts, said)) in enumerate(zip(texts, outs)):
        if rs is None or ts is None: c.violation("gen:" + items[i][1], "no output for a shape of the language: %s: %s" % (t, said), {"text": t}); continue
        jobs.append((i, rs)); tsf["f%d" % i] = ts
    for (i, src), err in zip(jobs, common.pmap(lambda j: rustc_check("g%d" % j[0], j[1], ext), jobs)):
        if err: c.violation("rustc:" + items[i][1], "%s: the Rust output does not compile: %s" % (texts[i], err), {"text": texts[i]})
    for n, errs in tsc_check(tsf).items():
        t = texts[int(n[1:])] if n[1:].isdigit() else n; k = items[int(n[1:])][1] if n[1:].isdigit() else n
        c.violation("tsc:" + k, "%s: the TypeScript output does not compile: %s" % (t, "; ".join(errs[:5])), {"text": t})
    return kinds, [t for _, t in items]

# ------------------------------------------------------------------ workflows
PROT = """struct R1 { u8 a; } struct R2 { u8 a; } struct Er { u8 a; } struct P { u8 a; } struct Q { str s; } struct B { u8 a; } struct C { u8 a; }
enum En { X; Y; } enum En2 { str X1; u8 Y1; }
group M { struct R { u8 a; } struct D { En e; } enum Em { Z; } group N { struct F { En2 a?; } struct Er { u8 c; } } }
struct SK { u8 a; } struct AK { str b?; } struct Ev { u8 z; } struct Bc { u8 z; } struct Vd {} group O { struct P { u8 a; } }
"""
AXES = collections.OrderedDict([
    ("request", ["R1", "M.R", "M.N.F", "Vd", "O.P"]),
    ("error", ["Er", "M.N.Er", "R1", "Vd", "P"]),
    ("actions", ["(P);", "(P) > B;", "(P) > B?;", "(P) > B; > C?;", "(P) > C?; > M.D?;", "(R1);", "(M.N.F) > M.D;", "(Vd) > Vd;", "(Er);", "(P) > P; > Er; > R1;",
                 "(X > P);", "(X > P) > B;", "(X > P) > B?;", "(X > P); (Y > Q);", "(X > P) > B?; (Y > Q) > B;", "(X > P); (Y > P) > B;", "(X > P) > B; (X2 > Q) > B; > C?;", "(X > P) > B?; > C?; (Y > M.D) > M.D;", "(X > P); (Y > Q); (Z > M.N.F) > M.N.F?;", "(X > R1); (Y > Er);", "(X > P); (P > Q);", "(Deny > P) > B?; (accept > Q) > C;", "(X > P); (Y > O.P);", "(X > Vd); (Y > Vd) > Vd?;"]),
    ("events", ["", "@Ev { > B; }", "@Ev { > B?; }", "@Ev { > B; > C?; > M.D; }", "@M.D { > M.D; }", "@connected { > B; }", "@connected { > B?; > C; }", "@disconnected { > B?; }", "@connected { > M.D?; } @disconnected { > C; > B?; }", "@Ev { > Ev; } @M.R { > B?; } @connected { > B; }", "@Vd { > Vd?; }", "@R1 { > P; }", "@P { > Er; }", "@SK { > AK; }"]),
    ("beacons", ["", "@beacons { > Bc; }", "@beacons { > Bc; > M.D; > Vd; }", "@beacons { > M.N.F; }", "@beacons { > R2; > O.P; }", "@beacons { > Ev; > B; }"]),
    ("second", ["", "R2 !Er { (P); }", "R2 !M.N.Er { (A1 > P) > B; (A2 > Q) > B?; }", "M.D !Er { (P) > B; } R2 !R2 { (X > Q); (Y > P) > C; }"]),
    ("keys", ["", "SelfKey: SK;", "AssignedKey: AK;", "SelfKey: SK; AssignedKey: AK;", "SelfKey: M.D; AssignedKey: M.N.F;", "AssignedKey: Vd;", "SelfKey: AK; AssignedKey: SK;"]),
    ("targets", [("rust typescript", "rust typescript"), ("rust", "rust"), ("typescript", "typescript"), ("rust", "typescript"), ("typescript", "rust"), ("rust typescript", "rust")])])
STRUCTS = ["R1", "R2", "Er", "P", "Q", "B", "C", "M.R", "M.D", "M.N.F", "M.N.Er", "SK", "AK", "Ev", "Bc", "Vd", "O.P"]
def text_of(v):
    p, q = v["targets"]
    return "&config { Producer: %s; Consumer: %s; %s }\n%s !%s { %s }\n%s\n%s\n%s\n" % (p, q, v["keys"], v["request"], v["error"], v["actions"], v["events"], v["beacons"], v["second"])
def workflows(quick):
    base = {k: v[0] for k, v in AXES.items()}
    def put(**kw): return text_of({**base, **kw})
    yield "&config { Producer: rust typescript; Consumer: rust typescript; }"
    for e in AXES["events"][1:]: yield "&config { Producer: rust typescript; Consumer: rust typescript; }\n" + e
    for k, vs in AXES.items():
        for x in vs: yield put(**{k: x})
    for i, (k, l) in enumerate(itertools.combinations(AXES, 2)):
        for a, b in itertools.product(AXES[k][1:], AXES[l][1:]):
            if not quick: yield put(**{k: a, l: b})
    # everything at once, in a Latin-square pattern over the axes
    n = max(len(v) for v in AXES.values())
    for s in range(n if quick else 3 * n): yield text_of({k: v[(s * (j + 1) + j) % len(v)] for j, (k, v) in enumerate(AXES.items())})

def gen_wf(job):
    i, text, base = job
    d = os.path.join(base, "w%d" % i); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/c"); os.makedirs(d + "/p")
    common.write(d + "/Cargo.toml", '[package]\nname = "x"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\n'); common.write(d + "/package.json", '{"name":"x","version":"0.0.1"}')
    common.write(d + "/p.prot", PROT); common.write(d + "/w.workflow", text)
    rc, out, err = farm.clibri(["-s", "p.prot", "-wf", "w.workflow", "-cd", "c/", "-pd", "p/"], d)
    os.unlink(d + "/Cargo.toml"); os.unlink(d + "/package.json")
    if not farm.ok(rc, out): return "exit status %s: %s %s" % (rc, out[-300:], err[-300:]), []
    mods = []
    for side in ("c", "p"):
        for sub in ("", "/rust"):
            if os.path.exists("%s/%s%s/mod.rs" % (d, side, sub)): mods.append((side, "%s%s/mod.rs" % (side, sub)))
    return None, mods

CARGO = """[package]
name = "wf"
version = "0.1.0"
edition = "2018"
[dependencies]
bytes = "=1.1.0"
clibri = "=0.1.7"
log = "0.4.14"
thiserror = "1.0.26"
async-trait = "0.1.51"
chrono = "0.4"
futures = "0.3.14"
tokio = { version = "=1.14.0", features = ["full"] }
tokio-util = "0.6.7"
uuid = { version = "0.8.1", features = ["v4"] }
[workspace]
"""
def compile_workflows(c):
    from . import wflang as W
    texts = []
    for t in dict.fromkeys(workflows(c.quick)):
        try: W.parse(W.lex(t), STRUCTS); texts.append(t)
        except W.Ill: pass # a duplicate which the language does not have
    base = common.fresh("wf")
    # the dependencies are built once, the shards are compiled with their metadata
    d = os.path.join(common.BUILD, "h-wf"); os.makedirs(d + "/src", exist_ok=True)
    common.write_if_changed(d + "/Cargo.toml", CARGO); common.write_if_changed(d + "/src/lib.rs", "")
    lock = os.path.join(common.VERIF, "harness/Cargo.lock.rigs")
    if not os.path.exists(d + "/Cargo.lock") and os.path.exists(lock): shutil.copy(lock, d + "/Cargo.lock")
    tgt = os.path.join(common.BUILD, "t-wf")
    r = common.run(["cargo", "check", "--offline", "--manifest-path", d + "/Cargo.toml"], extra_env={"CARGO_TARGET_DIR": tgt}, timeout=800)
    if r.returncode != 0: raise common.CheckError("dependencies: " + r.stderr[-2000:])
    res = farm.run(gen_wf, [(i, t, base) for i, t in enumerate(texts)], 4)
    deps = os.path.join(tgt, "debug", "deps"); ext = []
    for name in ("bytes", "clibri", "log", "thiserror", "async_trait", "chrono", "futures", "tokio", "tokio_util", "uuid"):
        f = sorted(x for x in os.listdir(deps) if re.match(r"lib%s-[0-9a-f]+\.(rmeta|so)$" % name, x))
        if not f: raise common.CheckError("no metadata of " + name)
        ext += ["--extern", "%s=%s/%s" % (name, deps, f[0])]
    good = []
    for i, (t, (err, mods)) in enumerate(zip(texts, res)):
        if err: c.violation("gen:" + t, "not generated: %s: %s" % (t, err), {"text": t})
        else: good.append((i, mods))
    def rust(k):
        part = good[k::16]; src = "#![allow(warnings)]\n"
        for i, mods in part: src += "pub mod w%d { %s }\n" % (i, " ".join('#[path = "%s/w%d/%s"] pub mod %s;' % (base, i, p, {"c": "consumer", "p": "producer"}[s]) for s, p in mods))
        f = "%s/lib%d.rs" % (base, k); common.write(f, src)
        r = common.run(["rustc", "--edition", "2018", "--crate-type", "lib", "--crate-name", "lib%d" % k, "--emit=metadata", "-A", "warnings", "--error-format=json", "-L", "dependency=" + deps, "-o", "%s/lib%d.rmeta" % (base, k), f] + ext, timeout=800)
        out, other = {}, []
        for l in r.stderr.split("\n"):
            if not l.startswith("{"): continue
            m = json.loads(l)
            if m.get("level") != "error": continue
            hit = [re.search(r"/w(\d+)/(.*)$", s["file_name"]) for s in m["spans"]]; hit = [h for h in hit if h]
            if hit: out.setdefault(int(hit[0].group(1)), []).append("%s: %s" % (hit[0].group(2), m["message"]))
            elif m["spans"]: other.append(m["message"])
        if r.returncode != 0 and not out: raise common.CheckError("rustc: " + (" ".join(other) or r.stderr)[-1500:])
        return out
    def ts(k):
        part = [i for i, _ in good[k::8]]; d = base + "/ts%d" % k; os.makedirs(d)
        common.write(d + "/tsconfig.json", json.dumps({"compilerOptions": {"strict": True, "noEmit": True, "target": "es2020", "module": "commonjs", "moduleResolution": "node", "lib": LIBS + ["es2018.promise"], "types": [], "skipLibCheck": True, "ignoreDeprecations": "5.0", "baseUrl": ".", "paths": {"clibri": [common.VERIF + "/harness/ts_stub/clibri.ts"]}},
            "include": ["../w%d/**/*.ts" % i for i in part] + [common.VERIF + "/harness/ts_types/env.d.ts"]}))
        r = common.run(TSC + ["-p", d, "--pretty", "false"], cwd=d, timeout=800); out = {}
        for l in r.stdout.split("\n"):
            m = re.match(r"\.\./w(\d+)/(\S+?)\((\d+),\d+\): error (TS\d+): (.*)", l)
            if m: out.setdefault(int(m.group(1)), []).append("%s line %s: %s %s" % (m.group(2), m.group(3), m.group(4), m.group(5)))
            elif "error TS18003" in l: pass
            elif re.match(r"(\S*\(\d+,\d+\): )?error ", l): raise common.CheckError("tsc: " + l)
        if r.returncode != 0 and not out and "TS18003" not in r.stdout: raise common.CheckError("tsc: %s %s" % (r.stdout[-500:], r.stderr[-1500:]))
        return out
    for lang, fn, n in (("Rust", rust, 16), ("TypeScript", ts, 8)):
        for out in common.pmap(fn, range(n), 8):
            for i, errs in out.items(): c.violation("%s:%s" % (lang, texts[i]), "%s\nthe %s output does not compile: %s" % (texts[i], lang, "; ".join(errs[:4])), {"text": texts[i]})
    common.rmtree(base)
    return texts, sum(len(m) for _, m in good)

def gen_pk(job):
    k, side, text, base = job
    d = "%s/%d" % (base, k); os.makedirs(d + "/src/c"); os.makedirs(d + "/src/p")
    # what the user has in it already stays in use
    common.write(d + "/Cargo.toml", '[package]\nname = "pk%d"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\nbytes = "=1.1.0"\n' % k); common.write(d + "/package.json", '{"name":"x","version":"0.0.1"}')
    common.write(d + "/p.prot", PROT); common.write(d + "/w.workflow", text)
    rc, out, err = farm.clibri(["-s", "p.prot", "-wf", "w.workflow", "-cd", "src/c/", "-pd", "src/p/"], d)
    return None if farm.ok(rc, out) else "exit status %s: %s %s" % (rc, out[-300:], err[-300:])

def packages(c):
    """The code of a workflow as a package of its own: it is compiled with the manifest which the generator has left there, and nothing else."""
    base = common.fresh("pk"); n = 0; tgt = os.path.join(common.BUILD, "t-pk"); cases = []
    width = max(len(v) for v in AXES.values())
    from . import wflang as W
    for side, targets in (("c", ("typescript", "rust")), ("p", ("rust", "typescript"))):
        good = 0
        for k in range(width):
            text = text_of({**{a: x[(k * (j + 1) + width - 1) % len(x)] for j, (a, x) in enumerate(AXES.items())}, "targets": targets})
            try: W.parse(W.lex(text), STRUCTS)
            except W.Ill: continue
            cases.append((len(cases), side, text)); good += 1
            if good == (1 if c.quick else 4): break
    res = farm.run(gen_pk, [x + (base,) for x in cases], 1)
    for (k, side, text), err in zip(cases, res):
        d = "%s/%d" % (base, k); other = "p" if side == "c" else "c"
        if err: c.violation("pk:gen:" + text, "not generated: %s: %s" % (text, err), {"text": text}); continue
        has = json.load(open(d + "/package.json")).get("dependencies", {})
        for dp, _, fs in os.walk("%s/src/%s" % (d, other)):
            for f in fs:
                for m in re.findall(r"""^(?:import|export)\b[^;"']*?\bfrom\s+["']([^."'][^"']*)["']""", open(os.path.join(dp, f)).read(), re.M) if f.endswith(".ts") else []:
                    name = "/".join(m.split("/")[:2 if m[0] == "@" else 1])
                    if name not in has: c.violation("pk:ts:" + name, "%s\n%s of the TypeScript output imports %s, which package.json does not mention" % (text, f, name), {"text": text})
        common.write(d + "/src/lib.rs", "#![allow(warnings)]\npub mod %s;\n" % side)
        lock = os.path.join(common.VERIF, "harness/Cargo.lock.rigs")
        if os.path.exists(lock): common.write(d + "/Cargo.lock", open(lock).read().replace('name = "rigs"', 'name = "pk%d"' % k))
        r = common.run(["cargo", "check", "--offline", "--message-format=short", "--manifest-path", d + "/Cargo.toml"], cwd=d, extra_env={"CARGO_TARGET_DIR": tgt}, timeout=800)
        if r.returncode == 0: n += 1; continue
        errs = re.findall(r"^src/[^\n]*?: error[^\n]*", r.stderr, re.M)
        if errs: c.violation("pk:%s:%s" % (side, text), "%s\nthe Rust output does not compile as a package with the manifest written for it: %s" % (text, "; ".join(errs[:4])), {"text": text})
        elif "failed to parse manifest" in r.stderr: c.violation("pk:manifest:" + text, "%s\nthe manifest written for the Rust output is not one: %s" % (text, r.stderr[-600:]), {"text": text})
        else: print("  a package is not decided: " + " ".join(r.stderr.split())[-300:]) # crates which are not at hand here
    common.rmtree(base)
    return n

def g10(c):
    kinds, prots = compile_protocols(c); wfs, crates = compile_workflows(c); pk = packages(c)
    n = len(prots) + len(wfs)
    c.cov.update({"evaluations": 2 * n, "distinct_nontrivial": n, "protocols": dict(kinds), "workflows": len(wfs), "rust_sides": crates, "packages": pk, "exhaustive": True})
    c.cov["rule"] = "every field shape (type x repeated x optional) and option shape alone, pairs of options in one enumeration and of fields in one structure, uses out of every place of a tree of groups; every value of every axis of a workflow (request, error, responses and broadcasts, events, beacons, second request, keys, targets)%s and combinations of all axes; every accepted one is generated and given to rustc and tsc" % ("" if c.quick else ", every pair of values")
    for t in (prots[10], prots[60], wfs[5], wfs[-1]): c.sample(t)
