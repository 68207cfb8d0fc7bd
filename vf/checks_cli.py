"""G07, G08: the command line and generation over existing files."""
import collections, itertools, json, os, re, resource, shutil, signal, subprocess, tomllib
from . import common, farm, wflang as W
from .checks_wf import PROT, STRUCTS

WF = """&config { SelfKey: SK; AssignedKey: AK; Producer: rust typescript; Consumer: rust typescript; }
R1 !Er { (X > P) > B; > C?; (Y > Q); } M.R !M.N.Er { (M.D) > B; } R2 !Er { (P); }
@Ev { > B; > M.D?; } @connected { > C; } @disconnected { > C?; } @beacons { > Bc; > M.N.F; }
"""
WF1 = WF.replace("rust typescript", "rust", 1).replace("rust typescript", "typescript")
CARGO = '[package]\nname = "x"\nversion = "0.1.0"\nedition = "2018"\n\n[dependencies]\nserde = "1"\n\n[features]\na = []\n'
PACK = '{"name":"x","version":"0.0.1","dependencies":{"left-pad":"^1.0.0"},"scripts":{"a":"b"}}'
SRC = {"ok": PROT, "ill": "struct A { u8 a; ", "badref": "struct A { Zed a; }"}
WFS = {"ok": WF, "one": WF1, "ill": WF + " @Ev {", "badref": WF.replace("(P)", "(Pz)")}

KEYS = {"src": ("--source", "--src", "-s"), "wf": ("--workflow", "-wf"), "rs": ("--destination-rs", "--dest-rs", "-rs"), "ts": ("--destination-ts", "--dest-ts", "-ts"), "cd": ("--consumer-dest", "-cd"), "pd": ("--producer-dest", "-pd"), "uml": ("--puml", "-d"),
        "ow": ("--overwrite", "--ow", "-o"), "em": ("--embedded", "--em", "-e"), "help": ("--help", "-h")}
NAMES = {"rs": "out/p.rs", "ts": "out/p.ts", "uml": "out/x.puml", "cd": "c", "pd": "p"}
OLD = "old text " * 60000
ORDER = ("src", "wf", "rs", "ts", "uml", "cd", "pd", "ow", "em", "help")

def path(key, v):
    if key == "src": return {"missing": "no.prot", "dir": "out"}.get(v, "%s.prot" % v)
    if key == "wf": return {"missing": "no.workflow", "dir": "out"}.get(v, "%s.workflow" % v)
    if v == "nodir": return "nodir/" + NAMES[key]
    if v == "dir" or v == "file": return {"dir": "adir", "file": "afile"}[v]
    return NAMES[key]

def setup(d, cfg, pkgs="ok"):
    """A fresh tree for one run; the tree before."""
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/out"); os.makedirs(d + "/adir")
    for k, t in SRC.items(): common.write("%s/%s.prot" % (d, k), t)
    for k, t in WFS.items(): common.write("%s/%s.workflow" % (d, k), t)
    common.write(d + "/afile", "a file\n"); common.write(d + "/out/note.txt", "a note\n")
    if pkgs != "nocargo": common.write(d + "/Cargo.toml", CARGO if pkgs != "badcargo" else "[[[")
    if pkgs != "nopack": common.write(d + "/package.json", PACK if pkgs != "badpack" else "{")
    for k in ("rs", "ts", "uml"):
        if cfg.get(k) == "existing": common.write(d + "/" + NAMES[k], OLD)
    for k in ("cd", "pd"):
        if cfg.get(k) == "existing": common.write("%s/%s/note.txt" % (d, NAMES[k]), "a note\n")

def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for x in ds: out[os.path.relpath(os.path.join(p, x), d) + "/"] = None
        for x in fs:
            with open(os.path.join(p, x), "rb") as f: out[os.path.relpath(os.path.join(p, x), d)] = f.read()
    return out

def argv(cfg, style=0, order=ORDER, absolute=None):
    out = []
    for k in order:
        v = cfg.get(k)
        if v is None: continue
        out.append(KEYS[k][style % len(KEYS[k])])
        if k not in ("ow", "em", "help"): out.append(path(k, v) if not absolute else os.path.join(absolute, path(k, v)))
    return out

def expect(cfg, pkgs="ok"):
    """None when the run has to fail, otherwise the requested outputs."""
    if cfg.get("src") != "ok": return None
    for k in ("rs", "ts", "uml"):
        v = cfg.get(k)
        if v in ("nodir", "dir") or (v == "existing" and not cfg.get("ow")): return None
    for k in ("cd", "pd"):
        if cfg.get(k) in ("nodir", "file"): return None
    wf = cfg.get("wf")
    if wf not in (None, "ok", "one"): return None
    if wf is None: return None if cfg.get("uml") or cfg.get("cd") or cfg.get("pd") else [k for k in ("rs", "ts") if cfg.get(k)]
    code = not cfg.get("uml") or cfg.get("cd") or cfg.get("pd")
    if code and not (cfg.get("cd") and cfg.get("pd")): return None
    if code and pkgs != "ok": return None
    return [k for k in ("rs", "ts", "uml", "cd", "pd") if cfg.get(k)]

def _ref(job):
    """Reference outputs of one combination, each generated on its own."""
    wf, em = job; d = farm.DIR + "/r"; out = {}
    def gen(cfg):
        setup(d, cfg); rc, o, e = farm.clibri(argv(cfg), d)
        return tree(d) if farm.ok(rc, o) else None
    for k in ("rs", "ts"):
        t = gen({"src": "ok", "em": em, k: "absent", **({"wf": wf, "uml": "absent"} if wf else {})})
        if t is None or NAMES[k] not in t: return None
        out[k] = {NAMES[k]: t[NAMES[k]]}
    if wf:
        t = gen({"src": "ok", "wf": wf, "cd": "absent", "pd": "absent"})
        if t is None: return None
        for k in ("cd", "pd"): out[k] = {p: b for p, b in t.items() if p.startswith(NAMES[k] + "/")}
        out["pkg"] = {p: t.get(p) for p in ("Cargo.toml", "package.json")}
        t = gen({"src": "ok", "wf": wf, "uml": "absent"})
        if t is None or NAMES["uml"] not in t: return None
        out["uml"] = {NAMES["uml"]: t[NAMES["uml"]]}
    return out

def superset(before, after, kind):
    """The manifest of the user's package holds everything it held, except for entries of dependencies added or replaced."""
    try:
        a, b = (tomllib.loads(x.decode()) if kind == "Cargo.toml" else json.loads(x) for x in (before, after))
    except ValueError as e: return "%s is not readable any more: %s" % (kind, e)
    da, db = a.pop("dependencies", {}), b.pop("dependencies", {})
    if a != b: return "%s changed: %r" % (kind, b)
    return None if all(db.get(k) == v for k, v in da.items() if k in ("serde", "left-pad")) else "%s lost a dependency" % kind

def verdict(cfg, before, after, rc, out, want, pkgs="ok", must=True):
    """Problem or None."""
    if want is None:
        if must and rc == 0: return "exit status 0 though the run has to fail (%s)" % out[-200:]
        diff = sorted(p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0))
        return "the run failed but changed %s" % ", ".join(diff[:6]) if diff else None
    if rc != 0: return "exit status %s: %s" % (rc, out[-300:])
    exp = dict(before)
    ref = REF[(cfg.get("wf"), cfg.get("em"))]
    for k in want:
        exp.update(ref[k])
        if k in ("cd", "pd"): exp[NAMES[k] + "/"] = None
    if "cd" in want:
        for p in ("Cargo.toml", "package.json"):
            pr = superset(before[p], after[p], p)
            if pr: return pr
            exp[p] = after[p]
    diff = sorted(p for p in set(exp) | set(after) if exp.get(p, 0) != after.get(p, 0))
    return "not as requested: %s" % ", ".join("%s %s" % (p, "is missing" if p not in after else "is unexpected" if p not in exp else "differs") for p in diff[:6]) if diff else None

def _cfg(job):
    cfg, style, order, pkgs, absolute = job
    d = farm.DIR + "/t"; setup(d, cfg, pkgs); before = tree(d)
    a = argv(cfg, style, order or ORDER, d if absolute else None)
    rc, out, err = farm.clibri(a, d)
    if cfg.get("help"): return (None if tree(d) == before else "help changed files") or (None if rc == 0 else "help: exit status %s" % rc)
    return verdict(cfg, before, tree(d), rc, out + err, expect(cfg, pkgs), pkgs)

def _raw(job):
    """A command line which has to fail, over a tree with everything in place."""
    a, cfg = job; d = farm.DIR + "/t"; setup(d, cfg); before = tree(d)
    rc, out, err = farm.clibri(a, d)
    return verdict({}, before, tree(d), rc, out + err, None)

def _limit(job):
    """The file system takes at most n bytes per file."""
    cfg, n = job; d = farm.DIR + "/t"; setup(d, cfg)
    def pre(): signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    r = subprocess.run([farm.CLI] + argv(cfg), cwd=d, env=farm.ENV, preexec_fn=pre, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, restore_signals=False, timeout=20)
    after = tree(d); ref = REF[(cfg.get("wf"), cfg.get("em"))]
    whole = all(after.get(p) == b for k in expect(cfg) for p, b in ref[k].items())
    if not whole and r.returncode == 0: return "an output is not complete, but the exit status is 0"
    if whole and r.returncode != 0 and n > 10 ** 6: return "exit status %s with everything written" % r.returncode
    for k in ("rs", "ts", "uml"):
        if cfg.get(k) is None and NAMES[k] in after: return "%s was not requested" % k
    return None

def g07(c):
    global REF
    combos = [(wf, em) for wf in (None, "ok", "one") for em in (None, "on")]
    REF = dict(zip(combos, farm.run(_ref, combos, 1)))
    for k, v in REF.items():
        if v is None: c.violation("ref:%s" % (k,), "an output requested on its own (workflow %s, embedded %s) is not generated" % k); return
    for em in (None, "on"):
        for k in ("cd", "pd", "uml", "pkg"): REF[("ok", em)][k] = REF[("ok", None)][k]
    dims = {"src": (None, "missing", "ok", "ill"), "wf": (None, "missing", "ok", "badref"), "rs": (None, "absent", "existing", "nodir"), "ts": (None, "absent", "existing"), "uml": (None, "absent", "existing"),
            "cd": (None, "absent", "existing", "file"), "pd": (None, "absent", "nodir"), "ow": (None, "on"), "em": (None,)}
    if not c.quick: dims.update({"src": (None, "missing", "ok", "ill", "badref", "dir"), "wf": (None, "missing", "ok", "one", "ill", "badref", "dir"), "rs": (None, "absent", "existing", "nodir", "dir"), "ts": (None, "absent", "existing", "nodir", "dir"), "uml": (None, "absent", "existing", "nodir"), "cd": (None, "absent", "existing", "file", "nodir"), "pd": (None, "absent", "existing", "file", "nodir")})
    jobs = []
    for vs in itertools.product(*dims.values()):
        cfg = dict(zip(dims, vs))
        if c.quick and cfg["src"] != "ok" and (cfg["rs"] == "nodir" or cfg["pd"] == "nodir" or cfg["uml"] == "existing" or cfg["cd"] == "file"): continue
        if c.quick and cfg["wf"] is None and (cfg["pd"] or cfg["uml"] == "existing") and cfg["cd"]: continue
        if not c.quick and cfg["src"] not in ("ok", "ill", None) and (cfg["rs"] in ("dir", "nodir") or cfg["ts"] in ("dir", "nodir") or cfg["cd"] in ("nodir", "file") or cfg["pd"] in ("nodir", "file")): continue
        jobs.append((cfg, 0, None, "ok", False))
    n_prod = len(jobs)
    full = {"src": "ok", "wf": "ok", "rs": "absent", "ts": "existing", "uml": "absent", "cd": "existing", "pd": "absent", "ow": "on", "em": "on"}
    bad = [dict(full, **{k: v}) for k, vs in {"src": ("missing", "dir", "ill", "badref"), "wf": ("missing", "dir", "ill", "badref"), "rs": ("nodir", "dir"), "ts": ("nodir", "dir"), "uml": ("nodir", "dir"), "cd": ("file", "nodir"), "pd": ("file", "nodir")}.items() for v in vs]
    for base in [full, {k: v for k, v in full.items() if k not in ("em", "uml")}, {"src": "ok", "rs": "existing", "ts": "absent", "ow": "on", "em": "on"}, {"src": "ok", "rs": "existing", "ts": "absent"}, dict(full, wf="one"), dict(full, ow=None), {"src": "ok", "wf": "ok", "uml": "existing", "ow": "on"}] + bad:
        for style in range(3):
            for ab in (False, True): jobs.append((base, style, None, "ok", ab))
        for pk in ("nocargo", "nopack", "badcargo", "badpack"): jobs.append((base, 0, None, pk, False))
        if expect(base) is not None: jobs.append((dict(base, em=None if base.get("em") else "on"), 1, None, "ok", False))
        jobs.append((dict(base, help="on"), 0, None, "ok", False)); jobs.append((dict(base, help="on"), 1, ORDER[::-1], "ok", False))
        ks = [k for k in ORDER if base.get(k)]
        # every key at every place
        for k in ks:
            for i in range(len(ks)):
                o = [x for x in ks if x != k]; o.insert(i, k); jobs.append((base, 2, tuple(o), "ok", False))
        jobs.append((base, 0, tuple(ks[::-1]), "ok", False))
    small = {"src": "ok", "rs": "existing", "ts": "absent", "ow": "on", "em": "on"}
    for o in itertools.permutations(small): jobs.append((small, 0, o, "ok", False)); jobs.append((dict(small, ow=None), 2, tuple(x for x in o if x != "ow"), "ok", False))
    sw = {"src": "ok", "wf": "ok", "uml": "existing", "cd": "absent", "pd": "absent", "ow": "on"}
    for o in itertools.permutations(sw):
        if not c.quick or o[0] in ("ow", "pd"): jobs.append((sw, 1, o, "ok", False))
    n = 0
    for j, p in zip(jobs, farm.run(_cfg, jobs)):
        n += 1
        if p: c.violation("cfg:%s:%s" % (j[3], " ".join(argv(j[0], j[1], j[2] or ORDER))), "clibri %s (%s%s): %s" % (" ".join(argv(j[0], j[1], j[2] or ORDER)), ", ".join("%s %s" % x for x in j[0].items() if x[1]), "" if j[3] == "ok" else ", " + j[3], p), {"job": [j[0], j[1], j[2], j[3], j[4]]})
    # command lines which are wrong in one place
    raw = []
    for base in (full, small, {"src": "ok", "wf": "ok", "cd": "absent", "pd": "absent"}):
        good = argv(base)
        for i, a in enumerate(good):
            if i and good[i - 1][0] == "-" and a[0] != "-" :
                raw.append((good[:i] + good[i + 1:], base))                      # no value (the next key is taken or nothing is left)
                raw.append((good[:i - 1] + good[i + 1:] + [good[i - 1]], base))  # no value at the end
                raw.append((good[:i] + [""] + good[i + 1:], base))               # an empty value
                raw.append((good[:i] + [a, a] + good[i + 1:], base))             # a value too many
                raw.append((good + [good[i - 1], a], base))                      # a key given twice
        for i in range(len(good) + 1):
            if i == 0 or i == len(good) or good[i][0] == "-":
                for x in ("--unknown", "-x", "value", "--", "-rsx", "-S", "--Source"): raw.append((good[:i] + [x] + good[i:], base))
    raw += [([], full), (["-o"], full), (["-e"], full), (["out/p.rs"], full)]
    for j, p in zip(raw, farm.run(_raw, raw)):
        n += 1
        if p: c.violation("args:%s" % " ".join(j[0]), "clibri %s: %s" % (" ".join(j[0]), p), {"args": j[0]})
    # writing fails at every size of file
    lim = []
    for cfg in (full, {k: v for k, v in full.items() if k not in ("em", "uml", "rs", "ts")}, small, {"src": "ok", "rs": "absent", "em": "on"}, {"src": "ok", "ts": "absent"}, {"src": "ok", "wf": "ok", "uml": "absent"}):
        ref = REF[(cfg.get("wf"), cfg.get("em"))]
        sizes = sorted({len(b) for k in expect(cfg) for b in ref[k].values() if b is not None})
        for s in sizes if not c.quick else sizes[:2] + sizes[2:-2:max(1, len(sizes) // 12)] + sizes[-2:]: lim += [(cfg, s - 1), (cfg, s)] if s else [(cfg, 0)]
        lim += [(cfg, 0), (cfg, 1), (cfg, 10 ** 7)]
    for j, p in zip(lim, farm.run(_limit, lim, 4)):
        n += 1
        if p: c.violation("limit:%d:%s" % (j[1], " ".join(argv(j[0]))), "clibri %s with files limited to %d bytes: %s" % (" ".join(argv(j[0])), j[1], p), {"job": [j[0], j[1]]})
    c.cov.update({"evaluations": n, "distinct_nontrivial": sum(1 for j in jobs if not j[0].get("help") and expect(j[0], j[3]) is not None), "configurations": n_prod, "command_lines": len(jobs) - n_prod + len(raw), "write_faults": len(lim), "exhaustive": True})
    c.cov["rule"] = ("the product of %s; every key at every place, permutations, spellings, absolute paths, missing or malformed packages; every value removed, emptied, doubled, every unknown argument at every place; files limited to the size of every output. "
                     "The whole tree is compared before and after; distinct_nontrivial = runs which have to succeed, with outputs equal to those generated on their own" % " x ".join("%s %s" % (k, "/".join(str(x or "-") for x in v)) for k, v in dims.items()))
    for j in jobs[:: max(1, len(jobs) // 6)]: c.sample("clibri " + " ".join(argv(j[0], j[1], j[2] or ORDER)))

# ------------------------------------------------------------------ G08
OWNED = re.compile(r"^(c/(rust/)?(broadcasts|events)/(?!mod\.rs)[^/]+|p/(rust/|typescript/)?(beacons|events|responses)/(?!mod\.rs|index\.ts)[^/]+|[cp]/((rust|typescript)/)?context\.(rs|ts))$")
GEN = {"src": "ok", "wf": "ok", "cd": "absent", "pd": "absent"}

def put(d, files):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for p, b in files.items():
        if p.endswith("/"): os.makedirs(d + "/" + p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(d + "/" + p), exist_ok=True)
            with open(d + "/" + p, "wb") as f: f.write(b)

def regen(d, wf=None):
    if wf is not None: common.write(d + "/ok.workflow", wf)
    rc, out, err = farm.clibri(argv(GEN), d)
    return None if farm.ok(rc, out) else "exit status %s: %s" % (rc, (out + err)[-300:])

def _fresh(job):
    """A generation into an empty place (name of the directory, workflow, order of the arguments)."""
    name, wf, rev = job; d = farm.DIR + "/" + name; setup(d, {})
    common.write(d + "/ok.workflow", wf)
    rc, out, err = farm.clibri(argv(GEN, order=ORDER[::-1] if rev else ORDER), d)
    t = tree(d); shutil.rmtree(d)
    if not farm.ok(rc, out): return "exit status %s: %s" % (rc, (out + err)[-300:])
    return {p: b for p, b in t.items() if p[:2] in ("c/", "p/") or p in ("Cargo.toml", "package.json")}

def apply_op(b, op):
    return {"append": lambda: b + b"\n// mine\n", "empty": lambda: b"", "other": lambda: b"// mine\n" * 9000, "front": lambda: b"// mine" + b[7:], "remove": lambda: None}[op]()

def _edit(job):
    """Edits of the generated tree, then one or two generations."""
    base, ops, twice = FRESH, job[0], job[1]
    d = farm.DIR + "/t"; files = dict(BASE); files.update(base); exp = dict(files)
    for p, op in ops:
        if p.endswith("/"):
            for q in [x for x in files if x.startswith(p)]: del files[q]
            continue
        b = apply_op(base[p], op)
        if b is None: files.pop(p, None); continue
        if p not in files: continue
        files[p] = b
        if OWNED.match(p): exp[p] = b
    put(d, files)
    for _ in range(2 if twice else 1):
        why = regen(d)
        if why: return why
    t = tree(d)
    diff = sorted(p for p in set(exp) | set(t) if exp.get(p, 0) != t.get(p, 0))
    return "%s" % ", ".join("%s %s" % (p, "is missing" if p not in t else "is new" if p not in exp else "of the user was changed" if OWNED.match(p) and t[p] != base.get(p) or (OWNED.match(p) and exp[p] != base.get(p)) else "is not as generated into an empty place") for p in diff[:5]) if diff else None

def _evolve(job):
    """Generation of one workflow over the output of another one, with the user's files edited."""
    a, b, edit = job; d = farm.DIR + "/t"
    files = dict(BASE); files.update(EVO[a])
    mine = {p: apply_op(x, edit) for p, x in EVO[a].items() if OWNED.match(p)}
    files.update({p: x for p, x in mine.items() if x is not None})
    put(d, files); why = regen(d, EVOW[b])
    if why: return why
    t = tree(d); fr = EVO[b]
    for p, x in mine.items():
        if t.get(p, 0) != x: return "%s of the user was changed" % p
    for p, x in fr.items():
        if p in mine or p in ("Cargo.toml", "package.json"): continue
        if t.get(p, 0) != x: return "%s is %s" % (p, "missing" if p not in t else "not as generated into an empty place")
    return None

def g08(c):
    global FRESH, BASE, EVO, EVOW
    bodies = ["R1 !Er { (P); }", "R1 !Er { (X > P) > B; (Y > Q) > C?; }", "R1 !Er { (X > P) > C?; } M.R !M.N.Er { (Q); }", "R2 !Er { (P) > B; > M.D; }", ""]
    tails = ["", "@Ev { > B; }", "@M.D { > C?; > B; } @connected { > B; }", "@beacons { > Bc; }", "@Ev { > M.D; } @disconnected { > C; } @beacons { > M.N.F; > Vd; }"]
    cfgs = ["&config { Producer: rust typescript; Consumer: rust typescript; } ", "&config { SelfKey: SK; AssignedKey: AK; Producer: typescript rust; Consumer: typescript rust; } "]
    ws = [x + b + " " + t for x in cfgs for b in bodies for t in tails]
    BASE = {"%s.prot" % k: t.encode() for k, t in SRC.items()}; BASE.update({"%s.workflow" % k: t.encode() for k, t in WFS.items()})
    # determinism: repeated generations, other places, other orders of arguments
    rep = 12 if c.quick else 60
    jobs = [(n, w, r) for w in [WF] for n in ["t%d" % i for i in range(rep)] + ["a/long/way/down/to/another place", "x"] for r in (False, True)] + [(n, w, r) for w in (ws if not c.quick else ws[::3]) for n, r in (("t", False), ("deep/er/and/deeper", True), ("t", False))]
    n = 0; first = {}
    for (nm, w, r), t in zip(jobs, farm.run(_fresh, jobs, 4)):
        n += 1
        if isinstance(t, str): c.violation("fresh:" + w, "%s: %s" % (w, t), {"text": w}); continue
        if w not in first: first[w] = t; continue
        if t != first[w]:
            d = sorted(p for p in set(t) | set(first[w]) if t.get(p, 0) != first[w].get(p, 0))
            c.violation("det:" + w[:200], "two generations of one workflow differ in %s: %s" % (", ".join(d[:5]), w), {"text": w})
    if WF not in first: return
    FRESH = first[WF]
    files = sorted(p for p, b in FRESH.items() if b is not None and p[:2] in ("c/", "p/")); dirs = sorted(p for p in FRESH if p.endswith("/") and len(p) > 2)
    own = [p for p in files if OWNED.match(p)]
    if len(own) < 25 or len(files) - len(own) < 40: c.violation("files", "only %d handler files and %d files in all" % (len(own), len(files)))
    sets = [((),)] + [((p, op),) for p in files for op in ("append", "empty", "other", "front", "remove")] + [((p, "remove"),) for p in dirs]
    sets[0] = ()
    reps = {}
    for p in files: reps.setdefault((os.path.dirname(p), bool(OWNED.match(p))), []).append(p)
    pick = [x for l in reps.values() for x in (l[:1] if c.quick else l[:4])]
    for a, b in itertools.combinations(pick, 2):
        for oa, ob in (("append", "remove"), ("remove", "append"), ("remove", "remove"), ("front", "other")) if not c.quick else (("append", "remove"), ("remove", "front")): sets.append(((a, oa), (b, ob)))
    for dd in dirs:
        for p in pick: sets.append(((dd, "remove"), (p, "append")))
    sets.append(tuple((p, "append") for p in files)); sets.append(tuple((p, "remove") for p in files)); sets.append(tuple((p, "front") for p in own)); sets.append(tuple((p, "remove") for p in own)); sets.append(tuple((p, "other") for p in files if p not in own))
    jobs = [(s, tw) for s in sets for tw in ((False, True) if len(s) < 2 and not c.quick else (len(s) % 2 == 0,))]
    for j, p in zip(jobs, farm.run(_edit, jobs, 8)):
        n += 1
        if p: c.violation("edit:%s" % (j[0],), "%s, then %s: %s" % (", ".join("%s of %s" % (op, f) for f, op in j[0][:4]) or "nothing", "two generations" if j[1] else "a generation", p), {"ops": j[0], "twice": j[1]})
    EVO = {i: first[w] for i, w in enumerate(ws) if w in first}; EVOW = dict(enumerate(ws))
    ks = sorted(EVO)
    jobs = [(a, b, e) for a in ks for b in ks for e in (("append", "other") if not c.quick else ("append",)) if not c.quick or (a * 7 + b) % 2 == 0 or a // 25 == b // 25]
    for j, p in zip(jobs, farm.run(_evolve, jobs, 8)):
        n += 1
        if p: c.violation("evolve:%s:%s" % (EVOW[j[0]], EVOW[j[1]]), "%s, then edited by the user, then generated for %s: %s" % (EVOW[j[0]], EVOW[j[1]], p), {"from": EVOW[j[0]], "to": EVOW[j[1]]})
    c.cov.update({"evaluations": n, "distinct_nontrivial": len(sets), "files": len(files), "handlers": len(own), "evolutions": len(jobs), "exhaustive": True})
    c.cov["rule"] = "%d repeated generations in several places; every generated file appended to, emptied, replaced, overwritten in front or removed, every directory removed, pairs of one file per directory and ownership, everything at once, followed by one or two generations; ordered pairs of %d workflows generated over each other with every handler edited; whole trees are compared; distinct_nontrivial = sets of edits" % (rep * 2, len(EVO))
    for s in sets[1:: max(1, len(sets) // 5)]: c.sample(str(s))
