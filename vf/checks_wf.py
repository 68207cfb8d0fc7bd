"""G05, G06, G09: the workflow language, its references, and what is generated for it."""
import itertools, os, re, shutil, collections
from . import common, farm, wflang as W

PROT = """struct R1 { u8 a; } struct R2 { u8 a; } struct R3 { u8 a; } struct Er { u8 a; } struct P { u8 a; } struct Q { str s; } struct B { u8 a; } struct C { u8 a; }
enum En { X; Y; } enum En2 { str X1; u8 Y1; }
group M { struct R { u8 a; } struct D { u8 a; } enum Em { Z; } group N { struct F { u8 a; } struct Er { u8 c; } } }
struct SK { u8 a; } struct AK { str b?; } struct Ev { u8 z; } struct Bc { u8 z; } struct Vd {} group O { struct P { u8 a; } }
"""
STRUCTS = ["R1", "R2", "R3", "Er", "P", "Q", "B", "C", "M.R", "M.D", "M.N.F", "M.N.Er", "SK", "AK", "Ev", "Bc", "Vd", "O.P"]

# ------------------------------------------------------------------ running
def run(text, prot=PROT, puml=True):
    """Generate into this worker's directory; (accepted, {side/target: dir}, diagram text, what was said, files left behind)."""
    d = farm.DIR
    for s in ("c", "p"): shutil.rmtree(os.path.join(d, s), ignore_errors=True); os.makedirs(os.path.join(d, s))
    common.write(d + "/p.prot", prot); open(d + "/w.workflow", "w", newline="").write(text)
    common.write(d + "/Cargo.toml", '[package]\nname = "x"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\n'); common.write(d + "/package.json", '{"name":"x","version":"0.0.1"}')
    rc, out, err = farm.clibri(["-s", "p.prot", "-wf", "w.workflow", "-cd", "c/", "-pd", "p/"], d)
    left = [os.path.join(p, f) for s in ("c", "p") for p, _, fs in os.walk(os.path.join(d, s)) for f in fs]
    return farm.ok(rc, out), "exit status %s: %s %s" % (rc, out[-300:], err[-300:]), left

def diagram(text, prot=PROT):
    d = farm.DIR
    common.write(d + "/p.prot", prot); open(d + "/w.workflow", "w", newline="").write(text)
    try: os.unlink(d + "/x.puml")
    except OSError: pass
    rc, out, err = farm.clibri(["-s", "p.prot", "-wf", "w.workflow", "-d", "x.puml"], d)
    try: t = open(d + "/x.puml").read()
    except OSError: t = None
    return farm.ok(rc, out), t, "exit status %s: %s %s" % (rc, out[-300:], err[-300:])

def layout(m):
    out = {}
    for side, ts, base in (("producer", m.producer, "p"), ("consumer", m.consumer, "c")):
        for t in ts: out[(side, t)] = os.path.join(farm.DIR, base, t) if len(ts) > 1 else os.path.join(farm.DIR, base)
    return out

def judge(text):
    try: m = W.parse(W.lex(text), STRUCTS); why = None
    except W.Ill as e: m, why = None, str(e)
    okd, said, left = run(text)
    if okd != (m is not None): return "wrong", ("well-formed, but rejected: " + said) if m else "ill-formed (%s), but accepted: %s" % (why, said)
    if m is None: return ("wrong", "rejected, but wrote " + ", ".join(left[:5])) if left else ("rejected", None)
    p = W.compare(m, farm.DIR, layout(m))
    return ("wrong", p) if p else ("accepted", None)

# ------------------------------------------------------------------ texts
CFG = "&config { Producer : rust typescript ; Consumer : rust typescript ; }".split()
ALPHA = ["&config", "@beacons", "@Ev", "R1", "M", "D", "Producer", "rust", "{", "}", "(", ")", ";", ":", ".", ">", "!", "?"]
# a well-formed way from the start to every position, and from every position to the end
SHORT = {"cfg": "&config {", "cfg_tc": "&config { Consumer : rust ; Producer", "cfg_t0": "&config { Consumer : rust ; Producer :", "cfg_t": "&config { Consumer : rust ; Producer : typescript", "cfg_open": "&config",
         "cfg_kc": "&config { Consumer : rust ; Producer : rust ; SelfKey", "cfg_k0": "&config { Consumer : rust ; Producer : rust ; SelfKey :", "cfg_k": "&config { Consumer : rust ; Producer : rust ; SelfKey : SK",
         "top": "", "ev_p": "@Ev", "ev_p0": "@M .", "ev0": "@Ev {", "ev_b0": "@Ev { >", "ev_b": "@Ev { > B", "ev_q": "@Ev { > B ?", "ev1": "@Ev { > B ;", "bc_open": "@beacons", "bc0": "@beacons {", "bc_b0": "@beacons { >", "bc_b": "@beacons { > Bc", "bc1": "@beacons { > Bc ;",
         "rq_p": "R1", "rq_p0": "M .", "rq_e0": "R1 !", "rq_e": "R1 ! Er", "rq0": "R1 ! Er {", "a0": "R1 ! Er { (", "a1": "R1 ! Er { ( P", "a1p0": "R1 ! Er { ( M .", "a1p": "R1 ! Er { ( M . D", "a2_0": "R1 ! Er { ( X >", "a2": "R1 ! Er { ( X > P", "a3": "R1 ! Er { ( X > P )",
         "b0": "R1 ! Er { ( X > P ) >", "b": "R1 ! Er { ( X > P ) > B", "bq": "R1 ! Er { ( X > P ) > B ?", "rq1": "R1 ! Er { ( X > P ) ;", "rq2": "R1 ! Er { ( X > P ) > B ;"}
def completion(pos):
    out = []
    nxt = {"cfg_open": "{", "cfg_tc": ":", "cfg_t0": "rust", "cfg_t": ";", "cfg_kc": ":", "cfg_k0": "AK", "cfg_k": ";", "cfg": "}", "ev_p": "{", "ev_p0": "R", "ev0": ">", "ev_b0": "C", "ev_b": ";", "ev_q": ";", "ev1": "}",
           "bc_open": "{", "bc0": ">", "bc_b0": "Vd", "bc_b": ";", "bc1": "}", "rq_p": "!", "rq_p0": "R", "rq_e0": "Er", "rq_e": "{", "rq0": "(", "a0": "Q", "a1": ")", "a1p0": "D", "a1p": ")", "a2_0": "Q", "a2": ")", "a3": ";", "b0": "C", "b": ";", "bq": ";", "rq1": "}", "rq2": "}"}
    while pos != "top":
        t = nxt[pos]; out.append(t); pos = W.step(pos, t); assert pos, t
    return out

def render(tokens, style=0):
    out = ""
    for i, t in enumerate(tokens):
        need = bool(out) and (t[0].isalnum() or t[0] in "_@&") and (out[-1].isalnum() or out[-1] == "_")
        out += (" " if i else "") if style == 0 else (" " if need else "") if style == 1 else "\n" if style == 2 else "\t \r\n" if style == 3 else "\n" if t in "{(};" and i else (" " if i else "")
        out += t
    return out + ("\n" if style == 2 else "")

DOC = ("&config { SelfKey: SK; AssignedKey: M.D; Producer: rust typescript; Consumer: typescript; } R1 !Er { (X > P) > B; > M.D?; (Y_1 > M.N.F); } M.R !M.N.Er { (Q); } "
       "@Ev { > B; > M.N.F?; } @disconnected { > C?; > M.D; } @beacons { > Bc; > M.N.F; } @M.D { > M.D; }")
DOC2 = "R2 ! Er { ( M . D ) > B ; } &config { Consumer : rust ; Producer : rust ; } @connected { > B ? ; } @beacons { > R1 ; } @beacons { > R3 ; }"
def toks(s): return [t for t in re.findall(r"[@&]?\w+|[{}();:.>!?]", s)]

def requests():
    """Bodies of requests by structure."""
    blists = ["", "> B ;", "> B ? ;", "> M . D ;", "> B ; > C ? ;", "> C ? ; > B ;", "> B ; > B ;", "> B ; > B ? ;", "> B ? ; > M . D ? ; > C ;"]
    acts = lambda con, resp: ["( %s%s ) %s" % (con + " > " if con else "", resp, b or ";") for b in blists]
    for con in (None, "X", "Err_1", "_x"):
        for resp in ("P", "M . D", "Er", "R1", "Vd"):
            for a in acts(con, resp): yield "{ %s }" % a
    for a in acts("X", "P"):
        for b in acts("Y", "M . D") + acts("Y", "P")[:3] + acts("X", "Q")[:3] + acts(None, "Q")[:2]: yield "{ %s %s }" % (a, b)
    for a, b, c in itertools.product(acts("X", "P")[:3], acts("Y", "Q")[:3], acts("Z", "M . N . F")[:3]): yield "{ %s %s %s }" % (a, b, c)
    # names and broadcasts which come back, next to each other or not
    for n in (3, 4):
        for cs in itertools.product("XYZ", repeat=n): yield "{ %s }" % " ".join("( %s > %s ) ;" % (x, r) for x, r in zip(cs, ("P", "Q", "M . D", "P")))
        for bl in blists_of(n): yield "{ ( X > P ) %s }" % bl
def blists_of(n):
    """Every list of n broadcasts out of three, with the last one optional or not."""
    for bs in itertools.product(("B", "C", "M . D"), repeat=n):
        for q in (" ?", ""): yield " ".join("> %s%s ;" % (b, q if i == n - 1 else "") for i, b in enumerate(bs))

def texts(c):
    seen = set()
    def emit(kind, text):
        if text in seen: return None
        seen.add(text); return (kind, text)
    deep = not c.quick; k = 3 if deep else 2
    for pos, pre in SHORT.items():
        pre = pre.split(); st = "top"
        for t in pre: st = W.step(st, t)
        assert st == pos, pos
        cfgd = pos.startswith("cfg")
        front = [(pos, [])]
        for d in range(k + 1):
            nx = []
            for q, w in front:
                full = pre + w
                yield emit("state", render(full if cfgd else CFG + full)); yield emit("state", render(full + completion(q) + ([] if cfgd else CFG)))
                if d == k: continue
                for t in ALPHA:
                    r = W.step(q, t)
                    if r is None: yield emit("deviation", render((full if cfgd else CFG + full) + [t])); yield emit("deviation", render((full if cfgd else CFG + full) + [t] + completion(q)))
                    else: nx.append((r, w + [t]))
            front = nx
    for doc in (toks(DOC), toks(DOC2)):
        for style in range(5): yield emit("layout", render(doc, style))
        for i in range(len(doc) + 1):
            if i < len(doc):
                yield emit("edit", render(doc[:i] + doc[i + 1:])); yield emit("edit", render(doc[:i] + [doc[i]] + doc[i:]))
                if i + 1 < len(doc): yield emit("edit", render(doc[:i] + [doc[i + 1], doc[i]] + doc[i + 2:]))
                yield emit("edit", render(doc[:i])); yield emit("edit", render(doc[:i]) + "\n")
            if deep or i % 2 == 0:
                for t in ALPHA:
                    yield emit("edit", render(doc[:i] + [t] + doc[i:]))
                    if i < len(doc): yield emit("edit", render(doc[:i] + [t] + doc[i + 1:]))
            a, b = render(doc[:i], 1), render(doc[i:], 1)
            need = bool(a) and bool(b) and (a[-1].isalnum() or a[-1] == "_") and (b[0].isalnum() or b[0] in "_@&")
            for sep in ([] if need else [""]) + [" ", "\n", "\t\r\n", "\x0c", "#\n", " # a comment {;}>(!? @x &y \u00e9\u4e2d\n", "#a\n#b\n  ", "\n#a\n"]: yield emit("layout", a + sep + b)
            for ch in "/\"',-[]<=*$%0" if deep else "/,[0": yield emit("char", a + (" " if need else "") + ch + (" " if b else "") + b)
            for ch in "@&": yield emit("char", a + ch + b); yield emit("char", a + " " + ch + " " + b)
        for i, t in enumerate(doc):
            for o in range(1, len(t)) if deep else sorted({1, 2, len(t) - 1} & set(range(1, len(t)))):
                for ch in ("@&.:;!?(){}>#/" + "\n" if deep or o > 1 else "@&.\n"): yield emit("char", " ".join(doc[:i]) + " " + t[:o] + ch + t[o:] + " " + " ".join(doc[i + 1:]))
    base = render(toks(DOC2))
    for tail in ("# no newline", "#", "#\u00e9", "\n\n#x\n\n", "# } {"): yield emit("layout", base + tail); yield emit("layout", base[:-1] + tail)
    for ch in "\x00\x0b\x7f\u00a0\u00e9\u4e2d\ufeff":
        for i in (0, 1, 6, len(base)): yield emit("char", base[:i] + ch + base[i:])
    for body in requests(): yield emit("request", render(CFG) + " R1 !Er " + body)
    cfg_items = ["Producer: rust;", "Producer: typescript rust;", "Consumer: typescript;", "Consumer: rust typescript;", "SelfKey: SK;", "AssignedKey: M.N.F;"]
    for n in range(0, 5):
        for s in (itertools.permutations(cfg_items, n) if n < 4 or deep else itertools.combinations(cfg_items, n)): yield emit("config", "&config { %s } R1 !Er { (P); }" % " ".join(s))
    more = cfg_items + ["AssignedKey: SK;", "SelfKey: M.N.F;"]
    for n in (2, 3, 4) if deep else (2, 3):
        for s in itertools.product(more, repeat=n): yield emit("config", "&config { %s } R1 !Er { (P); }" % " ".join(s))
    for n in (2, 3):
        for bl in blists_of(n):
            for ev in ("Ev", "connected"): yield emit("event", render(CFG) + " @%s { %s }" % (ev, bl))
            if "?" not in bl: yield emit("beacons", render(CFG) + " @beacons { %s }" % bl)
    for t in ("Producer: rust rust;", "Producer: ;", "Producer: Rust;", "Producer: c;", "Producer: rust, typescript;", "Producer;", "SelfKey: ;", "SelfKey: SK AK;", "SelfKey: SK.;"): yield emit("config", "&config { Consumer: rust; %s } " % t); yield emit("config", "&config { Consumer: rust; Producer: rust; %s } " % t)
    ents = ["&config { Producer: rust; Consumer: rust; }", "R1 !Er { (P); }", "R2 !Er { (X > P) > B?; }", "@Ev { > B; }", "@connected { > C; }", "@beacons { > Bc; }", "@beacons { > R1; }", "@beacons { > Vd; > M.D; }", "M.R !Er { (P); }"]
    for n in range(0, 4 if deep else 3):
        for s in itertools.product(ents, repeat=n): yield emit("order", " ".join(s)); yield emit("order", ents[0] + "\n" + "\n".join(s))

def g06(c):
    items = [x for x in texts(c) if x]
    verd, kinds = collections.Counter(), collections.Counter()
    for (k, t), (v, p) in zip(items, farm.run(judge, [t for _, t in items])):
        verd[v] += 1; kinds[k] += 1
        if p: c.violation("%s:%s" % (k, t[:300]), "%s: %s" % (t[:600], p[:700]), {"text": t})
    c.cov["states"] = len(SHORT); c.cov["transitions"] = sum(verd.values()); c.cov["traces_validated_against_impl"] = verd["accepted"] + verd["rejected"]
    c.cov.update({"accepted": verd["accepted"], "rejected": verd["rejected"], "kinds": dict(kinds), "exhaustive": True})
    c.cov["rule"] = ("every position of the reference acceptor x every continuation by up to %d tokens of an 18-token alphabet, bare and completed; every one-token deletion, doubling, swap and cut of two documents, every insertion and replacement%s; "
                     "every boundary with every separator including comments; foreign characters at every boundary and inside words; request bodies (conclusions and broadcasts that come back), configurations with repeated items, lists of broadcasts of events and beacons and sequences of definitions by structure; accepted texts are compared with what all four generated sides contain" % (3 if not c.quick else 2, "" if not c.quick else " at every second place"))
    for kind in ("state", "request", "config", "order"):
        for k, t in [x for x in items if x[0] == kind][-2:]: c.sample(t)

# ------------------------------------------------------------------ G05
SLOTS = {"request": "%s !Er { (P); }", "error": "R1 !%s { (P); }", "response": "R1 !Er { (%s); }", "named response": "R1 !Er { (X > P); (Y > %s) > B; }", "first response": "R1 !Er { (X > %s) > B; (Y > P); }",
         "broadcast": "R1 !Er { (X > P) > %s; (Y > Q); }", "last broadcast": "R1 !Er { (X > P) > B; > C?; > %s; (Y > Q); }", "optional broadcast": "R1 !Er { (X > P); (Y > Q) > B; > %s?; }", "single broadcast": "R1 !Er { (P) > %s; }",
         "event": "@%s { > B; }", "event broadcast": "@Ev { > %s; }", "optional event broadcast": "@Ev { > B; > %s?; }", "second event broadcast": "@Ev { > %s; > C; }", "default event broadcast": "@connected { > %s; }", "disconnected broadcast": "@disconnected { > B?; > %s; }", "beacon": "@beacons { > %s; }", "second beacon": "@beacons { > Bc; > %s; > Vd; }"}
REFS = STRUCTS + ["En", "En2", "M.Em", "M", "M.N", "O", "O.R1", "R", "D", "F", "N.F", "N", "M.F", "M.N.R", "M.N.D", "M.P", "M.M.D", "P.a", "P.P", "X", "connected", "disconnected", "Disconnected", "disconnected_", "Xdisconnected", "xconnected", "connected2", "M.connected", "connect", "r1", "p", "m.D", "M.d", "Pp", "u8", "str", "bool", "struct", "En.X", "ErP", "MD", "MNF", "M_D", "O.P.P", "M.N.N.F", "Z", "connected", "disconnected", "Er2", "protocol", "crate.P", "self.P"]
def refs_texts():
    for name, t in SLOTS.items():
        for r in REFS:
            for cfg_first in (True, False):
                e = t % r
                yield name, (render(CFG) + " " + e) if cfg_first else (e + " " + render(CFG))
            yield name, render(CFG) + " " + t % r.replace(".", " . ")
    for key in ("SelfKey", "AssignedKey"):
        for r in REFS:
            for items in itertools.permutations(["Producer: rust;", "Consumer: rust typescript;", "%s: %s;" % (key, r)]): yield key, "&config { %s } R1 !Er { (P); }" % " ".join(items)
    # duplicates: every pair of definitions out of a set, in every order, around the others
    ents = ["R1 !Er { (P); }", "R1 !Er { (X > Q); (Y > P); }", "R2 !Er { (P); }", "M.R !Er { (P); }", "M . R !R1 { (Q); }", "@Ev { > B; }", "@Ev { > C?; }", "@M.R { > B; }", "@M .R { > C; }", "@connected { > B; }", "@connected { > C; }", "@disconnected { > C; }",
            "@beacons { > Bc; }", "@beacons { > Bc; > Vd; }", "@beacons { > Vd; > Vd; }", "@beacons { > R1; }", "@beacons { > M.R; > R2; }", "@beacons { > M . R; }", render(CFG), "@R1 { > R1; }", "@Bc { > Bc; }"]
    for a, b in itertools.product(ents, repeat=2):
        yield "pair", render(CFG) + " " + a + " " + b
        yield "pair", a + " " + render(CFG) + " " + b
    for a, b, d in itertools.product(ents[::2], repeat=3): yield "triple", a + " " + b + " " + render(CFG) + " " + d

def g05(c):
    items = list(dict.fromkeys(refs_texts()))
    if c.quick: items = [x for i, x in enumerate(items) if x[0] != "triple"]
    verd, kinds = collections.Counter(), collections.Counter()
    for (k, t), (v, p) in zip(items, farm.run(judge, [t for _, t in items])):
        verd[v] += 1; kinds[k] += 1
        if p: c.violation("%s:%s" % (k, t[:300]), "%s: %s" % (t[:600], p[:700]), {"text": t})
    c.cov.update({"states": len(SLOTS) + 2, "transitions": sum(verd.values()), "evaluations": sum(verd.values()), "accepted": verd["accepted"], "rejected": verd["rejected"], "kinds": dict(kinds), "exhaustive": True, "traces_validated_against_impl": sum(verd.values())})
    c.cov["rule"] = "every place of a reference x every name of a list (all structures, enumerations, groups, partial, misspelt and overlong paths) x position of the configuration; every ordered pair%s of definitions that repeat each other or not" % ("" if c.quick else " and triple")
    for k, t in items[:: max(1, len(items) // 8)]: c.sample("%s: %s" % (k, t))

# ------------------------------------------------------------------ G09
def want_arrows(m):
    out = []
    for rq, (err, acts) in m.requests.items():
        out += [("Consumer", "Producer", rq), ("Producer", "Consumer", err)]
        for _, r, bs in acts:
            out.append(("Producer", "Consumer", r)); out += [("Producer", "*", b) for b, _ in bs]
    for ev, bs in m.events.items():
        out.append(("Producer", "Producer", ev)); out += [("Producer", "*", b) for b, _ in bs]
    out += [("Consumer", "Producer", b) for b in m.beacons]
    return out

def read_groups(text):
    """[(group, [(from, to, what)])]"""
    out, cur = [], None
    for l in text.split("\n"):
        l = re.sub(r"<[^>]*>", "", l).strip()
        if l.startswith("group "): cur = []; out.append((l[6:].strip(), cur)); continue
        if l == "end": cur = None; continue
        mm = re.match(r"(\w+)\s*-+>x?\s*(\w+)\s*:\s*(.*?)\s*$", l)
        if mm: (cur if cur is not None else out.append(("", [])) or out[-1][1]).append(mm.groups())
    return out

def judge_puml(text):
    m = W.parse(W.lex(text), STRUCTS)
    okd, t, said = diagram(text)
    if not okd or t is None: return "no diagram: " + said
    if not t.strip().startswith("@startuml") or not t.strip().endswith("@enduml"): return "not a diagram: " + t[:200]
    groups = read_groups(t)
    flat = collections.Counter()
    for g, arrows in groups:
        for a in arrows:
            if g == "Beacons" and a[2] in ("Connected Event", "Disconnected Event"): continue
            flat[a] += 1
    got, want = collections.Counter(), collections.Counter()
    for (a, b, x), n in flat.items(): got[(a, x) if a == "Producer" and b != "Producer" else (a, b, x)] += n
    for a, b, x in want_arrows(m): want[(a, x) if a == "Producer" and b != "Producer" else (a, b, x)] += 1
    if got != want: return "missing %s, extra %s" % (sorted(map(str, (want - got).elements())), sorted(map(str, (got - want).elements())))
    # each request's interactions stand together
    for rq, (err, acts) in m.requests.items():
        need = collections.Counter([rq, err] + [r for _, r, _ in acts] + [b for _, _, bs in acts for b, _ in bs])
        if not any(collections.Counter(x for _, _, x in ar) == need for _, ar in groups): return "no group with exactly the interactions of %s" % rq
        if len(acts) > 1:
            for con, _, _ in acts:
                if not re.search(r"==\s*%s\s*==" % con, t): return "conclusion %s is not shown" % con
    for ev, bs in m.events.items():
        need = collections.Counter([ev] + [b for b, _ in bs])
        if not any(collections.Counter(x for _, _, x in ar) == need for _, ar in groups): return "no group with exactly the interactions of event %s" % ev
    return None

def g09(c):
    cfg = render(CFG) + "\n"; items = []
    for body in requests():
        for rq in ("R1", "M.N.F"): items.append(cfg + rq + " !Er " + body)
    bl = ["> B;", "> B?;", "> B; > M.D?;", "> C?; > B; > M.N.F;"]
    evs = ["@%s { %s }" % (e, b) for e in ("Ev", "connected", "disconnected", "M.D") for b in bl]
    bcs = ["", "@beacons { > Bc; }", "@beacons { > Bc; > M.N.F; > Vd; }", "@beacons { > Vd; } @beacons { > Bc; }"]
    rqs = ["", "R1 !Er { (P); }", "R1 !Er { (X > P) > B; (Y > Q) > C?; > B; }", "M.R !M.N.Er { (M.D) > B; }", "R1 !Er { (P); } R2 !Er { (X > P) > C; }"]
    for a, b in itertools.product(evs + [""], repeat=2):
        for z in bcs:
            for r in rqs: items.append(cfg + "\n".join((a, r, z, b)))
    good = []
    for t in dict.fromkeys(items):
        try: W.parse(W.lex(t), STRUCTS); good.append(t)
        except W.Ill: pass
    n = 0
    for t, p in zip(good, farm.run(judge_puml, good)):
        n += 1
        if p: c.violation(t[:300], "%s: %s" % (t[:600], p[:700]), {"text": t})
    c.cov.update({"states": len(good), "transitions": n, "evaluations": n, "exhaustive": True, "traces_validated_against_impl": n})
    c.cov["rule"] = "request bodies by structure (up to three responses, broadcast lists with optional marks), all pairs of events x beacons x requests; the arrows of the diagram are compared as a multiset and per group with the declared interactions"
    for t in good[:: max(1, len(good) // 6)]: c.sample(t)
