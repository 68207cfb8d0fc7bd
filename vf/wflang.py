"""Reference for the workflow language: tokens, an acceptor, the declared model, and readers of the generated outputs."""
import re, os
TARGETS = ("rust", "typescript")

def is_word(t): return re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", t) is not None

def lex(text):
    """Tokens of a text, or None when it holds something outside the language. A hash starts a comment up to the end of the line."""
    out, i = [], 0
    while i < len(text):
        ch = text[i]
        if ch == "#":
            j = text.find("\n", i); i = len(text) if j < 0 else j; continue
        if ch in " \t\r\n\x0c": i += 1; continue
        if ch in "{}();:.>!?": out.append(ch); i += 1; continue
        m = re.compile(r"[@&]?[A-Za-z_][A-Za-z0-9_]*").match(text, i)
        if not m: return None
        # a mark in the middle of a word is not a new word
        j = m.end()
        if j < len(text) and text[j] in "@&": return None
        if out and i and (text[i - 1].isalnum() or text[i - 1] == "_") and m.group()[0] in "@&": return None
        out.append(m.group()); i = j
    return out

START = "top"
def step(pos, t):
    """Next position or None when the token cannot follow."""
    w = is_word(t)
    if pos == "top":
        if t == "&config": return "cfg_open"
        if t == "@beacons": return "bc_open"
        if t[0] == "@": return "ev_p"
        return "rq_p" if w else None
    T = {"cfg_open": {"{": "cfg"}, "cfg": {"}": "top"}, "cfg_tc": {":": "cfg_t0"}, "cfg_t": {";": "cfg"}, "cfg_kc": {":": "cfg_k0"}, "cfg_k": {".": "cfg_k0", ";": "cfg"},
         "ev_p": {".": "ev_p0", "{": "ev0"}, "ev0": {">": "ev_b0"}, "ev_b": {".": "ev_b0", "?": "ev_q", ";": "ev1"}, "ev_q": {";": "ev1"}, "ev1": {">": "ev_b0", "}": "top"},
         "bc_open": {"{": "bc0"}, "bc0": {">": "bc_b0"}, "bc_b": {".": "bc_b0", ";": "bc1"}, "bc1": {">": "bc_b0", "}": "top"},
         "rq_p": {".": "rq_p0", "!": "rq_e0"}, "rq_e": {".": "rq_e0", "{": "rq0"}, "rq0": {"(": "a0"}, "a1": {".": "a1p0", ">": "a2_0", ")": "a3"}, "a1p": {".": "a1p0", ")": "a3"},
         "a2": {".": "a2_0", ")": "a3"}, "a3": {";": "rq1", ">": "b0"}, "b": {".": "b0", "?": "bq", ";": "rq2"}, "bq": {";": "rq2"}, "rq1": {"(": "a0", "}": "top"}, "rq2": {"(": "a0", "}": "top", ">": "b0"}}
    W = {"cfg_k0": "cfg_k", "ev_p0": "ev_p", "ev_b0": "ev_b", "bc_b0": "bc_b", "rq_p0": "rq_p", "rq_e0": "rq_e", "a0": "a1", "a1p0": "a1p", "a2_0": "a2", "b0": "b"}
    if t in T.get(pos, {}): return T[pos][t]
    if not w: return None
    if pos == "cfg": return {"Producer": "cfg_tc", "Consumer": "cfg_tc", "SelfKey": "cfg_kc", "AssignedKey": "cfg_kc"}.get(t)
    if pos in ("cfg_t0", "cfg_t"): return "cfg_t" if t in TARGETS else None
    return W.get(pos)
POSITIONS = None

class Ill(Exception): pass

class Model:
    """requests: {path: (err, [(conclusion|None, response, [(broadcast, optional)])])}, events: {path: [(broadcast, optional)]}, beacons: [path], producer/consumer: targets, self/assigned: path|None"""
    def __init__(s): s.requests, s.events, s.beacons, s.producer, s.consumer, s.selfkey, s.assigned, s.config = {}, {}, [], [], [], None, None, False
    def broadcasts(s):
        out = set()
        for _, acts in s.requests.values():
            for _, _, bs in acts: out |= {b for b, _ in bs}
        for bs in s.events.values(): out |= {b for b, _ in bs}
        return out

def parse(tokens, structs):
    """Model of a workflow over the given structure paths; raises Ill when the text is not well-formed."""
    if tokens is None: raise Ill("characters outside the language")
    m, pos, path, acts, bs, names = Model(), START, [], [], [], {}
    def ref(p):
        r = "".join(p)
        if r not in structs: raise Ill("%s is not a declared structure" % r)
        return r
    def add_b(opt):
        r = ref(path)
        if r in [b for b, _ in bs]: raise Ill("repeated broadcast " + r)
        bs.append((r, opt))
    for t in tokens:
        prev, pos = pos, step(pos, t)
        if pos is None: raise Ill("unexpected %s" % t)
        if prev == "top":
            path, acts, bs = [t[1:] if t[0] in "@&" else t], [], []
            if t == "&config":
                if m.config: raise Ill("second configuration")
                m.config = True; seen = set()
        elif prev == "cfg" and t == "}":
            if not m.producer or not m.consumer: raise Ill("no targets")
        elif prev == "cfg":
            if t in seen: raise Ill("repeated " + t)
            seen.add(t); key = t; path = []
        elif pos == "cfg_t":
            l = m.producer if key == "Producer" else m.consumer
            if t in l: raise Ill("repeated target")
            l.append(t)
        elif prev == "cfg_k" and t == ";":
            if key == "SelfKey": m.selfkey = ref(path)
            else: m.assigned = ref(path)
        elif t == "." or pos in ("cfg_k", "ev_p", "ev_b", "bc_b", "rq_p", "rq_e", "a1", "a1p", "a2", "b"): path.append(t)
        elif prev == "ev_p" and t == "{":
            ev = "".join(path)
            if ev not in ("connected", "disconnected"): ref(path)
            if ev in m.events: raise Ill("repeated event " + ev)
            bs = []; m.events[ev] = bs
        elif pos in ("ev_b0", "bc_b0", "a0", "b0", "a2_0"):
            if pos == "a2_0" and prev == "a1": concl = path[0]
            if pos == "a0": concl = None
            path = []
        elif pos == "ev_q" or pos == "bq": add_b(True)
        elif pos == "ev1":
            if prev == "ev_b": add_b(False)
        elif pos == "bc1":
            r = ref(path)
            if r in m.beacons: raise Ill("repeated beacon " + r)
            m.beacons.append(r)
        elif pos == "rq_e0": rq = ref(path); path = []
        elif pos == "rq0": err = ref(path)
        elif pos == "a3": bs = []; acts.append((concl, ref(path), bs))
        elif pos == "rq2":
            if prev == "b": add_b(False)
        elif prev in ("rq1", "rq2") and t == "}":
            cs = [c for c, _, _ in acts]
            if len(acts) > 1 and None in cs: raise Ill("a response without conclusion")
            named = [c for c in cs if c is not None]
            if len(set(named)) != len(named): raise Ill("repeated conclusion")
            if rq in m.requests: raise Ill("repeated request " + rq)
            m.requests[rq] = (err, acts)
    if pos != "top": raise Ill("unfinished")
    if not m.config: raise Ill("no configuration")
    for b in m.beacons:
        if b in m.requests: raise Ill("beacon %s is a request" % b)
    return m

# ------------------------------------------------------------------ readers of the generated code
def _files(d, sub):
    p = os.path.join(d, sub); out = {}
    if os.path.isdir(p):
        for f in sorted(os.listdir(p)):
            if f.rsplit(".", 1)[0] not in ("mod", "index") and os.path.isfile(os.path.join(p, f)): out[f.rsplit(".", 1)[0]] = open(os.path.join(p, f)).read()
    return out
def _sq(s): return re.sub(r"\s+", "", s)
def _rs(p): return p.replace("::", ".")
SYS = ("ready", "shutdown", "error")

def _rs_aliases(s):
    """type aliases of broadcasts: name -> (path, optional)"""
    out = {}
    for n, o, p in re.findall(r"type(\w+)=(Option<)?\(Vec<Uuid>,protocol::([\w:]+)\)>?;", s): out[n] = (_rs(p), bool(o))
    return out

def read_rust_producer(d):
    """What the skeletons and dispatchers of a Rust producer say."""
    m = {"requests": {}, "events": {}, "beacons": set()}
    for f, t in _files(d, "responses").items():
        s = _sq(t); al = _rs_aliases(s)
        rq = re.search(r"request:&protocol::([\w:]+),", s); r = re.search(r"->Result<(Response|protocol::[\w:]+),protocol::([\w:]+)>\{", s)
        if not rq or not r: raise ValueError("responses/%s is not understood" % f)
        if r.group(1) != "Response": acts = {(None, _rs(r.group(1)[10:]), ())}
        else:
            body = re.search(r"pubenumResponse\{(.*?)\}#\[", s).group(1); acts = set()
            for n, a, b, bl in re.findall(r"(\w+)\((?:protocol::([\w:]+)|\(protocol::([\w:]+),((?:\w+,)*)\))\),", body):
                acts.add((n, _rs(a or b), tuple(sorted(al[x] for x in bl.split(",") if x))))
        m["requests"][_rs(rq.group(1))] = (_rs(r.group(2)), frozenset(acts))
    for f, t in _files(d, "events").items():
        if f in SYS: continue
        s = _sq(t); al = _rs_aliases(s)
        e = re.search(r"event:&?(?:mut)?protocol::([\w:]+),", s); r = re.search(r"->Result<(\(\)|\w+|\([\w,]+\)),String>", s)
        if not r or (not e and f not in ("connected", "disconnected")): raise ValueError("events/%s is not understood" % f)
        bl = [x for x in r.group(1).strip("()").split(",") if x]
        if e is None and not bl: continue
        m["events"][_rs(e.group(1)) if e else f] = tuple(sorted(al[x] for x in bl))
    for f, t in _files(d, "beacons").items():
        b = re.search(r"beacon:&protocol::([\w:]+),", _sq(t))
        if not b: raise ValueError("beacons/%s is not understood" % f)
        m["beacons"].add(_rs(b.group(1)))
    s = open(os.path.join(d, "implementation/consumer/identification.rs")).read()
    k = re.search(r"pub key: Option<protocol::([\w:]+)>", s); a = re.search(r"pub assigned: Option<protocol::([\w:]+)>", s)
    m["selfkey"] = _rs(k.group(1)) if k else None; m["assigned"] = _rs(a.group(1)) if a else None
    return m

def read_rust_consumer(d):
    m = {"requests": {}, "broadcasts": set(), "beacons": set()}
    s = _sq(open(os.path.join(d, "implementation/consumer/controller.rs")).read())
    enums = {n: b for n, b in re.findall(r"pubenum(\w+)\{(.*?)\}", s)}
    for fn, p, r in re.findall(r"pubasyncfn(\w+)\(&(?:mut)?self,mut\w+:protocol::([\w:]+),?\)->Result<(\(\)|\w+),", s):
        if r == "()": m["beacons"].add(_rs(p)); continue
        items = re.findall(r"(\w+)\(protocol::([\w:]+)\)", enums[r])
        m["requests"][_rs(p)] = frozenset((n, _rs(q)) for n, q in items)
    for f, t in _files(d, "broadcasts").items():
        b = re.search(r"event:protocol::([\w:]+),", _sq(t))
        if not b: raise ValueError("broadcasts/%s is not understood" % f)
        m["broadcasts"].add(_rs(b.group(1)))
    k = re.search(r"pub key: protocol::([\w:]+)", open(os.path.join(d, "implementation/consumer/options.rs")).read())
    m["selfkey"] = _rs(k.group(1)) if k else None
    return m

def read_ts_producer(d):
    m = {"requests": {}, "events": {}, "beacons": set()}
    users = _files(d, "responses")
    for f, t in _files(d, "implementation/responses").items():
        s = _sq(t)
        rq = re.search(r"request:Protocol\.([\w.]+),", s); res = re.search(r"private_response!:((?:Protocol\.[\w.]+\|?)+);", s)
        if not rq or not res or f not in users: raise ValueError("implementation/responses/%s is not understood" % f)
        types = [x.replace("Protocol.", "") for x in res.group(1).split("|")]
        req = {n: frozenset(re.findall(r"Protocol\.([\w.]+),", b)) for n, b in re.findall(r"staticREQUIRED_(\w+?)(?::Array<\{.*?\}>)?=\[(.*?)\];", s)}
        meth = {}
        for b, cond in re.findall(r"\w+\(msg:Protocol\.([\w.]+)\):Response\{if\((.*?)\)\{throw", s):
            meth[b] = frozenset(re.findall(r"getId\(\)!==Protocol\.([\w.]+)\.getId\(\)", cond))
        m["requests"][rq.group(1)] = (types[-1], frozenset(types[:-1]), req, meth)
    users = _files(d, "events")
    for f, t in _files(d, "implementation/events").items():
        if f in SYS: continue
        s = _sq(t)
        e = re.search(r"event:Protocol\.([\w.]+),", s)
        if f not in users: raise ValueError("events/%s is missing" % f)
        meth = frozenset(re.findall(r"\w+\(msg:Protocol\.([\w.]+)\):Output\{if", s)); req = re.search(r"staticREQUIRED(?::Array<\{.*?\}>)?=\[(.*?)\];", s)
        if e is None and not meth: continue
        r = frozenset(re.findall(r"Protocol\.([\w.]+),", req.group(1))) if req else frozenset()
        m["events"][e.group(1) if e else f] = tuple(sorted((b, b not in r) for b in meth | r))
    for f, t in _files(d, "beacons").items():
        b = re.search(r"beacon:Protocol\.([\w.]+),", _sq(t))
        if not b: raise ValueError("beacons/%s is not understood" % f)
        m["beacons"].add(b.group(1))
    s = open(os.path.join(d, "implementation/consumer/identification.ts")).read()
    k = re.search(r"_key: Protocol\.([\w.]+)", s); a = re.search(r"_assigned: Protocol\.([\w.]+)", s)
    m["selfkey"] = k.group(1) if k else None; m["assigned"] = a.group(1) if a else None
    return m

def read_ts_consumer(d):
    m = {"requests": {}, "broadcasts": set(), "beacons": set()}
    for f, t in _files(d, "requests").items():
        s = _sq(t)
        rq = re.search(r"exportclass\w+extendsProtocol\.([\w.]+)\{", s); res = re.search(r"exporttypeT\w+Resolver=((?:Protocol\.[\w.]+\|?)+);", s)
        if not rq or not res: raise ValueError("requests/%s is not understood" % f)
        hs = frozenset((n, p) for n, p in re.findall(r"exporttypeT(\w+)Handler=\(response:Protocol\.([\w.]+)\)=>void", s))
        m["requests"][rq.group(1)] = (frozenset(x.replace("Protocol.", "") for x in res.group(1).split("|")), hs)
    for f, t in _files(d, "beacons").items():
        b = re.search(r"exportclass\w+extendsProtocol\.([\w.]+)\{", _sq(t))
        if not b: raise ValueError("beacons/%s is not understood" % f)
        m["beacons"].add(b.group(1))
    s = _sq(open(os.path.join(d, "index.ts")).read())
    m["broadcasts"] = {b for n, b in re.findall(r"(\w+):newSubject<Protocol\.([\w.]+)>", s)}
    m["dispatched"] = set(re.findall(r"caseProtocol\.([\w.]+)\.getId\(\):this\.broadcast", s))
    k = re.search(r"private_key:Protocol\.((?:\w+\.)*)I(\w+);", s)
    m["selfkey"] = k.group(1) + k.group(2) if k else None
    return m

ISG = "InternalServiceGroup."
def _norm_acts(acts, broadcasts=True):
    has = len(acts) > 1 or any(b for _, _, b in acts)
    return acts, has

def compare(m, root, layout):
    """Differences between the model and the outputs; layout: {(side, target): directory}."""
    def ne(what, got, want):
        return None if got == want else "%s: %s instead of %s" % (what, _show(got), _show(want))
    ident = (m.selfkey or ISG + "SelfKeyRequest"), (m.assigned or None)
    probs = []
    for (side, target), d in layout.items():
        if not os.path.isdir(d): return "no output for %s %s" % (side, target)
        try: g = {("producer", "rust"): read_rust_producer, ("consumer", "rust"): read_rust_consumer, ("producer", "typescript"): read_ts_producer, ("consumer", "typescript"): read_ts_consumer}[(side, target)](d)
        except (ValueError, AttributeError, KeyError, FileNotFoundError) as e: return "%s %s output: %r" % (side, target, e)
        w = "%s %s " % (side, target)
        probs.append(ne(w + "beacons", g["beacons"], set(m.beacons)))
        if "events" in g: probs.append(ne(w + "events", g["events"], {e: tuple(sorted(bs)) for e, bs in m.events.items()}))
        if "broadcasts" in g: probs.append(ne(w + "broadcasts", g["broadcasts"], m.broadcasts()))
        if "dispatched" in g: probs.append(ne(w + "dispatched broadcasts", g["dispatched"], m.broadcasts()))
        probs.append(ne(w + "self key", g["selfkey"], ident[0]))
        if "assigned" in g and m.assigned: probs.append(ne(w + "assigned key", g["assigned"], m.assigned))
        want = {}
        for rq, (err, acts) in m.requests.items():
            cases = len(acts) > 1 or any(b for _, _, b in acts)
            if (side, target) == ("producer", "rust"):
                want[rq] = (err, frozenset((c or "Response" if cases else None, r, tuple(sorted(bs))) for c, r, bs in acts))
            elif (side, target) == ("consumer", "rust"):
                want[rq] = frozenset([(c or "Response", r) for c, r, _ in acts] + [("Err", err)])
            elif (side, target) == ("producer", "typescript"):
                req = {(c or "Response").upper(): frozenset(b for b, o in bs if not o) for c, r, bs in acts if bs} if cases else {}
                meth = {}
                for c, r, bs in acts:
                    for b, _ in bs: meth.setdefault(b, set()).add(r)
                want[rq] = (err, frozenset(r for _, r, _ in acts), req, {b: frozenset(x) for b, x in meth.items()})
            else:
                want[rq] = (frozenset([r for _, r, _ in acts] + [err]), frozenset([((c or "Response") if len(acts) > 1 else "Response", r) for c, r, _ in acts] + [("Err", err)]))
        probs.append(ne(w + "requests", g["requests"], want))
    probs = [p for p in probs if p]
    return probs[0] if probs else None

def _show(x):
    if isinstance(x, dict): return "{" + ", ".join("%s: %s" % (k, _show(x[k])) for k in sorted(x)) + "}"
    if isinstance(x, (set, frozenset)): return "{" + ", ".join(sorted(map(_show, x))) + "}"
    if isinstance(x, (tuple, list)): return "(" + ", ".join(map(_show, x)) + ")"
    return str(x)

# ------------------------------------------------------------------ the sequence diagram
def read_puml(text):
    """Arrows of the diagram per participant pair: {'request': [...], 'response': [...], ...} as multisets (sorted lists)."""
    arrows = []
    for l in text.split("\n"):
        l = re.sub(r"<[^>]*>", "", l).strip()
        mm = re.match(r"(\w+)\s*(-->x|-->|->)\s*(\w+)\s*:\s*([\w.]+)$", l)
        if mm: arrows.append(mm.groups())
    return sorted(arrows)
