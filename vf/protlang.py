"""Reference for the protocol language: tokens, a pushdown acceptor, the declared model, and readers of the generated outputs."""
import re
PRIMS = {"i8": "i8", "i16": "i16", "i32": "i32", "i64": "i64", "u8": "u8", "u16": "u16", "u32": "u32", "u64": "u64", "f32": "f32", "f64": "f64", "bool": "bool", "str": "String"}
KW = ("struct", "enum", "group")
PUNCT = ("{", "}", ";", "[", "]", "?", ".")

def is_word(t): return re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", t) is not None

def lex(text):
    """Tokens of a text, or None when it holds a character outside the language."""
    out, i = [], 0
    while i < len(text):
        ch = text[i]
        if ch in " \t\r\n\x0c": i += 1; continue
        if ch in "{};[]?.": out.append(ch); i += 1; continue
        m = re.compile(r"[A-Za-z_][A-Za-z0-9_]*").match(text, i)
        if not m: return None
        out.append(m.group()); i = m.end()
    return out

# ------------------------------------------------------------------ acceptor: immutable states, one token at a time
# state: (stack, pos); stack of 'group'/'struct'/'enum'; pos names what may follow.
START = ((), "decl")
def step(st, t):
    """Next syntactic state or None when the token cannot follow."""
    stack, pos = st
    w = is_word(t)
    if pos == "decl":
        if t in KW: return (stack, "name:" + t)
        if t == "}" and stack: return (stack[:-1], "decl")
        return None
    if pos.startswith("name:"): return (stack, "open:" + pos[5:]) if w else None
    if pos.startswith("open:"):
        k = pos[5:]
        if t != "{": return None
        return (stack + (k,), "decl" if k == "group" else k)
    if pos == "struct":
        if t == "}": return (stack[:-1], "decl")
        return (stack, "ftype") if w and t not in KW else None
    if pos == "ftype":
        if t == ".": return (stack, "fpath")
        if t == "[": return (stack, "fbr")
        return (stack, "fname") if w else None
    if pos == "fpath": return (stack, "ftype") if w and t not in KW else None
    if pos == "fbr": return (stack, "fname?") if t == "]" else None
    if pos == "fname?": return (stack, "fname") if w else None
    if pos == "fname":
        if t == ";": return (stack, "struct")
        return (stack, "fopt") if t == "?" else None
    if pos == "fopt": return (stack, "struct") if t == ";" else None
    if pos == "enum":
        if t == "}": return (stack[:-1], "decl")
        return (stack, "etype1") if w and t not in KW else None
    if pos in ("etype1", "etype"):
        if t == ";" and pos == "etype1": return (stack, "enum")
        if t == ".": return (stack, "epath")
        if t == "[": return (stack, "ebr")
        return (stack, "ename") if w else None
    if pos == "epath": return (stack, "etype") if w and t not in KW else None
    if pos == "ebr": return (stack, "ename?") if t == "]" else None
    if pos == "ename?": return (stack, "ename") if w else None
    if pos == "ename": return (stack, "enum") if t == ";" else None
    raise AssertionError(pos)

def complete(st): return st == ((), "decl")

# ------------------------------------------------------------------ model of a well-formed text
class Decl:
    def __init__(s, kind, name, scope): s.kind, s.name, s.scope, s.items = kind, name, scope, []  # items: (name, type, repeated, optional)
    @property
    def path(s): return s.scope + (s.name,)

class Ill(Exception): pass
class Unspecified(Exception): pass   # duplicate names, keywords as names: nothing is claimed

def parse(tokens):
    """Returns the list of declarations in order; raises Ill for an ill-formed text."""
    st = START
    decls, groups, scope, cur = [], {()}, [], None
    buf, refs = [], []
    for t in tokens:
        prev = st
        st = step(st, t)
        if st is None: raise Ill("unexpected %s" % t)
        pos = prev[1]
        if pos.startswith("name:"):
            if t in KW: raise Unspecified()
            k = pos[5:]; sc = tuple(scope)
            if any(d.path == sc + (t,) for d in decls) or sc + (t,) in groups: raise Ill("repeated name " + t)
            if k == "group": groups.add(sc + (t,)); scope.append(t)
            else:
                cur = Decl(k, t, sc)
        elif pos in ("struct", "enum"):
            if t == "}": decls.append(cur); cur = None
            else: buf = [t]
        elif pos == "decl":
            if t == "}": scope.pop()
        elif pos in ("ftype", "etype", "etype1", "fpath", "epath", "fbr", "ebr", "fname?", "ename?", "fname", "ename", "fopt") and t != ";":
            buf.append(t)
        if t == ";":
            names = {i[0] for i in cur.items}
            if len(buf) == 1: item = (buf[0], ("prim", "str"), False, False)
            else:
                opt = buf[-1] == "?"
                if opt: buf = buf[:-1]
                name, ty = buf[-1], buf[:-1]
                rep = ty[-1] == "]"
                if rep: ty = ty[:-2]
                ty = [x for x in ty if x != "."]
                item = (name, resolve(decls, groups, cur.scope, ty), rep, opt)
            if item[0] in KW: raise Unspecified()
            if item[0] in names: raise Ill("repeated name " + item[0])
            if item[1][0] == "ref": refs.append((cur.scope, ty, item[1]))
            cur.items.append(item)
    if not complete(st): raise Ill("unexpected end")
    for sc, ty, r in refs:
        if resolve(decls, groups, sc, ty) != r: raise Ill("a later declaration changes the meaning of " + ".".join(ty))
    return decls, groups

def resolve(decls, groups, scope, ty):
    """The nearest enclosing scope which declares the first name of the reference decides."""
    if len(ty) == 1 and ty[0] in PRIMS: return ("prim", ty[0])
    by = {d.path for d in decls}
    s = tuple(scope)
    while True:
        n = s + (ty[0],)
        if n in by or n in groups:
            p = s + tuple(ty)
            if p in by: return ("ref", p)
            raise Ill("no type " + ".".join(ty))
        if not s: raise Ill("no type " + ".".join(ty))
        s = s[:-1]

def model(text):
    """(decls, groups) or raises Ill / Unspecified."""
    t = lex(text)
    if t is None: raise Ill("character outside the language")
    return parse(t)

# ------------------------------------------------------------------ readers of the outputs
TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|`(?:\\.|[^`\\])*`|[A-Za-z_$][\w$]*|\d[\w.]*|::|=>|->|.""", re.S)
RTOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])'|[A-Za-z_]\w*|\d[\w.]*|::|=>|->|.""", re.S)
def toks(text, rust): return [t for t in (RTOK if rust else TOK).findall(text) if not t[0].isspace() and not t.startswith(("//", "/*"))]

def skip(t, i):
    """i at an opening bracket: index after its partner."""
    d = 0
    pair = {"{": "}", "(": ")", "[": "]"}
    while i < len(t):
        if t[i] in "{([": d += 1
        elif t[i] in "})]" and len(t[i]) == 1:
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise Ill("unbalanced output")

def split_top(t, seps, angle=True):
    out, cur, d = [], [], 0
    for x in t:
        if x in ("{", "(", "[") or (angle and x == "<"): d += 1
        elif x in ("}", ")", "]") or (angle and x == ">"): d -= 1
        if d == 0 and x in seps: out.append(cur); cur = []
        else: cur.append(x)
    if cur: out.append(cur)
    return out

def read_rust(text, known):
    """{path: (kind, [(name, type, repeated, optional)])} of the data types in the Rust output."""
    out = {}
    t = toks(text, True)
    def typ(tt, scope):
        opt = rep = False
        if tt[:2] == ["Option", "<"]: opt, tt = True, tt[2:-1]
        if tt[:2] == ["Vec", "<"]: rep, tt = True, tt[2:-1]
        inv = {v: k for k, v in PRIMS.items()}
        p = [x for x in tt if x != "::"]
        if len(p) == 1 and p[0] in inv: return ("prim", inv[p[0]]), rep, opt
        return ("path", tuple(p), scope), rep, opt
    def walk(i, end, scope):
        while i < end:
            x = t[i]
            if x == "#":
                i = skip(t, i + 1 + (t[i + 1] == "!")); continue
            if x == "mod" and t[i + 2] == "{":
                e = skip(t, i + 2); walk(i + 3, e - 1, scope + (t[i + 1],)); i = e; continue
            if x in ("struct", "enum") and t[i + 2] == "{":
                name = t[i + 1]; e = skip(t, i + 2)
                items = []
                for it in split_top(t[i + 3:e - 1], (",",)):
                    while it and it[0] == "#": it = it[skip(it, 1):]
                    if it and it[0] == "pub": it = it[skip(it, 1):] if len(it) > 1 and it[1] == "(" else it[1:]
                    if not it: continue
                    if x == "struct":
                        assert it[1] == ":", it
                        items.append((it[0],) + typ(it[2:], scope))
                    elif len(it) > 1: items.append((it[0],) + typ(it[2:-1], scope))
                if name != "AvailableMessages": out[scope + (name,)] = (x, items)
                i = e; continue
            if x == "{": i = skip(t, i); continue
            i += 1
    walk(0, len(t), ())
    return fix(out, known)

def read_ts(text, known):
    """The same for the TypeScript output: interfaces IName of classes Name, and the fields of the classes."""
    out = {}
    t = toks(text, False)
    inv = {"number": None, "bigint": None, "boolean": "bool", "string": "str"}
    def typ(tt, scope):
        opt = rep = False
        parts = [p for p in split_top(tt, ("|",)) if p]
        if ["undefined"] in parts: opt = True; parts.remove(["undefined"])
        assert len(parts) == 1, tt
        tt = parts[0]
        if tt[:2] == ["Array", "<"]: rep, tt = True, tt[2:-1]
        if tt[-2:] == ["[", "]"]: rep, tt = True, tt[:-2]
        p = tuple(x for x in tt if x != ".")
        if len(p) == 1 and p[0] in inv: return ("ts", p[0]), rep, opt
        return ("path", p, scope), rep, opt
    def walk(i, end, scope):
        while i < end:
            x = t[i]
            if x == "namespace" and t[i + 2] == "{":
                e = skip(t, i + 2); walk(i + 3, e - 1, scope + (t[i + 1],)); i = e; continue
            if x == "interface" and t[i + 2] == "{":
                name = t[i + 1]; e = skip(t, i + 2); items = []
                if name != "IAvailableMessages":
                    for it in split_top(t[i + 3:e - 1], (";", ",")):
                        if not it: continue
                        o = it[1] == "?"
                        ty, rep, opt = typ(it[2 + o:], scope)
                        items.append((it[0], ty, rep, opt or o))
                    out[scope + (name,)] = ("interface", items)
                i = e; continue
            if x == "class":
                name = t[i + 1]; j = i
                while t[j] != "{": j += 1
                head = t[i:j]
                if "Enum" in head: kind = "enum"
                elif "Convertor" in head: kind = "struct"
                else: kind = None
                if kind: out[scope + (name,)] = (kind, None)
                i = skip(t, j); continue
            if x == "{": i = skip(t, i); continue
            i += 1
    walk(0, len(t), ())
    res = {}
    for p, (k, _) in out.items():
        if k == "interface": continue
        i = out.get(p[:-1] + ("I" + p[-1],))
        res[p] = (k, i[1] if i else None)
    return fix(res, known)

def fix(out, known):
    """Resolve the paths in the output by the scoping rules of the output language (nearest enclosing definition)."""
    names = set(out); mods = {p[:k] for p in out for k in range(1, len(p))} | set(known)
    res = {}
    for p, (k, items) in out.items():
        its = []
        for n, ty, rep, opt in items or []:
            if ty[0] == "path":
                q, s = ty[1], ty[2]
                if q and q[-1].startswith("I") and (s + q not in names): alt = q[:-1] + (q[-1][1:],)
                else: alt = q
                found = None
                while True:
                    for c in (q, alt):
                        if (len(c) == 1 and s + c in names) or (len(c) > 1 and s + c[:1] in mods and s + c in names): found = s + c; break
                    if found or not s: break
                    if len(q) > 1 and s + q[:1] in mods: break
                    s = s[:-1]
                ty = ("ref", found) if found else ("unresolved", ".".join(q))
            its.append((n, ty, rep, opt))
        res[p] = (k, its)
    return res

TSNUM = {"u64": "bigint", "i64": "bigint", "bool": "boolean", "str": "string"}
def compare(decls, got, lang):
    """First difference between the declared model and a read output, or None."""
    want = {d.path: d for d in decls}
    for p in want:
        if p not in got: return "declared %s is not in the %s output" % (".".join(p), lang)
    for p in got:
        if p not in want: return "%s is in the %s output but was not declared" % (".".join(p), lang)
    for p, d in want.items():
        k, items = got[p]
        if k != d.kind: return "%s is a %s in the %s output" % (".".join(p), k, lang)
        w = [list(i) for i in d.items]; g = [list(i) for i in items]
        if lang == "TypeScript":
            for i in w:
                if i[1][0] == "prim": i[1] = ("ts", TSNUM.get(i[1][1], "number"))
                if d.kind == "enum": i[3] = True
        if w != g: return "%s is declared with %s, the %s output has %s" % (".".join(p), w, lang, g)
    return None
