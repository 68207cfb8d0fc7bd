"""Reference model of the protocol language: declarations, name resolution, value domains, and the bindings which
turn a model value into a generated Rust / TypeScript value and back.

Value representation (JSON): numbers are strings ("12"; f32/f64 are the hex of their bits), bool is true/false, strings are
strings, absent optionals are null, repeated are lists, structures are objects, enumeration values are {"Variant": payload}
(options of a plain enumeration carry a string in the generated code)."""
import itertools, struct as _struct

PRIMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "str"]
RUST = {"str": "String"}

class Field:
    def __init__(s, name, type, optional=False, repeated=False):
        s.name, s.type, s.optional, s.repeated = name, type, bool(optional), bool(repeated)
    def decl(s):
        return "%s%s %s%s;" % (s.type, "[]" if s.repeated else "", s.name, "?" if s.optional else "")

class Struct:
    kind = "struct"
    def __init__(s, name, fields): s.name, s.fields = name, fields; s.path = ()
    def decl(s, ind=""):
        return ind + "struct %s {\n%s%s}\n" % (s.name, "".join(ind + "    " + f.decl() + "\n" for f in s.fields), ind)

class Variant:
    def __init__(s, name, type=None, repeated=False): s.name, s.type, s.repeated = name, type, repeated
    def decl(s):
        return "%s;" % s.name if s.type is None else "%s%s %s;" % (s.type, "[]" if s.repeated else "", s.name)

class Enum:
    kind = "enum"
    def __init__(s, name, variants): s.name, s.variants = name, variants; s.path = ()
    def decl(s, ind=""):
        return ind + "enum %s {\n%s%s}\n" % (s.name, "".join(ind + "    " + v.decl() + "\n" for v in s.variants), ind)

class Group:
    kind = "group"
    def __init__(s, name, items): s.name, s.items = name, items; s.path = ()
    def decl(s, ind=""):
        return ind + "group %s {\n%s%s}\n" % (s.name, "".join(i.decl(ind + "    ") for i in s.items), ind)

class Schema:
    def __init__(s, items):
        s.items = items
        s.entities = {}         # dotted name -> Struct/Enum, declaration order
        s.groups = {}
        def walk(items, path):
            for i in items:
                i.path = path
                full = path + (i.name,)
                if i.kind == "group":
                    s.groups[full] = i
                    walk(i.items, full)
                else:
                    i.full = full
                    s.entities[".".join(full)] = i
        walk(items, ())
    def prot(s): return "".join(i.decl() for i in s.items)

    def resolve(s, path, name):
        """The declaration a (dotted) type name means when used inside group `path`."""
        parts = tuple(name.split("."))
        for k in range(len(path), -1, -1):
            base = path[:k]
            if len(parts) > 1:
                if base + parts[:1] in s.groups:
                    return s.entities.get(".".join(base + parts))
            elif ".".join(base + parts) in s.entities:
                return s.entities[".".join(base + parts)]
        return None

    # ---------------------------------------------------------------- description for the TypeScript harness
    def desc(s):
        d = {}
        for n, e in s.entities.items():
            if e.kind == "struct":
                d[n] = {"k": "struct", "fields": [[f.name, s.tref(e, f.type), f.optional, f.repeated] for f in e.fields]}
            else:
                d[n] = {"k": "enum", "variants": [[v.name, "str" if v.type is None else s.tref(e, v.type), v.repeated] for v in e.variants]}
        return d
    def tref(s, e, t):
        if t in PRIMS: return t
        r = s.resolve(e.path, t)
        return ".".join(r.full)

    # ---------------------------------------------------------------- Rust binding
    def rust_binding(s, mod="p"):
        o = []
        o.append("use crate::json::*; use crate::p;")
        rp = lambda full: mod + "::" + "::".join(full)
        for n, e in s.entities.items():
            t = rp(e.full)
            if e.kind == "struct":
                o.append("impl J for %s {" % t)
                o.append("  fn j(&self) -> V { V::O(vec![%s]) }" % ", ".join('("%s".to_string(), self.%s.j())' % (f.name, f.name) for f in e.fields))
                o.append("  fn u(_v: &V) -> Self { %s { %s } }" % (t, ", ".join('%s: J::u(_v.get("%s"))' % (f.name, f.name) for f in e.fields)))
                o.append("}")
                o.append("impl Msg for %s {" % t)
                o.append("  fn dec(b: Vec<u8>) -> Result<Self, String> { <%s as %s::StructDecode>::extract(b) }" % (t, mod))
                o.append("  fn enc(&mut self) -> Result<Vec<u8>, String> { %s::StructEncode::abduct(self) }" % mod)
                o.append("  fn pk(&mut self, s: u32) -> Result<Vec<u8>, String> { %s::PackingStruct::pack(self, s, None) }" % mod)
                o.append("  fn id() -> Option<u32> { Some(<%s as %s::StructDecode>::get_id()) }" % (t, mod))
                o.append("  fn sid(&self) -> (u32, u16) { (%s::StructEncode::get_id(self), %s::StructEncode::get_signature(self)) }" % (mod, mod))
                o.append("}")
            else:
                o.append("impl J for %s {" % t)
                o.append("  #[allow(unreachable_patterns)] fn j(&self) -> V { match self { %s _ => V::N } }" % " ".join('%s::%s(x) => V::O(vec![("%s".to_string(), x.j())]),' % (t, v.name, v.name) for v in e.variants))
                o.append("  fn u(v: &V) -> Self { match v.first().0 { %s k => panic!(\"no option {}\", k) } }" % " ".join('"%s" => %s::%s(J::u(v.first().1)),' % (v.name, t, v.name) for v in e.variants))
                o.append("}")
                o.append("impl Msg for %s {" % t)
                o.append("  fn dec(b: Vec<u8>) -> Result<Self, String> { <%s as %s::EnumDecode>::extract(b) }" % (t, mod))
                o.append("  fn enc(&mut self) -> Result<Vec<u8>, String> { %s::EnumEncode::abduct(self) }" % mod)
                o.append("  fn pk(&mut self, s: u32) -> Result<Vec<u8>, String> { %s::PackingEnum::pack(self, s, None) }" % mod)
                o.append("  fn id() -> Option<u32> { None }")
                o.append("  fn sid(&self) -> (u32, u16) { (%s::EnumEncode::get_id(self), %s::EnumEncode::get_signature(self)) }" % (mod, mod))
                o.append("}")
        o.append("pub fn find(t: &str) -> Ty { match t {")
        o += ['  "%s" => ty::<%s>(),' % (n, rp(e.full)) for n, e in s.entities.items()]
        o.append('  o => panic!("no type {}", o) } }')
        o.append("#[allow(unreachable_patterns)] pub fn any(m: &%s::AvailableMessages) -> (&'static str, V) { match m {" % mod)
        for n, e in s.entities.items():
            pat = "m"
            for k in range(len(e.full) - 1, -1, -1):
                pat = "%s::AvailableMessages::%s(%s)" % ("::".join((mod,) + e.full[:k]), e.full[k], pat)
            o.append('  %s => ("%s", m.j()),' % (pat, n))
        o.append('  _ => ("?", V::N) } }')
        return "\n".join(o) + "\n"

# -------------------------------------------------------------------- values
def f32h(x): return _struct.pack(">f", x).hex()
def f64h(x): return _struct.pack(">d", x).hex()
PRIM_VALUES = {
    "u8": ["0", "1", "255"], "u16": ["0", "258", "65535"], "u32": ["0", "16909060", "4294967295"],
    "u64": ["0", "9007199254740993", "18446744073709551615"],
    "i8": ["0", "-128", "127", "-1"], "i16": ["0", "-32768", "32767", "-2"], "i32": ["0", "-2147483648", "2147483647", "-3"],
    "i64": ["0", "-9223372036854775808", "9223372036854775807", "-4"],
    "f32": [f32h(0.0), f32h(-1.5), f32h(float("inf")), "7fc00000", "00000001", "7f7fffff", "80000000"],
    "f64": [f64h(0.0), f64h(-1.5), f64h(float("-inf")), "7ff8000000000000", "0000000000000001", "7fefffffffffffff", "8000000000000000"],
    "bool": [False, True],
    "str": ["", "a", "h\u00e9\u6f22\U0001f980", "\0x", "L" * 300],
}
MORE = {"u8": ["127", "128", "2", "8", "16", "32", "64"], "u16": ["255", "256", "32768"], "u32": ["65535", "65536", "2147483648"],
        "u64": ["4294967296", "9223372036854775808", "255"], "i8": ["1", "2"], "i16": ["256", "-129"], "i32": ["65536", "-65537"],
        "i64": ["4294967296", "-4294967297", "9007199254740993"], "f32": ["ff800000", "3f800001"], "f64": ["7ff0000000000000", "3ff0000000000001"],
        "bool": [], "str": ["M" * n for n in (253, 254, 255, 256, 65535, 65536)] + ["\u00e9" * 128, " ", "null"]}

def base_value(s, e):
    if e.kind == "struct": return {f.name: domain(s, e, f, 1)[0] for f in e.fields}
    v = e.variants[0]
    return {v.name: tdomain(s, e, v.type, v.repeated, 1)[0]}

def tdomain(s, e, t, repeated, depth):
    """Values of one type reference."""
    if t is None: vals = ["A", "", "B\u00e9"]
    elif t in PRIMS: vals = PRIM_VALUES[t] + (MORE[t] if depth >= 3 else [])
    else:
        r = s.resolve(e.path, t)
        if r.kind == "struct":
            b = base_value(s, r)
            vals = [b]
            for f in r.fields:
                for x in domain(s, r, f, max(depth - 2, 0)):
                    if x != b[f.name]: vals.append(dict(b, **{f.name: x}))
            if depth < 2: vals = vals[:4]
        else:
            vals = []
            for v in r.variants:
                d = tdomain(s, r, v.type, v.repeated, max(depth - 2, 0))
                vals += [{v.name: x} for x in (d if depth >= 2 else d[:2])]
            if depth < 1: vals = vals[:3]
    if not repeated: return vals
    out = [[], [vals[0]], list(vals[:3])]
    if len(vals) > 1: out += [[vals[-1]], [vals[0], vals[-1]], [vals[-1], vals[0], vals[0]]]
    if depth >= 2:
        out += [[v] for v in vals[1:-1]]
        if t in PRIMS: out += [[vals[1 % len(vals)]] * n for n in ((16, 32, 255, 256) if t != "str" else (40, ))]
    uniq = []
    for x in out:
        if x not in uniq: uniq.append(x)
    return uniq

def domain(s, e, f, depth):
    vals = tdomain(s, e, f.type, f.repeated, depth)
    return ([None] + vals) if f.optional else vals

def values(s, name, depth=2, pair_vals=3, maxfull=4000):
    """Enumerate values of one entity: the full product of the domains when small, otherwise the base value with every
    single-field deviation over the full domain and every two-field deviation over `pair_vals` values each."""
    e = s.entities[name]
    if e.kind == "enum":
        for v in e.variants:
            for x in tdomain(s, e, v.type, v.repeated, depth): yield {v.name: x}
        return
    doms = [domain(s, e, f, depth) for f in e.fields]
    total = 1
    for d in doms: total *= len(d)
    if total <= maxfull:
        for combo in itertools.product(*doms): yield {f.name: x for f, x in zip(e.fields, combo)}
        return
    base = {f.name: d[0] for f, d in zip(e.fields, doms)}
    yield dict(base)
    for f, d in zip(e.fields, doms):
        for x in d[1:]: yield dict(base, **{f.name: x})
    small = []
    for f, d in zip(e.fields, doms):
        # spread: deviate through representative shapes
        step = max(1, (len(d) - 1) // pair_vals)
        small.append(d[1::step][:pair_vals] if len(d) > 1 else [])
    for i in range(len(doms)):
        for j in range(i + 1, len(doms)):
            for x in small[i]:
                for y in small[j]:
                    yield dict(base, **{e.fields[i].name: x, e.fields[j].name: y})

# -------------------------------------------------------------------- schemas used by the codec checks
def prim_fields(optional, repeated): return [Field("f_" + t, t, optional, repeated) for t in PRIMS]

def comprehensive():
    F, S, E, G, V = Field, Struct, Enum, Group, Variant
    shapes = [(False, False), (True, False), (False, True), (True, True)]
    def refs(name, t): return [F("%s_%d%d" % (name, o, r), t, o, r) for o, r in shapes]
    return Schema([
        E("Simple", [V("A"), V("B"), V("C")]),
        S("Emp", []),
        S("Small", [F("a", "u8"), F("b", "str", True)]),
        S("One", [F("o", "str", True)]),
        S("Arr", [F("o", "u16", True, True)]),
        S("Two", [F("x", "u16"), F("y", "i8", True, True)]),
        S("Req", [F("a", "bool"), F("b", "str"), F("c", "Emp"), F("d", "Small")]),
        S("P", prim_fields(False, False)),
        S("O", prim_fields(True, False)),
        S("R", prim_fields(False, True)),
        S("Q", prim_fields(True, True)),
        E("EP", [V("v_" + t, t) for t in PRIMS]),
        E("ER", [V("v_" + t, t, True) for t in PRIMS]),
        E("EX", [V("v_small", "Small"), V("v_emp", "Emp"), V("v_one", "One"), V("v_u8", "u8"), V("v_arr", "Arr"), V("v_en", "Simple"), V("v_ep", "EP"), V("v_small_r", "Small", True), V("v_en_r", "Simple", True), V("v_ep_r", "EP", True)]),
        S("NE", refs("s", "Simple")), S("NP", refs("p", "EP")), S("NR", refs("r", "ER")), S("NX", refs("x", "EX")),
        S("NS", refs("s", "Small")), S("NM", refs("e", "Emp")), S("NO", refs("o", "One")),
        S("Deep", [F("p", "P"), F("o", "O", True), F("n", "NS"), F("m", "NM", True), F("x", "NE", False, True)]),
        G("Ga", [
            E("Simple", [V("X"), V("Y")]),
            S("Small", [F("w", "u32"), F("e", "Simple", True)]),
            E("Ex", [V("k", "Small"), V("n", "u8")]),
            S("Emp", []),
            G("Gb", [
                S("Small", [F("q", "i64", True), F("e", "Simple"), F("x", "Ex", True)]),
                S("Use", [F("a", "Small"), F("b", "Ex"), F("c", "Emp", True), F("d", "Small", False, True), F("f", "EP", True), F("g", "Two", True, True)]),
            ]),
        ]),
        G("Gc", [S("Small", [F("z", "u8", True)]), S("Use", [F("a", "Small"), F("b", "Ga.Small"), F("e", "Ga.Simple", True), F("c", "Ga.Small", True, True), F("h", "Ga.Gb.Small")])]),
        S("Cross", [F("a", "Ga.Small"), F("b", "Ga.Gb.Small", True), F("c", "Gc.Small", False, True), F("d", "Ga.Ex"), F("e", "Ga.Simple", True)]),
    ])

def pairs():
    """Every ordered pair of field shapes as a two-field structure; far more than 255 identifiers are used."""
    F, S, E, V = Field, Struct, Enum, Variant
    shapes = [("u8", 0, 0), ("str", 0, 0), ("str", 1, 0), ("u16", 0, 1), ("f64", 1, 1), ("S1", 0, 0), ("S1", 1, 0), ("S0", 1, 1), ("S0", 0, 1),
              ("En", 0, 0), ("En", 1, 0), ("En", 0, 1), ("En", 1, 1)]
    items = [S("S0", []), S("S1", [F("o", "str", True), F("n", "u32")]), E("Op", [V("K"), V("n", "u8")]), E("En", [V("A"), V("l", "u8", True), V("t", "S1"), V("e", "S0"), V("s", "S1", True), V("o", "Op", True)])]
    for i, a in enumerate(shapes):
        for j, b in enumerate(shapes):
            items.append(S("X%dX%d" % (i, j), [F("p", a[0], a[1], a[2]), F("q", b[0], b[1], b[2])]))
    items.append(S("Last", [F("%s%d%d" % (x[0].lower(), x[1], x[2]), *[x[0], bool(x[1]), bool(x[2])]) for x in shapes]))
    return Schema(items)
