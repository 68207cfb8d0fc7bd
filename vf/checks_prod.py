"""R01-R06: the generated Rust producer, run under a controlled executor and compared with a reference machine."""
import re, json, os, shutil
from . import common
H = os.path.join(common.VERIF, "harness")
FILES = "verif: generated code"

def tokio():
    """A copy of tokio whose select! asks the harness which branch is polled first."""
    import glob
    src = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/tokio-1.14.0")))[0]
    dst = os.path.join(common.BUILD, "tokio-1.14.0"); mark = dst + "/.vf2"
    if os.path.exists(mark): return dst
    shutil.rmtree(dst, ignore_errors=True); shutil.copytree(src, dst)
    p = dst + "/src/util/rand.rs"; t = common.read(p)
    i = t.index("pub fn thread_rng_n(n: u32) -> u32 {")
    t = t[:i] + 'pub fn thread_rng_n(n: u32) -> u32 {\n    extern "Rust" { fn vf_choose(n: u32) -> u32; }\n    unsafe { vf_choose(n) }\n}\n'
    common.write(p, t); p = dst + "/src/lib.rs"; common.write(p, common.read(p).replace("#![deny(unused_must_use)]", "")); common.write(mark, ""); return dst

def generate(kind, rig, user, args):
    """Generate a rig next to the user's files into a scratch directory, return its path."""
    d = common.fresh("gen-" + kind)
    for f in ("rig.prot", "rig.workflow"): shutil.copy(os.path.join(rig, f), d)
    if user: shutil.copytree(user, d + "/p")
    else: os.makedirs(d + "/p")
    common.write(d + "/Cargo.toml", '[package]\nname = "x"\nversion = "0.1.0"\n[dependencies]\n'); common.write(d + "/package.json", '{"name":"x"}')
    r = common.generate(["-s", "rig.prot", "-wf", "rig.workflow"] + args, d)
    if not common.gen_ok(r): return None, (r.stdout + r.stderr)[-1500:]
    return d, None

def sync(src, dst):
    """Make dst hold exactly the files of src, touching only what differs."""
    want = set()
    for root, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(root, f), src); want.add(rel)
            common.write_if_changed(os.path.join(dst, rel), common.read(os.path.join(root, f)))
    for root, _, fs in os.walk(dst):
        for f in fs:
            if os.path.relpath(os.path.join(root, f), dst) not in want: os.unlink(os.path.join(root, f))

CARGO = """[package]
name = "%s"
version = "0.1.0"
edition = "2021"
[dependencies]
bytes = "=1.1.0"
clibri = "=0.1.7"
log = "0.4.14"
thiserror = "1.0.26"
async-trait = "0.1.51"
chrono = "0.4"
futures = "0.3.14"
tokio = { version = "=1.14.0", features = ["full", "test-util"] }
tokio-util = "0.6.7"
uuid = { version = "0.8.1", features = ["v4"] }
[patch.crates-io]
tokio = { path = "%s" }
[profile.release]
opt-level = 2
overflow-checks = true
debug = false
[profile.release.package."*"]
opt-level = 1
[workspace]
"""
def build(c, name, rig, gens, src="src"):
    """gens: [(directory below src, generated tree)]"""
    d = os.path.join(common.BUILD, "h-" + name)
    for sub, tree in gens: sync(tree, d + "/src/" + sub)
    for f in os.listdir(rig + "/" + src): common.write_if_changed(d + "/src/" + f, common.read(rig + "/" + src + "/" + f))
    common.write_if_changed(d + "/Cargo.toml", CARGO % (name, tokio()))
    lock = os.path.join(H, "Cargo.lock.rigs")
    if not os.path.exists(d + "/Cargo.lock") and os.path.exists(lock): shutil.copy(lock, d + "/Cargo.lock")
    r, exe = common.cargo_build(d, name, release=True, target="t-rigs")
    if r.returncode != 0:
        errs = r.stderr[r.stderr.find('error'):][:3000]
        if "offline" in errs and "could not compile" not in errs: raise common.CheckError(errs)
        c.violation("build", "the generated code does not compile with handlers written to its signatures:\n" + errs)
        return None
    return exe

def producer(c):
    rig = H + "/prod_rs"
    d, err = generate("prod", rig, rig + "/user", ["-pd", "p", "-cd", "c"])
    if err: c.violation("generate", "the workflow of the rig was not generated: " + err); return None
    return build(c, "prod_rs", rig, [("p", d + "/p")])

def run_family(c, exe, fam, rule):
    r = common.run([exe, fam, c.tier], timeout=850 if c.quick else 3400)
    if r.returncode != 0: raise common.CheckError("harness ended with %s: %s" % (r.returncode, r.stderr[-2000:]))
    stats = None
    for l in r.stdout.split("\n"):
        if l.startswith("BAD "):
            b = json.loads(l[4:])
            at = next((k for k, x in enumerate(b["log"]) if x.startswith(">>> ")), len(b["log"]))
            c.violation("script:" + b["cfg"] + b["script"] + str(b["choices"] if any(b["choices"]) else ""), "%s%s; inputs and what was observed, up to the first thing which is not allowed (or missing before it):\n%s" % (b["what"] and b["what"] + "; ", b["cfg"], "\n".join(b["log"][max(0, at - 25):at + 1])), b)
        elif l.startswith("SAMPLE "): c.sample(l[7:500])
        elif l.startswith("STATS "): stats = json.loads(l[6:])
    if not stats: raise common.CheckError("no statistics: " + r.stdout[-500:] + r.stderr[-500:])
    if stats["undecided"]: raise common.CheckError("%d runs were not decided by the model" % stats["undecided"])
    c.cov.update({"evaluations": stats["runs"], "distinct_nontrivial": stats["scripts"], "states": stats["observations"], "longest_script": stats["longest"], "exhaustive": True})
    c.cov["rule"] = rule + "; evaluations = executions of the real generated code (a script with one bounded choice of the channels served first), distinct_nontrivial = scripts, states = observations matched with the reference machine"

def family(fam, rule):
    def f(c):
        exe = producer(c)
        if exe: run_family(c, exe, fam, rule)
    return f
r01 = family("R01", "all sequences of handshake messages, requests, beacons, garbage, connects and disconnects of one and of two consumers, each settled, in one burst or in one chunk with the one before, under all strategies")
r02 = family("R02", "every request, outcome, recipient set and deferred action alone, pairs and triples of them from two consumers with disconnects and cut messages, in every joining")
r03 = family("R03", "every fault, every pair (thorough: triple) of faults in every joining before messages of another consumer, under every error strategy; connection handlers which fail")
r04 = family("R04", "all sequences of server events, application events and ends (shutdown with and without waiting, shutdown inside of handlers, transport ends) with running handlers, every choice of the channel served first within the deviation bound")
r05 = family("R05", "all sequences of identity operations (keys of handshake, merging and overwriting of both keys by handlers of any consumer or event) over two consumers under all identification strategies")
r06 = family("R06", "every beacon and event with every outcome, recipient set and action, pairs and triples of them with connects and disconnects in every joining")

def consumer(c):
    rig = H + "/cons_rs"
    d, err = generate("cons", rig, rig + "/user", ["-cd", "p", "-pd", "c"])
    if err: c.violation("generate", "the workflow of the rig was not generated: " + err); return None
    return build(c, "cons_rs", rig, [("c", d + "/p")])
def cfamily(fam, rule):
    def f(c):
        exe = consumer(c)
        if exe: run_family(c, exe, fam, rule)
    return f
n01_ = cfamily("N01", "every call kind with every kind of answer, all sequences of up to three calls, their answers, broadcasts, strays and garbage in every joining, handlers which wait or call")
def n01(c):
    exe = consumer(c)
    if not exe: return
    r = common.run([exe, "MARATHON", c.tier], timeout=600)
    for l in r.stdout.split("\n"):
        if l.startswith("BROKEN "): c.violation("marathon", "200 calls stay open while others are made and answered one by one, until counters of 16 bits have wrapped: " + l[7:])
    m = re.search(r"^CALLS (\d+)", r.stdout, re.M)
    if not m and "BROKEN" not in r.stdout: raise common.CheckError("long session: %s %s" % (r.returncode, r.stderr[-1000:]))
    n01_(c)
    if m: c.cov["calls_of_the_long_session"] = int(m.group(1))
n02 = cfamily("N02", "all sequences of calls, answers, timeouts and abandonments (at every turn of the scheduler) of one and two calls, each followed by a further call and a broadcast")
n03 = cfamily("N03", "all sequences of producer-side inputs before, during and after the handshake in every joining")
n04 = cfamily("N04", "all sequences of ends (lost connection, shutdown by the application and by handlers, failing transport) and calls at every point of the handshake and of a session, second sessions after a reconnection, under every option setting")
