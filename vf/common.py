"""Shared driver code: building the CLI, running generators and harnesses, reporting."""
import atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
NODE_MODULES = "/opt/veriftools/node/node_modules"
CORES = 8

def env(extra=None):
    e = dict(os.environ)
    e.update({"RUSTUP_TOOLCHAIN": "1.75.0", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never",
              "RUST_BACKTRACE": "0", "CARGO_INCREMENTAL": "0"})
    e.pop("RUSTFLAGS", None)
    if extra: e.update(extra)
    return e

class CheckError(Exception):
    """The machinery could not do its job (never a verdict)."""

def run(cmd, cwd=None, timeout=600, extra_env=None, input=None, check=False):
    r = subprocess.run(cmd, cwd=cwd, env=env(extra_env), input=input, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if check and r.returncode != 0:
        raise CheckError("%s failed (%d):\n%s\n%s" % (cmd, r.returncode, r.stdout[-3000:], r.stderr[-6000:]))
    return r

_cli = None
def cli():
    """Build the generator from /repo's working tree, return the path of the binary."""
    global _cli
    if _cli: return _cli
    tgt = os.path.join(BUILD, "cli")
    r = run(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", REPO + "/cli/Cargo.toml"],
            extra_env={"CARGO_TARGET_DIR": tgt}, timeout=800)
    if r.returncode != 0:
        raise CheckError("the CLI does not build:\n" + r.stderr[-6000:])
    _cli = os.path.join(tgt, "release", "clibri")
    return _cli

_scratch = None
def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "tmp")
        os.makedirs(base, exist_ok=True)
        try:   # memory is many times faster for thousands of small files
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize > 4 << 30 and os.access("/dev/shm", os.W_OK): base = "/dev/shm"
        except OSError: pass
        _scratch = tempfile.mkdtemp(prefix="vf-", dir=base)
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return _scratch

def fresh(name):
    d = os.path.join(scratch(), name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: f.write(text)

def write_if_changed(path, text):
    try:
        if open(path).read() == text: return False
    except OSError: pass
    write(path, text); return True

def read(path):
    with open(path, errors="replace") as f: return f.read()

def pmap(fn, items, workers=CORES):
    with ThreadPoolExecutor(workers) as ex: return list(ex.map(fn, items))

_js = None
def gen_ok(r):
    """True when the generator reported success (older versions exit with 0 on errors, so the last line counts too)."""
    out = [l for l in r.stdout.strip().split("\n") if l.strip()]
    return r.returncode == 0 and bool(out) and out[-1].startswith("[OK]")

def generate(args, cwd, timeout=60):
    return run([cli()] + args, cwd=cwd, timeout=timeout)

def esbuild(entry, out, extra=None, node_path=None, timeout=120):
    e = {}
    if node_path: e["NODE_PATH"] = node_path
    r = run([NODE_MODULES + "/.bin/esbuild", entry, "--bundle", "--platform=node", "--format=cjs", "--target=node18",
             "--log-level=error", "--outfile=" + out] + (extra or []), extra_env=e, timeout=timeout)
    return r

def rmtree(p): shutil.rmtree(p, ignore_errors=True)

# ------------------------------------------------------------------ cargo harness crates
def cargo_build(crate, name, timeout=850, release=False, target=None, toolchain=None):
    """Build crate dir `crate`; the target directory is shared between runs of the same harness."""
    tgt = os.path.join(BUILD, target or ("t-" + name))
    cmd = ["cargo", "build", "--offline", "--manifest-path", crate + "/Cargo.toml"]
    if release: cmd.append("--release")
    r = run(cmd, extra_env={"CARGO_TARGET_DIR": tgt}, timeout=timeout)
    return r, os.path.join(tgt, "release" if release else "debug", name)

# ------------------------------------------------------------------ reporting
class Check:
    def __init__(self, pid, tier, level, seed=None):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
        self.t0 = time.time()
        self.violations, self.known, self.cov, self.samples = [], [], {}, []
        self.assumptions = []
        self.quick = tier != "thorough"
        self.findings = load_findings(pid)

    def sample(self, s, limit=12):
        if len(self.samples) < limit: self.samples.append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, key, text, replay=None):
        """key: a stable identification of the failing input/site/history, matched against the known findings."""
        for f in self.findings:
            if re.fullmatch(f["match"], key):
                if f not in [k[0] for k in self.known]:
                    self.known.append((f, key))
                return False
        if any(v[0] == key for v in self.violations): return True
        self.violations.append((key, text, replay))
        return True

    def elapsed(self): return time.time() - self.t0

    def finish(self):
        ev = {"property": self.pid, "tier": "thorough" if not self.quick else "quick", "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov), "wall_s": round(self.elapsed(), 2), "violations": len(self.violations)}
        ev["coverage"]["samples"] = self.samples or ["(none)"]
        if self.assumptions: ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        for f, key in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        for k in sorted(self.cov):
            if isinstance(self.cov[k], (int, float, str, bool)): print("  %s: %s" % (k, self.cov[k]))
        if self.violations:
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
            for n, (key, text, replay) in enumerate(self.violations[:8]):
                path = os.path.join(d, "%s-%d.json" % (self.pid, n))
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": text, "replay": replay}, f, indent=1, default=str)
                print("  " + key + ": " + str(text)[:1500].replace("\n", "\n    "))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            if len(self.violations) > 8: print("  ... and %d more" % (len(self.violations) - 8))
            print("%s: %d violation(s) in %.1fs" % (self.pid, len(self.violations), self.elapsed()))
            return 1
        print("%s: held on everything explored (%.1fs)" % (self.pid, self.elapsed()))
        return 0

def load_findings(pid):
    """known-findings.txt: lines 'finding: property=ID match=<regex> what=<text>'; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p): return out
    for l in open(p):
        m = re.match(r"finding: property=(\S+) match=(\S+) what=(.*)", l.strip())
        if m and m.group(1) == pid: out.append({"match": m.group(2), "what": m.group(3)})
    return out
