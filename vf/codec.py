"""Drivers of the generated codecs (Rust and TypeScript)."""
import json, os, shutil, hashlib
from . import common, schema
from .common import CheckError, VERIF, BUILD

def _key(s): return hashlib.sha1(s.prot().encode()).hexdigest()[:10]

class Rust:
    def __init__(self, s, name):
        self.s = s
        src = os.path.join(VERIF, "harness", "codec_rs")
        d = os.path.join(BUILD, "h-" + name)
        os.makedirs(d + "/src", exist_ok=True)
        common.write_if_changed(d + "/Cargo.toml", common.read(src + "/Cargo.toml"))
        shutil.copy(common.REPO + "/tests/protocol/rust/Cargo.lock", d + "/Cargo.lock") if not os.path.exists(d + "/Cargo.lock") else None
        for f in ("main.rs", "json.rs"): common.write_if_changed(d + "/src/" + f, common.read(src + "/src/" + f))
        g = common.fresh("gen-" + name)
        common.write(g + "/x.prot", s.prot())
        r = common.generate(["--src", "x.prot", "-rs", "p.rs", "-o", "--em"], g)
        if not common.gen_ok(r): raise CheckError("generation failed: %s %s" % (r.stdout, r.stderr))
        common.write_if_changed(d + "/src/p.rs", common.read(g + "/p.rs"))
        common.write_if_changed(d + "/src/bind.rs", s.rust_binding())
        r, self.bin = common.cargo_build(d, "codec_rs", target="t-" + name)
        if r.returncode != 0: raise CheckError("the Rust codec harness does not build:\n" + r.stderr[-5000:])

    def ops(self, ops, shards=common.CORES, timeout=700):
        return run_ops([self.bin], ops, shards, timeout)

class Ts:
    def __init__(self, s, name):
        self.s = s
        d = common.fresh("ts-" + name)
        common.write(d + "/x.prot", s.prot())
        r = common.generate(["--src", "x.prot", "-ts", "p.ts", "-o", "--em"], d)
        if not common.gen_ok(r): raise CheckError("generation failed: %s %s" % (r.stdout, r.stderr))
        shutil.copy(os.path.join(VERIF, "harness", "codec_ts", "main.ts"), d + "/main.ts")
        common.write(d + "/desc.json", json.dumps(s.desc()))
        r = common.esbuild(d + "/main.ts", d + "/main.js")
        if r.returncode != 0: raise CheckError("the TypeScript codec harness does not build:\n" + r.stderr[-5000:])
        self.dir = d

    def ops(self, ops, shards=common.CORES, timeout=700):
        return run_ops(["node", "--stack-size=4000", self.dir + "/main.js"], ops, shards, timeout, [self.dir + "/desc.json"])

def run_ops(cmd, ops, shards, timeout, tail=[]):
    """Run ops in parallel; returns results in order. A process which dies is reported in place of its first missing result."""
    d = common.scratch()
    shards = max(1, min(shards, len(ops)))
    parts = [list(range(k, len(ops), shards)) for k in range(shards)]
    def one(k):
        p = os.path.join(d, "ops-%d-%d.jsonl" % (id(ops) % 100000, k))
        with open(p, "w") as f:
            for i in parts[k]: f.write(json.dumps(ops[i]) + "\n")
        import subprocess
        try:
            r = subprocess.run(cmd + [p] + tail, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=common.env())
            out, rc, err = r.stdout, r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            out, rc, err = e.stdout or b"", "timeout", b""
        os.unlink(p)
        lines = out.decode("utf8", "replace").split("\n")
        res = [json.loads(l) for l in lines if l.endswith("}") or l.endswith("]") or l.endswith('"') or l == "null"]
        if len(res) < len(parts[k]):
            res.append({"died": "process ended (%s) %s" % (rc, err.decode("utf8", "replace")[-300:])})
            res += [{"died": "not run"}] * (len(parts[k]) - len(res))
        return res
    out = [None] * len(ops)
    for k, rs in enumerate(common.pmap(one, range(shards))):
        for i, r in zip(parts[k], rs): out[i] = r
    return out
