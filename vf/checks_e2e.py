"""E01: generated producers and consumers of both languages, joined by links which the harness delivers step by step."""
import json, os, shutil, subprocess
from . import common
from .checks_prod import H, build
from .checks_ts import ALIAS, SHARDS
RIG = H + "/e2e"

def generate(c, name, prot, wf, users=True):
    d = common.fresh("e2e-" + name)
    common.write(d + "/rig.prot", prot); common.write(d + "/rig.workflow", wf)
    if users:
        for side in ("p", "c"): shutil.copytree(RIG + "/user_" + side, d + "/" + side)
    common.write(d + "/Cargo.toml", '[package]\nname = "x"\nversion = "0.1.0"\n[dependencies]\n'); common.write(d + "/package.json", '{"name":"x"}')
    r = common.generate(["-s", "rig.prot", "-wf", "rig.workflow", "-cd", "c", "-pd", "p"], d)
    if not common.gen_ok(r): c.violation("generate", "the workflow of the rig was not generated: " + (r.stdout + r.stderr)[-1500:]); return None
    return d

def e01(c):
    prot, wf = common.read(RIG + "/rig.prot"), common.read(RIG + "/rig.workflow")
    own = generate(c, "own", prot, wf)
    other_prot = own and generate(c, "prot", prot.replace("struct Tick { u8 what; }", "struct Tick { u16 what; }"), wf)
    other_wf = other_prot and generate(c, "wf", prot, wf.replace("(ResA) > Bc;", "(ResA) > Bc?;"))
    other_ids = other_wf and generate(c, "ids", prot + "struct Later { u8 what; }\n", wf)
    if not other_ids: return
    consumers = (("c", own), ("c2", other_prot), ("c3", other_wf), ("c4", other_ids))
    gens = [("p", own + "/p/rust")]
    for sub, d in consumers: gens.append((sub, d + "/c/rust"))
    exe = build(c, "e2e", RIG, gens, src="rust")
    if not exe: return
    js = common.fresh("e2e-js")
    shutil.copytree(own + "/p/typescript", js + "/p/typescript")
    for sub, d in consumers: shutil.copytree(d + "/c/typescript", js + "/" + sub + "/typescript")
    for f in os.listdir(RIG):
        if f.endswith(".ts"): shutil.copy(RIG + "/" + f, js)
    r = common.esbuild(js + "/main.ts", js + "/main.js", extra=[ALIAS])
    if r.returncode != 0: c.violation("build", "the generated code cannot be bundled with code written to its interfaces:\n" + r.stderr[:3000]); return
    def shard(k):
        a, b = js + "/in%d" % k, js + "/out%d" % k
        os.mkfifo(a); os.mkfifo(b)
        agents = subprocess.Popen([exe, a, b], stderr=subprocess.DEVNULL, env=common.env())
        try: r = common.run(["node", js + "/main.js", c.tier, str(k), str(SHARDS), a, b], timeout=850 if c.quick else 3500)
        finally: agents.kill(); agents.wait()
        if r.returncode != 0: raise common.CheckError("harness ended with %s: %s" % (r.returncode, (r.stdout[-500:] + r.stderr[-2000:])))
        return r.stdout
    total = None; bad = []
    for out in common.pmap(shard, range(SHARDS)):
        stats = None
        for l in out.split("\n"):
            if l.startswith("BAD "): bad.append(json.loads(l[4:]))
            elif l.startswith("SAMPLE "): c.sample(l[7:500])
            elif l.startswith("STATS "): stats = json.loads(l[6:])
        if not stats: raise common.CheckError("no statistics: " + out[-1000:])
        total = stats if total is None else {k: max(v, stats[k]) if k == "longest" else v + stats[k] for k, v in total.items()}
    for b in sorted(bad, key=lambda b: b["len"])[:20]:
        c.violation("joint:" + b["scenario"]["name"] + ":" + b["what"], "%s (%s, choice %s); what came to the agents and what they did:\n%s" % (b["what"], b["scenario"]["name"], b["scenario"]["choose"], "\n".join(b["log"][-60:])), b)
    c.cov.update({"evaluations": total["runs"], "distinct_nontrivial": total["runs"], "transitions": total["steps"], "scenarios": total["scenarios"], "pruned": total["pruned"], "longest": total["longest"], "exhaustive": True})
    c.cov["rule"] = "every order in which inputs (connection at either side, buffers in either direction, calls, events, losses) reach one producer and one or two consumers, in every pairing of languages, up to commuting inputs of different agents (sleep sets), with up to the stated number of deviations (two inputs at once, joined or divided buffers); evaluations = complete executions of the real generated code"
