"""T01-T05: the generated TypeScript producer and consumer, run script by script under Node and compared with a reference machine."""
import json, os, shutil
from . import common
from .checks_prod import generate, H
ALIAS = "--alias:clibri=" + H + "/ts_stub/clibri.ts"
SHARDS = 8

def bundle(c, kind, main="main"):
    """Generate both sides of the rig, bundle its harness with them. Returns the script or None (a violation was reported)."""
    rig = H + "/" + kind; user = rig + "/user"
    d, err = generate(kind, rig, user if os.path.isdir(user) else None, ["-pd", "p", "-cd", "c"])
    if err: c.violation("generate", "the workflow of the rig was not generated: " + err); return None
    for f in os.listdir(rig):
        if f.endswith(".ts"): shutil.copy(rig + "/" + f, d)
    r = common.esbuild(d + "/%s.ts" % main, d + "/main.js", extra=[ALIAS])
    if r.returncode != 0: c.violation("build", "the generated code cannot be bundled with code written to its interfaces:\n" + r.stderr[:3000]); return None
    return d + "/main.js"

def explore(c, js, rule, family=""):
    def shard(k):
        r = common.run(["node", "--max-old-space-size=3000", js, c.tier, str(k), str(SHARDS), family], timeout=850 if c.quick else 3500)
        if r.returncode != 0: raise common.CheckError("harness ended with %s: %s" % (r.returncode, (r.stdout[-500:] + r.stderr[-2000:])))
        return r.stdout
    total, bad = None, []
    for out in common.pmap(shard, range(SHARDS)):
        stats = None
        for l in out.split("\n"):
            if l.startswith("BAD "): bad.append(json.loads(l[4:]))
            elif l.startswith("SAMPLE "): c.sample(l[7:500])
            elif l.startswith("STATS "): stats = json.loads(l[6:])
        if not stats: raise common.CheckError("no statistics: " + out[-1000:])
        if total is None: total = stats
        else: total = {k: max(v, stats[k]) if k == "longest" else v + stats[k] for k, v in total.items()}
    if total["undecided"]: raise common.CheckError("%d runs were not decided by the model" % total["undecided"])
    for b in sorted(bad, key=lambda b: (b["len"], len(b["script"])))[:40]:
        at = next((k for k, x in enumerate(b["log"]) if x.startswith(">>> ")), len(b["log"]))
        c.violation("script:" + b["cfg"] + b["script"], "%s%s; inputs and what was observed, up to the first thing which is not allowed (or missing before it):\n%s" % (b["what"] and b["what"] + "; ", b["cfg"], "\n".join(b["log"][max(0, at - 25):at + 1])), b)
    c.cov.update({"evaluations": total["runs"], "distinct_nontrivial": total["scripts"], "states": total["observations"], "longest_script": total["longest"], "exhaustive": True})
    c.cov["rule"] = rule + "; evaluations = scripts executed on the real generated code, states = observations matched with the reference machine"

def t02(c):
    js = bundle(c, "cons_ts")
    if not js: return
    r = common.run(["node", js, c.tier, "0", "1", "MARATHON"], timeout=600)
    for l in r.stdout.split("\n"):
        if l.startswith("BROKEN "): c.violation("marathon", "200 calls stay open while others are made and answered one by one, until counters of 16 bits have wrapped: " + l[7:])
        elif l.startswith("CALLS "): c.cov["calls_of_the_long_session"] = int(l[6:])
    if "BROKEN" not in r.stdout and "CALLS" not in r.stdout: raise common.CheckError("long session: %s %s" % (r.returncode, r.stderr[-1000:]))
    explore(c, js, "all sequences of handshake messages, requests and beacons of every kind, right, wrong and unexpected answers, broadcasts, strays, garbage, lost connections, transport failures, repeated and abandoned requests, in every joining (settled, at once, same chunk, after 1-5 turns of the microtask queue)")
PRODUCER = "all sequences of %s of two consumers, in every joining (settled, at once, same chunk, after some turns of the microtask queue), under every strategy of answering"
def producer(c, family, what):
    js = bundle(c, "prod_ts")
    if js: explore(c, js, PRODUCER % what, family)
def t01(c): producer(c, "T01", "connections, handshake messages, requests with every outcome and completions of handlers")
def t03(c): producer(c, "T03", "connections, handshake messages, assignments, changes of own and foreign keys, disconnections")
def t04(c): producer(c, "T04", "connections, messages, garbage, faults of transport and handlers, beacons, application events, shutdown and destruction")
def t05(c):
    js = bundle(c, "cons_ts", "glob")
    if js: explore(c, js, "all sequences of up to %d creations (as the consumer of the application or not), waits, their withdrawals, destructions, connections and calls with and without a named consumer" % (5 if c.quick else 6))
