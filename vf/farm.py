"""Running the command line over many small inputs, in worker processes with a directory each."""
import os, subprocess, shutil, multiprocessing as mp, collections
from . import common

def _init(cli, base):
    global CLI, DIR, ENV
    CLI = cli; DIR = os.path.join(base, "w%d" % os.getpid()); ENV = common.env()
    os.makedirs(DIR, exist_ok=True)

def reset(d):
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)

def clibri(args, cwd, timeout=20):
    try: r = subprocess.run([CLI] + args, cwd=cwd, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: return "timeout", "", ""
    return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")

def ok(rc, out):
    ls = [l for l in out.strip().split("\n") if l.strip()]
    return rc == 0 and bool(ls) and ls[-1].startswith("[OK]")

def gen(text, rs=True, ts=True, em=False):
    """Generate from a protocol text in this worker's directory: (accepted, files {name: text}, what the command said)."""
    files = {"p.rs": None, "p.ts": None}
    for f in files:
        try: os.unlink(os.path.join(DIR, f))
        except OSError: pass
    with open(os.path.join(DIR, "x.prot"), "w", newline="") as f: f.write(text)
    a = ["--src", "x.prot"] + (["-rs", "p.rs"] if rs else []) + (["-ts", "p.ts"] if ts else []) + (["--em"] if em else [])
    rc, out, err = clibri(a, DIR)
    for f in files:
        try: files[f] = open(os.path.join(DIR, f)).read()
        except OSError: pass
    return ok(rc, out), files, "exit status %s: %s %s" % (rc, out[-300:], err[-300:])

def run(fn, items, chunk=32, procs=common.CORES):
    """fn(item) in worker processes, results in order."""
    cli = common.cli(); base = common.fresh("farm-%d" % len(os.listdir(common.scratch())))
    with mp.Pool(procs, _init, (cli, base)) as pool: return pool.map(fn, items, chunk)
