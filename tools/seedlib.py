def rs(prot, main):
    """Demo: generate Rust code from prot, run main against it (assertions)."""
    return {"demo.sh": """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
mkdir $tmp/src; cp "$here/x.prot" $tmp/; cp "$here/main.rs" $tmp/src/
cp $repo/tests/protocol/rust/Cargo.lock $tmp/Cargo.lock
cat > $tmp/Cargo.toml <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bytes = "1.1.0"
[workspace]
X
cd $tmp
$repo/cli/target/release/clibri --src x.prot -rs src/p.rs -o --em | tail -1 | grep -q OK || { echo "generation failed"; exit 3; }
CARGO_TARGET_DIR=$tmp/target timeout 250 cargo run --offline -q
""", "x.prot": prot, "main.rs": "#[allow(warnings)]\nmod p;\n" + main}

def ts(prot, main):
    return {"demo.sh": """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp "$here/x.prot" "$here/main.ts" $tmp/
cd $tmp
$repo/cli/target/release/clibri --src x.prot -ts p.ts -o --em | tail -1 | grep -q OK || { echo "generation failed"; exit 3; }
/opt/veriftools/node/node_modules/.bin/esbuild main.ts --bundle --platform=node --format=cjs --log-level=error --outfile=main.js || exit 4
timeout 100 node main.js
""", "x.prot": prot, "main.ts": main}

import os
H = "/verif/harness/"; K = "/verif/tools/kits/"
def _read(p): return open(p).read()
RUN = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
. /opt/vp/env.sh 2>/dev/null
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp -r "$here/src" "$here/gen" $tmp/; cp "$here/Cargo.toml" "$here/Cargo.lock" $tmp/
cd $tmp/gen
printf '[package]\\nname = "x"\\nversion = "0.1.0"\\n[dependencies]\\n' > Cargo.toml
$repo/cli/target/release/clibri -s rig.prot -wf rig.workflow %s | tail -1 | grep -q OK || { echo "generation failed"; exit 3; }
cd $tmp; mv gen/%s src/%s; rm -rf gen/*
CARGO_TARGET_DIR=$tmp/target timeout 280 cargo run --offline -q
"""
CARGO = """[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bytes = "=1.1.0"
clibri = "=0.1.7"
log = "0.4.14"
thiserror = "1.0.26"
async-trait = "0.1.51"
chrono = "0.4"
futures = "0.3.14"
tokio = { version = "=1.14.0", features = ["full", "test-util"] }
tokio-util = "0.6.7"
uuid = { version = "0.8.1", features = ["v4"] }
[workspace]
"""
def _lock():
    return _read(K + "Cargo.lock.demo")
def _tree(src, dst):
    out = {}
    for root, _, fs in os.walk(src):
        for f in fs: out[dst + "/" + os.path.relpath(root + "/" + f, src).replace("./", "")] = _read(root + "/" + f)
    return out
def _rust(rig, side, sub, args, kit, main):
    f = {"demo.sh": RUN % (args, side, sub), "Cargo.toml": CARGO, "Cargo.lock": _lock(), "src/main.rs": _read(K + kit) + main,
         "src/rig.rs": _read(H + rig + "/src/rig.rs"), "src/stub.rs": _read(H + rig + "/src/stub.rs"), "gen/rig.prot": _read(H + rig + "/rig.prot"), "gen/rig.workflow": _read(H + rig + "/rig.workflow")}
    f.update(_tree(H + rig + "/user", "gen/" + side))
    return f
def rsprod(main): return _rust("prod_rs", "p", "p", "-pd p -cd c", "rsprod.rs", main)
def rscons(main): return _rust("cons_rs", "p", "c", "-cd p -pd c", "rscons.rs", main)
# The TypeScript demos: what runs a script of inputs in the rigs, without the reference machine.
RUNTS = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
cp -r "$here"/*.ts "$here/gen" $tmp/
cd $tmp/gen
printf '[package]\\nname = "x"\\nversion = "0.1.0"\\n[dependencies]\\n' > Cargo.toml; echo '{"name":"x"}' > package.json; mkdir -p p
$repo/cli/target/release/clibri -s rig.prot -wf rig.workflow -pd p -cd c | tail -1 | grep -q OK || { echo "generation failed"; exit 3; }
cd $tmp; mv gen/p gen/c .; rm -rf gen
/opt/veriftools/node/node_modules/.bin/esbuild main.ts --bundle --platform=node --format=cjs --target=node18 --log-level=error --alias:clibri=./clibri.ts --outfile=main.js || exit 4
timeout 100 node main.js
"""
def _ts(rig, main, extra):
    code = _read(H + rig + "/main.ts").split("// ---------------------------------------------------------------- the reference machine")[0]
    f = {"demo.sh": RUNTS, "clibri.ts": _read(H + "ts_stub/clibri.ts"), "main.ts": code + extra + main, "gen/rig.prot": _read(H + rig + "/rig.prot"), "gen/rig.workflow": _read(H + rig + "/rig.workflow")}
    if os.path.exists(H + rig + "/rig.ts"): f["rig.ts"] = _read(H + rig + "/rig.ts")
    if os.path.isdir(H + rig + "/user"): f.update(_tree(H + rig + "/user", "gen/p"))
    return f
HELP = '''
const assert = (x: boolean, what: string) => { if (!x) { console.log("FAILED: " + what); process.exitCode = 1; } };
const recv = (...x: any[]): Input => ({ k: "recv", items: [x] });
'''
HELPP = '''
const assert = (x: boolean, what: string) => { if (!x) { console.log("FAILED: " + what); process.exitCode = 1; } };
const conf = (ident: number, err: number, more: any = {}): Cfg => Object.assign({ ident, err, con: [0, 0, 0], dis: [0, 2, 0], herr: 0, lag: "" }, more);
let count = 0;
const recv = (u: string, ...x: any[]): Input => ({ k: "recv", u, items: [x], no: [count += 1] });
const join = (u: string): Input[] => [{ k: "conn", u }, recv(u, "key", Number(u.slice(1)), null), recv(u, "hash", 0)];
const app = (kind: number, out: number, to: number, act: number): Input => ({ k: "app", app: [kind, out, to, act], no: [count += 1] });
async function play(c: Cfg, list: Input[], how: Join = "Q"): Promise<string[]> { const [, log] = await exec(c, list.map((x) => [how, x] as Step)); return log.map((x) => JSON.stringify(x)); }
'''
def tsprod(main): return _ts("prod_ts", main, HELPP)
def tscons(main): return _ts("cons_ts", main, HELP + 'async function play(list: Input[], how: Join = "Q"): Promise<string[]> { const [, log] = await exec(list.map((x) => [how, x] as Step)); return log.map((x) => JSON.stringify(x)); }\n')
def tsglob(main):
    f = _ts("cons_ts", main, ""); f["main.ts"] = _read(H + "cons_ts/glob.ts").split("/** What has to be seen")[0] + main
    return f
