#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/ from the edits and demonstrations below.
usage: bugs.py [id ...]   (all when none given)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "../../seeded")
I = "solana-program/src/instructions/"
P = "solana-program/src/"
C = "rust-client/src/"
BUGS = []
def bug(id, prop, edits, needs, breaks, main, kind="core"):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, kind=kind))
exec(open(os.path.join(HERE, "list.py")).read())

def write(b):
    d = os.path.join(OUT, b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = "/tmp/plant-wt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("PLANT_REPO", "/repo"), wt], check=True)
    for f, old, new in b["edits"]:
        s = open(f"{wt}/{f}").read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(f"{wt}/{f}", "w").write(s.replace(old, new))
    patch = subprocess.run(["git", "-C", wt, "diff"], check=True, capture_output=True, text=True).stdout
    shutil.rmtree(wt)
    open(f"{d}/patch.diff", "w").write(patch)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/meta.json", "a").write("\n")
    if b["kind"] == "js":
        shutil.copy(f"{HERE}/demo_js.sh", f"{d}/demo.sh")
        os.chmod(f"{d}/demo.sh", 0o755)
        for f in ("bundle.mjs", "kit.mjs", "token.mjs"):
            shutil.copy(f"{HERE}/../../sim/js/{f}", f"{d}/{f}")
        shutil.copy(f"{HERE}/js_kit.mjs", f"{d}/world.mjs")
        names = "X, accounts, node, rpc, put, TOKEN, ORCA, XORCA, PROGRAM, check, pool, claim, bs58, getProgramDerivedAddress"
        open(f"{d}/main.mjs", "w").write(f"import {{ {names} }} from './world.mjs';\n" + b["main"].strip("\n") + "\n")
        return
    if b["kind"] == "ts":
        shutil.copy(f"{HERE}/demo_ts.sh", f"{d}/demo.sh")
        os.chmod(f"{d}/demo.sh", 0o755)
        for f in ("bundle.mjs", "kit.mjs", "token.mjs", "web3.mjs", "spl.mjs", "irys.mjs", "disk.mjs"):
            shutil.copy(f"{HERE}/../../sim/js/{f}", f"{d}/{f}")
        shutil.copy(f"{HERE}/ts_kit.mjs", f"{d}/world.mjs")
        names = "key, wallet, files, accounts, token, setBalance, supply, pool, claim, ata, node, clock, disk, publicOf, run, check, ORCA, XORCA, VAULT"
        open(f"{d}/main.mjs", "w").write(f"import {{ {names} }} from './world.mjs';\n" + b["main"].strip("\n") + "\n")
        return
    shutil.copy(f"{HERE}/demo.sh", f"{d}/demo.sh")
    os.chmod(f"{d}/demo.sh", 0o755)
    shutil.copy(f"{HERE}/rt/{b['kind']}.tar.gz", f"{d}/rt.tar.gz")
    open(f"{d}/main.rs", "w").write("mod kit;\nuse kit::*;\n" + b["main"].strip("\n") + "\n")
for b in BUGS:
    if len(sys.argv) == 1 or b["id"] in sys.argv[1:]:
        write(b)
        print(b["id"])
