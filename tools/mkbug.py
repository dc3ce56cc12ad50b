#!/usr/bin/env python3
"""dev tool: mkbug.py FILE.py -- builds seeded/<id>/ from a description (BUGS list) after confirming, in a
scratch copy of /repo, that the change compiles, passes the stable tests and that the demo tells."""
import json, os, subprocess, sys, shutil
WT = "/tmp/mkbug_wt"
DEMO = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"
printf '[package]\\nname="demo"\\nversion="0.1.0"\\nedition="2024"\\n[workspace]\\n[dependencies]\\nneure={path="%s"}\\n' "$repo" > "$t/Cargo.toml"
CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q --manifest-path "$t/Cargo.toml"
'''
def sh(c, cwd=WT, t=600):
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, "timeout"
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if os.path.exists(WT): shutil.rmtree(WT)
    sh(f"cp -a /repo {WT}", cwd="/tmp")
    for b in ns["BUGS"]:
        sh("git checkout -- .")
        ok = True
        for f, old, new in b["edits"]:
            s = open(f"{WT}/{f}").read()
            n = s.count(old)
            if n != 1 and not b.get("nth"):
                print(b["id"], f, "matches", n); ok = False; break
            if b.get("nth") and n > 1:
                parts = s.split(old); k = b["nth"]
                s = old.join(parts[:k]) + new + old.join(parts[k:])
            else: s = s.replace(old, new)
            open(f"{WT}/{f}", "w").write(s)
        if not ok: continue
        rc, patch = sh("git diff")
        d = f"/verif/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        f = b.get("features")
        demo = DEMO if not f else DEMO.replace('neure={path="%s"}', 'neure={path="%s",features=["' + f[0] + '"]}' + "\\n" + f[0] + '="*"')
        open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(b["demo"])
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        rc, o = sh("(cargo test --offline --lib --tests; cargo test --offline --doc; cargo test --offline --no-default-features --lib --tests; cargo check --offline --features tracing; cargo check --offline --features log) 2>&1 | grep -E 'test result|FAILED|failed|^error' ")
        bad = "FAILED" in o or "error" in o
        r1, o1 = sh(f"bash {d}/demo.sh", cwd="/repo"); r2, o2 = sh(f"bash {d}/demo.sh", cwd=WT)
        good = not bad and r1 == 0 and r2 != 0
        print(b["id"], "OK" if good else "BAD", "tests-failed" if bad else "", r1, r2)
        if not good:
            for x in (o, o1, o2): print("   ", [l for l in x.splitlines() if "error" in l or "FAILED" in l or "panicked" in l][:4])
            shutil.rmtree(d)
    shutil.rmtree(WT)
main()
