#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py, confirms it in a scratch copy of /repo.
usage: mkseed.py ID...        (development aid; no check uses it)"""
import sys, os, subprocess, shutil, json, runpy
SC = "/tmp/seedscratch"
DEMO = r'''#!/bin/bash
# cwd: /repo. Builds the program beside this file against /repo and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2023-11-04 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/tmp"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
{
  printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
  @DEPS@
} > "$d/Cargo.toml"
(cd "$d" && cargo build -q --offline@REL@) 2>"$d/log" || { tail -30 "$d/log"; echo "demo does not build"; exit 3; }
export TMPDIR="$d/tmp"
cd "$d/tmp"
timeout @TIMEOUT@ "$d/target/@PROF@/demo"
rc=$?
echo "demo exit $rc"
exit $rc
'''
DEPPATH = {"ipcbus": "crates/ipcbus", "linkspace-argon2-identity": "crates/argon2-identity", "linkspace-cryptography": "crates/cryptography"}
def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
def main(i):
    spec = runpy.run_path(f"/verif/tools/seeds/{i}.py")
    out = f"/verif/seeded/{i}"
    os.makedirs(out, exist_ok=True)
    if os.path.exists(SC): shutil.rmtree(SC)
    sh(f"cp -a /repo {SC}")
    for f, a, b in spec["EDITS"]:
        p = f"{SC}/{f}"; s = open(p).read()
        assert s.count(a) == 1, (i, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    d = sh(["git", "-C", SC, "diff"]).stdout
    open(f"{out}/patch.diff", "w").write(d)
    json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
    if "DEMO_SH" in spec:
        open(f"{out}/demo.sh", "w").write(spec["DEMO_SH"])
        for n, c in spec.get("FILES", {}).items(): open(f"{out}/{n}", "w").write(c)
    else:
        deps = "\n  ".join('echo "%s = { path = \\"$repo/%s\\" }"' % (n, DEPPATH[n]) if n in DEPPATH else 'echo \'%s\'' % n for n in spec["DEPS"])
        rel = spec.get("RELEASE", False)
        t = DEMO.replace("@DEPS@", deps).replace("@REL@", " --release" if rel else "").replace("@PROF@", "release" if rel else "debug").replace("@TIMEOUT@", str(spec.get("TIMEOUT", 120)))
        open(f"{out}/demo.sh", "w").write(t)
        open(f"{out}/main.rs", "w").write(spec["DEMO"])
        shutil.copy("/opt/vp/Cargo.lock", f"{out}/Cargo.lock")
    os.chmod(f"{out}/demo.sh", 0o755)
    # unchanged tree, then the changed copy
    a = sh(["bash", f"{out}/demo.sh"], cwd="/repo")
    b = sh(["bash", f"{out}/demo.sh"], cwd=SC)
    print(f"{i}: demo unchanged rc={a.returncode} changed rc={b.returncode}")
    if a.returncode != 0: print("  UNCHANGED:", a.stdout[-800:], a.stderr[-800:])
    if b.returncode == 0: print("  CHANGED PASSES:", b.stdout[-500:])
    if b.returncode == 3: print("  CHANGED build?:", b.stdout[-1500:])
    shutil.rmtree(SC)
for i in sys.argv[1:]: main(i)
