#!/usr/bin/env python3
"""plant.py LIST.py [regex]: for each planted bug of the list, confirm in a scratch copy that it builds,
passes the stable tests, and that its demonstration tells it from the unchanged tree; keep it in seeded/.

LIST.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=rust main, needs, breaks)]."""
import sys, os, re, json, shutil, subprocess, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("PLANT_SCRATCH", "/tmp/scratch/plant")
DEMO_SH = '''#!/bin/bash
# Builds demo.rs against the crate in the working directory and runs it: 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
serde_json_path = { path = "$repo/serde_json_path"@FEAT@ }
serde_json_path_core = { path = "$repo/serde_json_path_core" }
serde_json = "1"
@DEPS@[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
cd "$t" && cargo @CMD@ -q --offline
'''


def sh(c, cwd=None, t=900):
    return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=cwd, timeout=t)


def main():
    sp = importlib.util.spec_from_file_location("l", sys.argv[1])
    L = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(L)
    rx = sys.argv[2] if len(sys.argv) > 2 else ""
    os.makedirs(SCR, exist_ok=True)
    R = SCR + "/repo"
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base if isinstance(base, list) else base.get("pass") or base.get("passed") or base.get("tests")
    for s in L.SEEDS:
        if rx and not re.search(rx, s["id"]):
            continue
        if not os.path.exists(R):
            sh("cp -a /repo " + R)
        sh("rsync -a --delete --exclude target --exclude .git /repo/ %s/" % R)
        sh("find %s/serde_json_path_macros -name '*.rs' | xargs touch" % R)
        sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R))
        D = SCR + "/d/" + s["id"]
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)
        txt = DEMO_SH.replace("@FEAT@", s.get("feat", "")).replace("@DEPS@", s.get("deps", "")).replace("@CMD@", s.get("cmd", "run"))
        open(D + "/demo.sh", "w").write(s.get("demo_sh") or txt)
        os.chmod(D + "/demo.sh", 0o755)
        if s.get("demo"):
            open(D + "/demo.rs", "w").write(s["demo"])
        for n, c in s.get("files", {}).items():
            open(D + "/" + n, "w").write(c)
        bad = None
        if not s.get("nocheck"):
            a = sh("bash %s/demo.sh" % D, cwd=R)
            if a.returncode != 0:
                print(s["id"], "DEMO FAILS UNCHANGED", a.stdout[-500:], a.stderr[-1500:])
                continue
        for f, o, n in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            if t.count(o) < 1:
                bad = "edit does not apply: " + o[:80]
                break
            open(p, "w").write(t.replace(o, n, 1))
        if bad:
            print(s["id"], bad)
            continue
        diff = sh("git diff", cwd=R).stdout
        open(D + "/patch.diff", "w").write(diff)
        r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --exact --skip compliance_test_suite 2>&1", cwd=R)
        bad = re.findall(r"^test (.*) \.\.\. FAILED", r.stdout, re.M)
        n = len(re.findall(r"^test (.*) \.\.\. ok", r.stdout, re.M))
        if bad or "error" in r.stdout and n < 101:
            print(s["id"], "TESTS", bad, n, "" if bad else r.stdout[-1500:])
            continue
        b = sh("bash %s/demo.sh" % D, cwd=R)
        if b.returncode == 0:
            print(s["id"], "DEMO PASSES WITH PATCH")
            continue
        K = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(K, ignore_errors=True)
        shutil.copytree(D, K)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(K + "/meta.json", "w"), indent=1)
        print(s["id"], "kept; ok tests", n, "; demo:", (b.stdout + b.stderr).strip().splitlines()[-1:][:1])
        sys.stdout.flush()


main()
