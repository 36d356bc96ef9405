#!/usr/bin/env python3
"""seedrun.py [regex]: apply each planted bug to a scratch copy and run its property's check there."""
import sys, os, re, json, subprocess, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def worker(w, ids):
    R = "/tmp/scratch/sr%d" % w
    out = []
    if not os.path.exists(R):
        sh("mkdir -p %s && rsync -a --exclude target /repo/ %s/" % (R, R))
    for i in ids:
        sh("rsync -a --delete --exclude target /repo/ %s/" % R)
        a = sh("git -C %s apply %s/seeded/%s/patch.diff" % (R, V, i))
        sh("find %s/serde_json_path_macros -name '*.rs' | xargs touch" % R)
        p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
        if a.returncode:
            print(i, "PATCH DOES NOT APPLY")
            continue
        env = dict(os.environ, SJP_REPO=R, SJP_WARM="/tmp/scratch/srw%d" % w, SJP_EVID="/tmp/scratch/evid%d" % w)
        r = sh("python3 %s/check.py %s" % (V, p), env=env)
        v = [l for l in r.stdout.splitlines() if l.startswith("  violated")]
        ok = r.returncode == 1 and "VIOLATION property=" + p in r.stdout
        print(i, p, "caught" if ok else "MISSED rc=%d" % r.returncode, (v[0][:160] if v else r.stdout[-600:] + r.stderr[-500:]))
        sys.stdout.flush()
    return out


def main():
    rx = sys.argv[1] if len(sys.argv) > 1 else ""
    ids = sorted(d for d in os.listdir(V + "/seeded") if re.search(rx, d))
    n = min(4, len(ids))
    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda w: worker(w, ids[w::n]), range(n)))


main()
