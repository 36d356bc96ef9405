#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decides one property from /repo's current source.

Exit 0: nothing violates the property.  Exit 1 with a VIOLATION line: a construct does."""
import sys, os, json, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.setrecursionlimit(40000)
import threading
threading.stack_size(512 << 20)

VERIF = os.path.dirname(os.path.abspath(__file__))


def run(pid, tier):
    import load, ctx, registry
    t0 = time.time()
    entry = registry.CHECKS[pid]
    configs = [None]
    if tier == "thorough":
        configs += entry.get("configs", [])
    viol, stats, samples, undecided = [], dict(obligations=0, holds=0, undecided=0, known=0, cases=0), [], []
    analysed, constructs = set(), {}
    for cfg in configs:
        name = "default features" if cfg is None else "features: " + (",".join(cfg) or "none")
        try:
            if entry.get("raw"):
                cx = entry["raw"](tier)
            else:
                cx = ctx.Ctx(features=cfg, spec=entry.get("spec", True), tier=tier, extra=entry.get("extra", ()))
        except load.LoadError as e:
            viol.append(("build", "the tree cannot be analysed: " + str(e), None, None))
            continue
        for fn in entry["fns"]:
            try:
                fn(cx)
            except ctx.Missing as e:
                cx.obls.append(ctx.Obl("anchor", "violated", "required construct not found: " + str(e)))
            except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError) as e:
                tb = traceback.format_exc(limit=-3)
                cx.obls.append(ctx.Obl(getattr(fn, "__name__", "?"), "undecided", "analysis gave up: " + tb[-600:]))
            except Exception as e:
                cx.obls.append(ctx.Obl(getattr(fn, "__name__", "?"), "undecided",
                                       "construct outside the models: %s: %s" % (type(e).__name__, e)))
        for o in cx.obls:
            stats["obligations"] += 1
            stats["cases"] += o.cases
            tag = o.id if cfg is None else "[%s] %s" % (name, o.id)
            if o.known:
                stats["known"] += 1
                viol.append((tag, o.text, o.where, o.known))
            elif o.verdict == "holds":
                stats["holds"] += 1
                samples.append({"obligation": tag, "where": o.where})
            elif o.verdict == "undecided":
                stats["undecided"] += 1
                undecided.append({"obligation": tag, "where": o.where, "why": o.text[-1500:]})
            else:
                viol.append((tag, o.text, o.where, None))
        analysed |= cx.analysed()
        for k, v in cx.counts.items():
            constructs[k] = constructs.get(k, 0) + v
    # known findings: identified by the finding the construct was recognised as
    listed = {x["id"]: x for x in ctx.known_findings() if x["property"] == pid}
    fresh = []
    for v in viol:
        if v[3] and all(k in listed for k in v[3]):
            for k in v[3]:
                print("KNOWN-FINDING: property=%s %s: %s: %s" % (pid, k, v[0], listed[k]["what"]))
        else:
            fresh.append(v)
    cov = {
        "explanation": entry["rule"],
        "functions_analysed": len(analysed),
        "obligations": stats["obligations"],
        "obligations_hold": stats["holds"],
        "obligations_meeting_known_findings": stats["known"],
        "obligations_undecided": stats["undecided"],
        "cases_compared": stats["cases"],
        "constructs": constructs,
        "samples": samples[:60],
        "undecided": undecided[:40],
        "functions": sorted(analysed)[:400],
        "configurations": ["default features" if c is None else ",".join(c) or "no features" for c in configs],
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "violations": len(fresh), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.environ.get("SJP_EVID") or os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(os.environ.get("SJP_EVID") or os.path.join(VERIF, "evidence"), pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d hold, %d undecided, %d violated; %d functions analysed (%.1f s)" % (
        pid, stats["obligations"], stats["holds"], stats["undecided"], len(fresh), len(analysed), time.time() - t0))
    for u in undecided:
        print("  undecided: %s: %s" % (u["obligation"], u["why"][-800:]))
    if fresh:
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".txt")
        with open(path, "w") as f:
            for tag, text, where, _ in fresh:
                f.write("property %s\nrule: %s\nconstruct: %s\nat: %s\nviolation: %s\n\n" % (
                    pid, entry["rule"], tag, where, text))
        for tag, text, where, _ in fresh[:10]:
            print("  violated: %s (%s): %s" % (tag, where, text[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        import load
        load.driver_path()
        return
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    out = []

    def body():
        try:
            out.append(run(pid, tier))
        except Exception:
            traceback.print_exc()
            out.append(2)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0])


main()
