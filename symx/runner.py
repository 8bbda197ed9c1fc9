"""Runs the harnesses of one property, writes evidence, prints the verdict."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("XPY_REPO", "/repo")


def setup_path():
    sys.dont_write_bytecode = True
    # never let the caller's directory shadow anything
    sys.path[:] = [p for p in sys.path if p not in ("", ".")]
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    for p in ("/opt/venv/lib/python3.12/site-packages",):
        if p not in sys.path:
            sys.path.append(p)


class H:
    """A harness: id, function(ctx), bounds."""

    def __init__(self, hid, fn, group="", max_paths=4000, max_seconds=100.0, tier="quick", weight=1):
        self.hid, self.fn, self.group = hid, fn, group
        self.max_paths, self.max_seconds, self.tier, self.weight = max_paths, max_seconds, tier, weight


_HARNESSES = []
_PROP = ""
_FOUND = mp.get_context("fork").Value("i", 0)
_START = time.monotonic()
_CACHE = {}


def _functions_used(fn, model):
    """Names of the /repo functions a concrete run of the harness executes."""
    from symx import engine

    seen = {}
    pref = os.path.join(REPO, "xpython")

    def prof(frame, ev, arg):
        if ev == "call":
            co = frame.f_code
            if co.co_filename.startswith(pref):
                seen[(os.path.relpath(co.co_filename, REPO), getattr(co, "co_qualname", co.co_name))] = 1

    old = sys.getprofile()
    sys.setprofile(prof)
    try:
        engine.replay(fn, model)
    finally:
        sys.setprofile(old)
    return ["%s:%s" % k for k in seen]


def _run_group(idxs):
    from symx import engine

    devnull = open(os.devnull, "w")
    real_out, real_err = sys.stdout, sys.stderr
    out = []
    for i in idxs:
        h = _HARNESSES[i]
        if _FOUND.value >= 60 and time.monotonic() - _START > 45 and not os.environ.get("SYMX_ALL"):
            # enough violations; the rest would only repeat them
            out.append(engine.Result(h.hid))
            out[-1].truncated.append("not run: the check had already failed")
            out[-1].nonvacuous = 1
            continue
        try:
            if not os.environ.get("SYMX_SHOW"):
                sys.stdout = sys.stderr = devnull
            r = engine.explore(h.hid, h.fn, h.max_paths, h.max_seconds)
            try:
                model = r.violations[0]["model"] if r.violations else (r.samples[0]["inputs"] if r.samples else {})
                r.functions = _functions_used(h.fn, model)
            except BaseException:  # noqa
                pass
        except BaseException as e:  # noqa
            r = engine.Result(h.hid)
            r.errors.append("crash: %s\n%s" % (e, traceback.format_exc()[-1500:]))
        finally:
            sys.stdout, sys.stderr = real_out, real_err
        out.append(r)
        found = _unlisted(_PROP, r)
        if found:
            with _FOUND.get_lock():
                _FOUND.value += found
    return out


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except FileNotFoundError:
        return []


def _unlisted(prop, r):
    """How many violations of a result known_findings.json does not list."""
    if not r.violations:
        return 0
    known = {(k["harness"], k["label"]) for k in load_known()
             if k.get("property") == prop and k.get("status", "known") == "known"}
    return sum((r.hid, v["label"]) not in known for v in r.violations)


def run_property(prop, harnesses, level="model_checking", assumptions=(), bounds="", argv=None):
    """Run all harnesses; returns exit code."""
    global _HARNESSES, _PROP
    _PROP = prop
    argv = sys.argv[1:] if argv is None else argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    only = [a for a in argv if not a.startswith("--")]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    hs = [h for h in harnesses if h.tier == "quick" or tier == "thorough"]
    if only:
        hs = [h for h in hs if any(o in h.hid for o in only)]
    if not hs:
        print("no harness selected")
        return 2
    ids = [h.hid for h in hs]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1][:3]
    _HARNESSES = hs
    groups = {}
    for i, h in enumerate(hs):
        groups.setdefault(h.group or h.hid, []).append(i)
    jobs = []
    for g, idxs in groups.items():
        # split big groups so that the cores are evenly used
        step = 12
        for k in range(0, len(idxs), step):
            jobs.append(idxs[k:k + step])
    jobs.sort(key=lambda j: -sum(hs[i].weight for i in j))
    results = []
    if os.environ.get("SYMX_SERIAL"):
        for j in jobs:
            results += _run_group(j)
    else:
        nproc = int(os.environ.get("SYMX_JOBS", "8"))
        with mp.get_context("fork").Pool(nproc, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(_run_group, jobs):
                results += r
                if os.environ.get("SYMX_FAST") and any(_unlisted(prop, x) for x in r):
                    break
    results.sort(key=lambda r: ids.index(r.hid))
    return report(prop, hs, results, tier, seed, level, assumptions, bounds, t0,
                  partial=bool(only) or bool(os.environ.get("SYMX_FAST")))


def report(prop, hs, results, tier, seed, level, assumptions, bounds, t0, partial):
    known = [k for k in load_known() if k.get("property") == prop and k.get("status", "known") == "known"]
    viol, knownhit, errors = [], {}, []
    for r in results:
        for v in r.violations:
            k = next((k for k in known if k["harness"] == r.hid and k["label"] == v["label"]), None)
            if k is not None:
                knownhit.setdefault((k["harness"], k["label"]), (k, v))
            else:
                viol.append(v)
        for u in r.unconfirmed:
            # a counterexample the real code does not reproduce: encoding problem
            if not any(v["label"] == u["label"] for v in r.violations):
                errors.append("%s: counterexample for %r did not reproduce: %s (replay: %s %s)"
                              % (r.hid, u["label"], u["detail"], u["conc"], u["err"]))
        for e in r.errors:
            errors.append("%s: %s" % (r.hid, e))
    for r in results:
        if r.nonvacuous == 0 and not r.errors:
            errors.append("%s: vacuous (no path reached an assertion)" % r.hid)
    funcs = sorted({f for r in results for f in r.functions})
    cov = {
        "states": sum(r.paths for r in results),
        "transitions": sum(r.decisions for r in results),
        "traces_validated_against_impl": sum(r.validated for r in results),
        "samples": [s for r in results for s in r.samples[:1]][:12],
        "harnesses": len(results),
        "queries_discharged": sum(r.queries for r in results),
        "assertions_decided": sum(r.asserts for r in results),
        "solver_time_s": round(sum(r.solver_time for r in results), 2),
        "functions_encoded": funcs,
        "functions_encoded_count": len(funcs),
        "bounds": bounds,
        "truncated": sorted({"%s: %s" % (r.hid, t) for r in results for t in r.truncated})[:40],
        "exhaustive_within_bounds": not any(r.truncated for r in results),
        "known_findings_seen": len(knownhit),
        "meaning": "states = feasible paths of the real code explored; transitions = symbolic decisions taken on "
                   "them; traces_validated = paths whose solver model was re-run concretely with the same verdict",
    }
    if not cov["samples"]:
        cov["samples"] = [{"harness": r.hid} for r in results[:2]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": list(assumptions), "wall_s": round(time.monotonic() - t0, 2), "violations": len(viol),
    }
    if not partial:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for (hid, label), (k, v) in knownhit.items():
        print("KNOWN-FINDING: property=%s %s [%s / %s]" % (prop, k.get("what", v["detail"]), hid, label))
    rc = 0
    if viol:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = 0
        for n, v in enumerate(viol):
            path = os.path.join(rdir, "%s-%d.json" % (prop, n))
            if n < 200:
                with open(path, "w") as f:
                    json.dump(v, f, indent=1, default=str)
            if shown < 40 or os.environ.get("SYMX_ALL"):
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   %s :: %s :: inputs %s" % (v["harness"], v["label"], _sh(v["model"])))
                print("   %s" % v["detail"])
                shown += 1
        print("%d violations" % len(viol))
        if os.environ.get("SYMX_DUMP"):
            json.dump([{"property": prop, "harness": v["harness"], "label": v["label"], "detail": v["detail"]} for v in viol],
                      open(os.environ["SYMX_DUMP"], "w"), indent=1)
        rc = 1
    elif errors:
        rc = 2
    for e in errors[:20]:
        print("ERROR %s" % e)
    if os.environ.get("SYMX_TIMES"):
        for r in sorted(results, key=lambda r: -r.wall)[:12]:
            print("   %6.1fs %5d paths %s %s" % (r.wall, r.paths, r.hid, r.truncated[:2]))
    print("%s tier=%s harnesses=%d paths=%d queries=%d asserts=%d validated=%d solver=%.1fs wall=%.1fs%s"
          % (prop, tier, len(results), cov["states"], cov["queries_discharged"], cov["assertions_decided"],
             cov["traces_validated_against_impl"], cov["solver_time_s"], time.monotonic() - t0,
             " TRUNCATED:%d" % len(cov["truncated"]) if cov["truncated"] else ""))
    return rc


def _sh(m):
    s = str({k: v for k, v in m.items()})
    return s if len(s) < 500 else s[:500] + "..."
