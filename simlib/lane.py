"""One worker: runs cases of one property in sequence. See bin/check."""
import collections
import hashlib
import json
import os
import resource
import sys


def main():
    prop, lane, lanes, seed, count, seconds, out = sys.argv[1:8]
    lane, lanes, seed, count, seconds = int(lane), int(lanes), int(seed), int(count), float(seconds)
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    sys.setrecursionlimit(3000)
    from . import engines, seams, shrink, sim
    sim.WATCH.install()
    eng = engines.engine(prop)
    start = seams.real_perf()
    res = dict(runs=0, ok=0, inconclusive=collections.Counter(), sigs=[], stats=collections.Counter(), sim_seconds=0.0,
               observations=0, samples=[], max_model_states=0, violation=None, first=None, last=None)
    sigs = set()
    i = 0
    while i < count and seams.real_perf() - start < seconds:
        case_seed = int.from_bytes(hashlib.blake2b(
            ("%s/%d/%d/%d" % (prop, seed, lane, i)).encode(), digest_size=6).digest(), "big")
        i += 1
        case = eng.generate(case_seed)
        verdict, why, info = eng.simulate(case)
        res["runs"] += 1
        if info is not None:
            for k, n in info.stats.items():
                res["stats"][k] += n
            world = getattr(info, "world", None)
            if world is not None:
                for k, n in world.stats.items():
                    res["stats"][k] += n
            res["sim_seconds"] += info.time_covered
            res["observations"] += info.visible
            res["max_model_states"] = max(res["max_model_states"], getattr(info, "max_frontier", 0))
        if verdict == "ok":
            res["ok"] += 1
            if info.nontrivial:
                sigs.add(info.sig)
            if i == 1:
                res["first"] = [case_seed, info.sig]
            if len(res["samples"]) < 1 and info.nontrivial:
                res["samples"].append(dict(seed=case_seed, schedule=case.get("ops", [])[:40],
                                           program=eng.describe(case)[:1500], digest=info.sig))
        elif verdict == "inconclusive":
            res["inconclusive"][str(why)] += 1
        else:
            res["violation"] = report(eng, prop, case, why, shrink)
            break
    res["sigs"] = sorted(sigs)
    res["seconds"] = seams.real_perf() - start
    with seams.real_open(out, "w") as f:
        json.dump(res, f, default=list)
    sim.WATCH.remove()


def report(eng, prop, case, why, shrink):
    from . import seams

    def fails(c):
        try:
            verdict, w, _ = eng.simulate(c)
        except Exception:    # a cut-down case the simulator itself cannot run
            return False
        return verdict == "violation" and w.kind == why.kind

    try:
        best, tries = shrink.shrink(case, fails, eng.stages, float(os.environ.get("SIM_SHRINK_S", "60")))
    except Exception:    # the violation counts, minimised or not
        best, tries = case, 0
    trace = []
    verdict, why2, info = eng.simulate(best, trace)
    if verdict != "violation":
        best, why2, trace = case, why, []
        eng.simulate(best, trace)
    return dict(property=prop, kind=why2.kind, detail=str(why2), case=best, program=eng.describe(best),
                shrink_tries=tries, trace=[json.loads(json.dumps(t, default=repr)) for t in trace],
                hashseed=os.environ.get("PYTHONHASHSEED"), digest=getattr(info, "sig", None))


if __name__ == "__main__":
    main()
