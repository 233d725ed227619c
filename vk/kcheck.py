"""Simulates generated kernel cases in nvc and validates the logs against KernelTrace."""
import collections, json, os
from . import kgen, nvc, tlc

MODES = {
    "jit": dict(mode="jit"),
    "jit-nocollapse": dict(mode="jit", elab=["--no-collapse"]),
    "jit-shuffle": dict(mode="jit", run=["--shuffle"]),
    "aot": dict(mode="aot2"),
    "aot0-nocollapse": dict(mode="aot0", elab=["--no-collapse"]),
}

def simulate(case, vhdl, mode):
    m = MODES[mode]
    run = ["--stop-time=%dps" % (case["tend"] * 1000 + 500)] + list(m.get("run", []))
    if "--shuffle" in run:       # an option of elaboration/run order, given before the top-level name
        pass
    return nvc.simulate(vhdl, mode=m["mode"], elab=m.get("elab", []), run=run)

def attach(case, r):
    """Put the recorded log into the case; returns a reason if the run itself went wrong."""
    logs, bad = kgen.parse_log(r.out, len(case["procs"]))
    case["log"] = logs
    if r.rc != 0 or bad:
        return "unexpected result of the run: rc=%d %s" % (r.rc, (bad or [r.out[-500:]])[:3])
    return None

def known(check, module="KernelTrace", invariants=("Inv",)):
    """Replay the listed findings of this property (kind "kernel")."""
    for k in check.known:
        if k["kind"] != "kernel":
            continue
        with open(os.path.join(tlc.VERIF, k["replay"])) as f:
            d = json.load(f)
        why = attach(d["case"], simulate(d["case"], d["vhdl"], d["mode"]))
        if not why:
            v, r = tlc.validate(module, [d["case"]], invariants, workers=1)
            why = v[0]
        if why:
            check.known_finding(k["what"])

def run(check, gens, n, modes, module="KernelTrace", invariants=("Inv",), batch=400, max_violations=3):
    """gens: function(rng, i) -> (case, vhdl, features)."""
    done = 0
    feat = collections.Counter()
    dist = set()
    while done < n and check.left() > 0 and len(check.violations) < max_violations:
        k = min(batch, n - done)
        jobs = []
        for i in range(k):
            case, vhdl, features = gens(check.rng, done + i)
            mode = modes[(done + i) % len(modes)]
            jobs.append((case, vhdl, mode))
            feat.update(features)
            feat["mode " + mode] += 1
        done += k
        res = list(check.pool.map(lambda j: attach(j[0], simulate(*j)), jobs))
        suspects = [(j, why) for j, why in zip(jobs, res) if why]
        good = [j for j, why in zip(jobs, res) if not why]
        verdicts, r = tlc.validate(module, [j[0] for j in good], invariants)
        check.count(r)
        suspects += [(good[i], v) for i, v in sorted(verdicts.items()) if v]
        for j in good:
            dist.add(hash(j[1]))
            check.traces += 1
            if sum(len(l) for l in j[0]["log"]) > 8:
                check.sample({"mode": j[2], "vhdl": j[1].split("end package body;")[1][:1500],
                              "log": [l[:6] for l in j[0]["log"]]}, 2)
        for (case, vhdl, mode), why in suspects:
            if len(check.violations) >= max_violations:
                break
            # confirm: simulate and validate again, alone
            why2 = attach(case, simulate(case, vhdl, mode))
            if not why2:
                v, r = tlc.validate(module, [case], invariants, workers=1)
                why2 = v[0]
            if why2:
                print("  rejected (%s): %s" % (mode, str(why2)[:600]))
                check.violation("case%d" % len(check.violations),
                                {"mode": mode, "why": why2, "vhdl": vhdl, "case": case})
    check.cover["features"] = dict(feat)
    check.cover["distinct_designs"] = check.cover.get("distinct_designs", 0) + len(dist)
    return done
