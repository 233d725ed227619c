"""Runs sequential programs in the engines of nvc and validates them against spec/SeqTrace.tla."""
import collections, re
from . import nvc, seqgen, tlc

MODES = {
    "interp": dict(mode="jit", extra_env={"NVC_JIT_THRESHOLD": "0"}),
    "llvm": dict(mode="jit", extra_env={"NVC_JIT_THRESHOLD": "1", "NVC_JIT_ASYNC": "0"}),
    "O0": dict(mode="aot0"), "O1": dict(mode="aot1"), "O2": dict(mode="aot2"), "O3": dict(mode="aot3"),
}

def observe(vhdl, mode):
    """-> (log, result, raw output)"""
    r = nvc.simulate(vhdl, timeout=60, **MODES[mode])
    log, res = [], None
    for m in nvc.messages(r.out):
        if m["sev"] == "note" and m["text"].startswith("L "):
            log.append([int(x) for x in m["text"][2:].split()])
        elif m["sev"] in ("error", "failure", "fatal") and res is None and m["line"]:
            k = seqgen.kind(m["text"])
            static = m["time"] is None and not k.startswith("unknown")
            # length errors of parameters are reported where the parameter is declared
            res = {"k": "static" if static else "err", "kind": k, "line": 0 if k == "length" and "parameter" in m["text"] else m["line"]}
    if r.crashed or r.rc == 124:
        res = {"k": "crash", "kind": r.out[-300:], "line": 0}
    elif res is None:
        res = {"k": "ok", "kind": "", "line": 0} if r.rc == 0 else {"k": "err", "kind": "rc %d %s" % (r.rc, r.out[-300:]), "line": -1}
    elif r.rc == 0:
        res = {"k": "err", "kind": "exit status 0 after an error", "line": res["line"]}
    return log, res, r.out

def run(check, gen, n, modesets, static_ok=False, batch=160, max_violations=3, module="SeqTrace", invariants=("Inv",)):
    done, feat, outcome = 0, collections.Counter(), collections.Counter()
    while done < n and check.left() > 0 and len(check.violations) < max_violations:
        k = min(batch, n - done)
        progs = []
        for i in range(k):
            case, vhdl, feats = gen(check.rng, done + i)
            progs.append((case, vhdl, modesets[(done + i) % len(modesets)]))
            feat.update(feats)
        done += k
        jobs = [(p, m) for p in range(k) for m in progs[p][2]]
        res = list(check.pool.map(lambda j: observe(progs[j[0]][1], j[1])[:2], jobs))
        cases, who = [], []
        groups = collections.OrderedDict()
        for (p, m), (log, result) in zip(jobs, res):
            feat["mode " + m] += 1
            groups.setdefault((p, repr((log, result))), (p, log, result, []))[3].append(m)
            outcome[result["k"] if result["k"] != "err" else result["kind"][:20]] += 1
        for p, log, result, ms in groups.values():
            if result["k"] == "static" and static_ok:
                continue     # error found at analysis or elaboration
            cases.append(dict(progs[p][0], log=log, result=result))
            who.append((p, ms))
        verdicts, r = tlc.validate(module, cases, invariants, mem="12g")
        check.count(r)
        check.traces += len(jobs)
        for i in range(len(cases)):
            if len(cases[i]["log"]) > 3 and not verdicts[i]:
                check.sample({"modes": who[i][1], "vhdl": progs[who[i][0]][1][:1500], "log": cases[i]["log"][:6]}, 2)
        for i, why in sorted(verdicts.items()):
            if why and len(check.violations) < max_violations:
                p, ms = who[i]
                log, result, out = observe(progs[p][1], ms[0])
                if (log, result) != (cases[i]["log"], cases[i]["result"]):
                    print("  not reproducible in", ms[0])
                print("  rejected (%s): %s" % (ms, str(why)[:600]))
                check.violation("case%d" % len(check.violations), {"modes": ms, "why": why, "vhdl": progs[p][1], "case": cases[i], "output": out[-3000:]})
    check.cover["features"] = dict(feat)
    check.cover["outcomes"] = dict(outcome)
    check.cover["programs"] = done
    return done
