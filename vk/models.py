"""Model checking runs that several checks share."""
import json, os, tempfile
from . import tlc

def on_cases(check, module, cases, what, init, next_, invariants=(), properties=(), timeout=600):
    """Exhaustive check of a module over a list of generated designs."""
    os.makedirs(tlc.RUN, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix="mc", suffix=".json", dir=tlc.RUN)
    with os.fdopen(fd, "w") as f:
        json.dump(cases, f)
    try:
        cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK FALSE\n" % (init, next_)
        cfg += "".join("INVARIANT %s\n" % i for i in invariants)
        cfg += "".join("PROPERTY %s\n" % i for i in properties)
        return check.model(module, cfg, what, env={"CASES": path}, timeout=timeout)
    finally:
        os.unlink(path)

def kernel_confluence(check, gen, n):
    """All orders of process execution on generated designs (KernelMC)."""
    cases = []
    while len(cases) < n:
        case, _, _ = gen(check.rng, 0)
        if len(case["procs"]) <= 6:
            case["tend"] = 8
            case["log"] = []
            cases.append(case)
    on_cases(check, "KernelMC", cases, "%d designs, every process order" % n, "MCInit", "MCNext",
             ["Confluent", "Inv"], ["TimeStep", "WakeReason"])
