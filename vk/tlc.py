"""Runs TLC on a specification in /verif/spec with a generated configuration."""
import os, re, subprocess, tempfile, shutil, json, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
RUN = os.environ.get("VK_RUN", os.path.join(VERIF, ".run"))
JAVA = ["java", "-XX:+UseParallelGC", "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]

class TlcError(Exception):
    pass

class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = rc == 0 and "Model checking completed. No error has been found." in out
        self.violated = re.findall(r"Invariant (\w+) is violated", out) + \
            re.findall(r"(?:Temporal properties|Action property).*violated", out)

def run(module, cfg, env=None, workers=8, timeout=800, mem="6g", extra=()):
    """cfg is the text of the configuration.  Returns a Result."""
    os.makedirs(RUN, exist_ok=True)
    d = tempfile.mkdtemp(prefix="tlc", dir=RUN)
    try:
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = JAVA[:1] + ["-Xmx" + mem] + JAVA[1:] + ["tlc2.TLC", "-workers", str(workers), "-metadir",
               os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", "M.cfg", *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired as x:
            raise TlcError("TLC timed out after %d s on %s" % (timeout, module))
        return Result(p.returncode, p.stdout.decode(errors="replace"))
    finally:
        shutil.rmtree(d, ignore_errors=True)

CASES_CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"

def _verdict_lines(out):
    """Tuples printed by PrintT may span lines; join them by bracket depth."""
    buf, depth = "", 0
    for line in out.splitlines():
        if depth == 0 and not line.startswith("<<"):
            continue
        buf = line if depth == 0 else buf + " " + line.strip()
        depth += line.count("<<") - line.count(">>")
        if depth <= 0:
            yield buf
            buf, depth = "", 0

def validate(module, cases, invariants=(), workers=8, timeout=800, env=None, mem="8g", constants="", silent_reject=False):
    """Check cases (list of JSON values) against a trace specification.

    Returns (verdicts, result): verdicts[i] is None when case i was accepted, else the text of
    the REJECT tuple.  Raises TlcError unless TLC gives a verdict for every case."""
    os.makedirs(RUN, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix="cases", suffix=".json", dir=RUN)
    with os.fdopen(fd, "w") as f:
        json.dump(cases, f)
    try:
        cfg = CASES_CFG + constants + "".join("INVARIANT %s\n" % i for i in invariants)
        r = run(module, cfg, dict(env or {}, CASES=path), workers, timeout, mem)
    finally:
        os.unlink(path)
    verdicts = {}
    for v in _verdict_lines(r.out):
        m = re.match(r'<<\s*"(ACCEPT|REJECT)",\s*(\d+)', v)
        if m:
            i = int(m[2]) - 1
            if m[1] == "REJECT":
                verdicts[i] = v
            else:
                verdicts.setdefault(i, None)
    if not r.ok:
        raise TlcError("TLC failed on %s (rc %d):\n%s" % (module, r.rc, r.out[-6000:]))
    if silent_reject:
        for i in range(len(cases)):
            verdicts.setdefault(i, '<<"REJECT", %d, "no behaviour explains the history">>' % (i + 1))
    missing = [i for i in range(len(cases)) if i not in verdicts]
    if missing:
        raise TlcError("%s: no verdict for cases %s\n%s" % (module, missing[:10], r.out[-3000:]))
    return verdicts, r
