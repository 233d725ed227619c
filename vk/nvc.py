"""Runs the freshly built nvc on generated VHDL in a private scratch directory."""
import os, re, subprocess, tempfile, shutil, signal
from . import build
from .tlc import RUN

BASE = ["--std=2008", "--messages=compact"]

class Run:
    def __init__(self, rc, out, dir=None):
        self.rc, self.out, self.dir = rc, out, dir
    @property
    def crashed(self):
        return self.rc < 0 or self.rc >= 124 or "*** Caught signal" in self.out or "Fatal:" in self.out and "Assertion" in self.out

def scratch(prefix="case"):
    os.makedirs(RUN, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix, dir=RUN)

def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("NVC_")}
    e["NVC_LIBPATH"] = build.LIB
    e["NVC_MAX_THREADS"] = "2"
    e["LC_ALL"] = "C.UTF-8"
    e["NO_COLOR"] = "1"
    e["XDG_CACHE_HOME"] = e["XDG_DATA_HOME"] = os.path.join(RUN, "xdg")
    e.update(extra or {})
    return e

def cmd(args, cwd, timeout=20, extra_env=None, stdin=None):
    """Run nvc with the given argument list."""
    p = subprocess.Popen([build.NVC] + list(args), cwd=cwd, env=env(extra_env), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         start_new_session=True)
    try:
        out, _ = p.communicate(stdin.encode() if stdin is not None else None, timeout=timeout)
        return Run(p.returncode, out.decode(errors="replace"), cwd)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return Run(124, out.decode(errors="replace") + "\n*** timed out", cwd)

def simulate(vhdl, top="t", mode="jit", elab=(), run=(), glob=(), timeout=20, extra_env=None, keep=False, files=None, split=False):
    """Analyse, elaborate and run; returns a Run with combined output."""
    d = scratch()
    try:
        with open(os.path.join(d, "t.vhd"), "w") as f:
            f.write(vhdl)
        for n, t in (files or {}).items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        a = BASE + list(glob) + ["-a", "t.vhd", "-e"]
        if mode == "jit":
            a += ["--jit", "--no-save"]
        elif mode.startswith("aot"):
            a += ["-O" + (mode[3:] or "2")]
        if split:
            # elaboration and run in separate processes
            r = cmd(a + list(elab) + [top], d, timeout, extra_env)
            if r.rc == 0:
                out = r.out
                r = cmd(BASE + list(glob) + ["-r"] + list(run) + [top], d, timeout, extra_env)
                r.out = out + r.out
            return r
        a += list(elab) + [top, "-r"] + list(run) + ([top] if mode == "jit" else [])
        r = cmd(a, d, timeout, extra_env)
        return r
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)

UNITS = {"fs": 1, "ps": 10**3, "ns": 10**6, "us": 10**9, "ms": 10**12, "sec": 10**15, "min": 6 * 10**16, "hr": 36 * 10**17}
LINE = re.compile(r"^(?:(?P<file>[^:\s]+):(?P<line>\d+):(?P<col>\d+): )?(?P<sev>note|warning|error|failure|fatal): "
                  r"(?:(?P<t>\d+)(?P<u>fs|ps|ns|us|ms|sec|min|hr)\+(?P<d>\d+): )?(?P<text>.*)$")

def fs(t, u):
    return int(t) * UNITS[u]

def messages(out):
    """Parse compact messages: list of dicts with sev, time (fs) or None, delta, text, line."""
    r = []
    for l in out.splitlines():
        m = LINE.match(l)
        if m:
            r.append({"sev": m["sev"], "time": fs(m["t"], m["u"]) if m["t"] else None,
                      "delta": int(m["d"]) if m["d"] else None, "text": m["text"],
                      "line": int(m["line"]) if m["line"] else None})
    return r
