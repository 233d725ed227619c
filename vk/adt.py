"""Runs the driver of the library data structures (harness/adt.c)."""
import os, subprocess
from . import build
EXE = os.path.join(build.B, "bin", "adt")

def run(cmds, timeout=60):
    """The results of the commands: a list of integers each; shorter than cmds if the program died or hung."""
    p = subprocess.Popen([EXE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate("".join(c + "\n" for c in cmds).encode(), timeout=timeout)
        why = "exit status %d %s" % (p.returncode, err.decode(errors="replace")[-200:]) if p.returncode else ""
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        why = "hung"
    lines = out.decode(errors="replace").split("\n")[:-1]
    res = []
    for l in lines[:len(cmds)]:
        try:
            res.append([int(x) for x in l.split()])
        except ValueError:
            res.append([-99999])
    return res, why
