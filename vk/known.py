"""Replays the known findings that are VHDL texts: the finding is still there if the pattern occurs in the output."""
import os, re
from . import nvc
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def texts(check, observe):
    """observe(vhdl) -> output"""
    for k in check.known:
        if k.get("kind") == "text":
            with open(os.path.join(V, k["replay"])) as f:
                out = observe(f.read())
            check.traces += 1
            if re.search(k["pattern"], out):
                check.known_finding(k["what"])
            else:
                print("  known finding %s no longer occurs" % k["id"])
