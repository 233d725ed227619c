#!/usr/bin/env python3
"""C07: run-time checks fire exactly when the language says."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, known, seqcheck, seqgen

def gen(r, i):
    g = seqgen.Gen(r, err=r.choice([.03, .06, .1, .15]))
    case, vhdl = g.sweep(True, i // 2) if i % 2 else g.program()
    return case, vhdl, g.feats

def body(c):
    known.texts(c, lambda v: seqcheck.observe(v, "interp")[2])
    c.assumptions.append("which of several errors of one statement comes first is left open; designs rejected at analysis or elaboration are not judged")
    seqcheck.run(c, gen, c.n(900, 20000), [("interp", "llvm"), ("interp", "O2"), ("interp", "llvm"), ("interp", "O0")], static_ok=True)

if __name__ == "__main__":
    check.main("C07", body)
