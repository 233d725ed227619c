#!/usr/bin/env python3
"""C06: sequential code computes the values the language defines, in every engine."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, seqcheck, seqgen

def gen(r, i):
    g = seqgen.Gen(r, err=0)
    case, vhdl = g.sweep(False, i // 2) if i % 2 else g.program()
    return case, vhdl, g.feats

def body(c):
    c.assumptions.append("programs are generated so that no run-time check can fail; recursion and loops are bounded")
    seqcheck.run(c, gen, c.n(600, 15000), [("interp", "llvm", "O1"), ("interp", "llvm", "O2"), ("interp", "llvm"), ("interp", "llvm", "O0"), ("interp", "llvm", "O3"), ("interp", "llvm")])

if __name__ == "__main__":
    check.main("C06", body)
