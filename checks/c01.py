#!/usr/bin/env python3
"""C01: projected output waveforms."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, kcheck
from vk.kgen import *

def pick_delay(r, lo=None):
    return r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10]) if lo is None else lo + r.choice([1, 1, 1, 2, 2, 3, 4, 5])

def gen(r, i):
    b = Builder(r)
    feats = set()
    ty = r.choice(["int", "int", "std", "enum", "real"])
    res = r.choice(["none", "none", {"int": r.choice(["sum", "max"]), "std": "std", "enum": "enum", "real": "none"}[ty]])
    kind = "none"
    if res != "none" and r.random() < .5:
        kind = r.choice(["bus", "register"])
    nsig = r.choice([1, 1, 2])
    for _ in range(nsig):
        b.signal(ty, res, kind=kind, width=r.choice([0, 0, 0, 2, 3]), downto=r.random() < .5)
    nproc = 1 if res == "none" else r.choice([1, 2, 3])
    # in half of the designs no element is named statically: signals are taken apart while they run
    late = r.random() < .5
    if late:
        feats.add("split late")
    feats.add("type %s res %s kind %s" % (ty, res, kind))
    for _ in range(nproc):
        p = Proc(b)
        v = p.var()
        def value(sig):
            x = r.random()
            if kind != "none" and x < .2:
                feats.add("null"); return None
            return const(ty, r.choice([0, 1, 1, 2, 3]))
        def one():
            s = r.choice(b.sigs)
            mech = r.choice(["transport", "inertial", "inertial", "reject"])
            k, dyn, agg = None, None, False
            if s.width:
                x = r.random()
                if x < .4:
                    agg = True
                    if mech != "transport":
                        mech = "transport"
                elif x < .6 and kind != "none" and mech == "transport":
                    feats.add("whole array null")
                elif x < .8 and not late:
                    k = r.randrange(s.width)
                else:
                    dyn = op("mod", var(v), const("int", s.width)); feats.add("dynamic index")
            n = r.choice([1, 1, 1, 2, 2, 3])
            d, elems = 0, []
            for q in range(n):
                d = pick_delay(r) if q == 0 else pick_delay(r, d)
                val = value(s)
                if agg:
                    val = None if val is None else [value_(s) for _ in range(s.width)]
                elif s.width and k is None and dyn is None:
                    val = None
                elems.append((val, const("int", d)))
            if any(e[0] is None for e in elems) and mech != "transport" and False:
                mech = "transport"
            rej = None
            if mech == "reject":
                rej = const("int", r.randint(0, elems[0][1][1][1]))
            feats.add(mech + (" multi" if n > 1 else ""))
            p.assign(s, mech, rej, elems, k=k, dyn=dyn)
        def value_(s):
            return const(ty, r.choice([0, 1, 1, 2, 3]))
        def body(lv=None):
            for _ in range(r.randint(2, 5)):
                one()
                if r.random() < .5:
                    p.set(v, op("+", var(v), const("int", 1)))
                if r.random() < .7:
                    p.wait(timeout=const("int", r.choice([0, 1, 1, 2, 2, 3, 5])))
                    s = r.choice(b.sigs)
                    mine = [d["n"] for d in b.drivers if d["p"] == p.id]
        if r.random() < .5:
            body()
        p.loop(r.randint(1, 4), body)
        p.end()
    if res == "none" and r.random() < .5:
        # concurrent assignments from one signal to another
        for _ in range(r.choice([1, 1, 2])):
            src = r.choice(b.sigs)
            mech = r.choice(["transport", "inertial", "reject"])
            d = r.choice([0, 1, 2, 3, 4, 6])
            rej = r.randint(0, d) if mech == "reject" else None
            feats.add("concurrent " + mech)
            whole = src.width and (mech == "transport" or d == 0) and r.random() < .5
            p = Proc(b)
            if whole:
                t = b.signal(ty, width=src.width, downto=r.random() < .5)
                p.concurrent(t, src, mech, rej, d)
            else:
                t = b.signal(ty, width=r.choice([0, 0, 2]), downto=r.random() < .5)
                p.concurrent(t, src, mech, rej, d, r.randrange(t.width) if t.width else None,
                             r.randrange(src.width) if src.width else None)
    obs(b)
    tend = 45
    case = b.final(tend)
    return case, architecture(b), feats

def obs(b):
    """One observer per signal: logs value and activity at every transaction."""
    for s in b.sigs:
        o = Proc(b)
        ti = b.imp("transaction", s.nets, 0)
        o.log([sread(s, k) for k in range(s.width or 1)] + [attr("event", s.nets, s.name), attr("active", s.nets, s.name)])
        o.wait(imps=[(ti, s.name + "'transaction")])
        o.forever()

def body(c):
    kcheck.known(c)
    kcheck.run(c, gen, c.n(1200, 20000), ["jit", "jit", "jit", "aot"])
    c.assumptions += ["resolution functions are symmetric", "whole-array inertial assignments with a "
                      "non-zero delay are outside the generated domain (known finding)"]

if __name__ == "__main__":
    check.main("C01", body)
