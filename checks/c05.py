#!/usr/bin/env python3
"""C05: force and release."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, kcheck
from vk.kgen import *

def target(r, s):
    """A forced part: (nets, text, element numbers or None for a scalar)."""
    if not s.width or r.random() < .4:
        return list(s.nets), s.name, list(range(s.width)) or None
    if r.random() < .6 or s.width < 3:
        k = r.randrange(s.width)
        return [s.nets[k]], s.elem(k), None
    a = r.randrange(s.width - 1)
    z = r.randrange(a + 1, s.width)
    return s.nets[a:z + 1], "%s(%d %s %d)" % (s.name, s.index(a), "downto" if s.downto else "to", s.index(z)), list(range(a, z + 1))

def gen(r, i):
    b = Builder(r)
    feats = set()
    for _ in range(r.choice([1, 1, 2, 2])):
        ty = r.choice(["int", "int", "std", "enum", "real"])
        res = r.choice(["none", "none", {"int": r.choice(["sum", "max"]), "std": "std", "enum": "enum", "real": "none"}[ty]])
        kind = r.choice(["bus", "register"]) if res != "none" and r.random() < .3 else "none"
        b.signal(ty, res, kind=kind, width=r.choice([0, 0, 2, 3, 4]), downto=r.random() < .5)
    for s in b.sigs:        # elements apart from time zero: see the known findings of C04
        if s.width:
            o = Proc(b)
            o.log([attr("event", [s.nets[k]], s.elem(k)) for k in range(s.width)])
            o.end()
    imps = []
    for s in b.sigs:
        if r.random() < .4:
            kind, t = r.choice(["stable", "quiet"]), r.choice([0, 1, 2, 3])
            imps.append((["imp", b.imp(kind, s.nets, t)], "%s'%s(%d ns)" % (s.name, kind, t)))
    owner, forcer = {}, {}
    def val(s, v):
        if r.random() < .15:
            return sread(s, 0)
        if s.ty == "int" and r.random() < .3:
            return op("mod", var(v), const("int", 4))
        return const(s.ty, r.choice([0, 1, 2, 3]))
    def look(p, n):
        es = []
        for _ in range(n):
            s = r.choice(b.sigs)
            k = r.randrange(s.width) if s.width else 0
            x = r.random()
            if x < .5:
                es.append(sread(s, k))
            elif x < .6:
                es.append(attr("event", [s.nets[k]], s.elem(k)))
            elif x < .7:
                es.append(attr("active", [s.nets[k]], s.elem(k)))
            elif x < .8:
                es.append((s.ty, ["last_value", s.nets[k]], s.elem(k) + "'last_value"))
            elif x < .9 and imps:
                m = r.choice(imps)
                es.append(("bool", m[0], m[1]))
            elif p.drives and r.random() < .5:
                s, k = r.choice(p.drives)
                if s.kind == "none":
                    es.append((s.ty, ["driving_value", s.nets[k or 0]], s.elem(k or 0) + "'driving_value")); feats.add("driving_value")
            else:
                es.append(attr("last_event", [s.nets[k]], s.elem(k), "time"))
        return es
    nproc = r.choice([1, 2, 2, 3])
    for _ in range(nproc):
        p = Proc(b)
        p.drives = []
        v = p.var()
        p.set(v, const("int", r.randrange(4)))
        def drive():
            cands = [s for s in b.sigs if s.res != "none" or owner.get(s.name, p.id) == p.id]
            if not cands:
                return
            s = r.choice(cands)
            owner[s.name] = p.id
            k = r.randrange(s.width) if s.width and r.random() < .5 else None
            zero = r.random() < .5
            mech = r.choice(["transport", "inertial"]) if not (s.width and k is None and not zero) else "transport"
            x = None if s.kind == "bus" and r.random() < .3 else val(s, v) if k is not None or not s.width else [val(s, v) for _ in range(s.width)]
            if x is None:
                feats.add("null")
            p.assign(s, mech, None, [(x, const("int", 0 if zero else r.choice([1, 2, 3, 4])))], k=k)
            if (s, k) not in p.drives:
                p.drives.append((s, k))
        def force():
            cands = [s for s in b.sigs if forcer.get(s.name, p.id) == p.id]
            if not cands:
                return
            s = r.choice(cands)
            forcer[s.name] = p.id
            nets, text, ks = target(r, s)
            if r.random() < .6:
                es = [val(s, v) for _ in nets]
                p.emit("force", "in", nets, [e[1] for e in es])
                p.out("%s <= force %s;" % (text, es[0][2] if ks is None else
                      "(" + ", ".join("%d => %s" % (s.index(k), e[2]) for k, e in zip(ks, es)) + ")"))
                feats.add("force " + ("whole" if nets == s.nets else "part"))
            else:
                p.emit("release", "in", nets)
                p.out("%s <= release;" % text)
                feats.add("release " + ("whole" if nets == s.nets else "part"))
        def body(lv=None):
            for _ in range(r.randint(2, 5)):
                r.choice([drive, force, force])()
                if r.random() < .3:
                    p.set(v, op("+", var(v), const("int", 1)))
                if r.random() < .3:
                    p.log(look(p, r.randint(1, 3)))
                if r.random() < .7:
                    p.wait(timeout=const("int", r.choice([0, 0, 1, 1, 2, 4])))
                    if r.random() < .6:
                        p.log(look(p, r.randint(1, 3)))
        if r.random() < .5:
            drive()
        p.loop(r.randint(1, 4), body)
        p.end()
    o = Proc(b); o.drives = []
    o.log([sread(s, k) for s in b.sigs for k in range(s.width or 1)] + look(o, 2))
    o.wait(sigs=[(s.nets, s.name) for s in b.sigs])
    o.forever()
    o = Proc(b); o.drives = []
    def lb(lv):
        o.log([sread(s, k) for s in b.sigs for k in range(s.width or 1)] + look(o, 2))
        o.wait(timeout=const("int", 1))
    o.loop(12, lb)
    o.end()
    return b.final(30), architecture(b), feats

def body(c):
    kcheck.known(c)
    kcheck.run(c, gen, c.n(1200, 20000), ["jit", "jit-shuffle", "jit", "aot", "jit-nocollapse"])

if __name__ == "__main__":
    check.main("C05", body)
