#!/usr/bin/env python3
"""C02: simulation cycle, wait statements, delta cycles, postponed processes."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, kcheck, models
from vk.kgen import *

def gen(r, i):
    b = Builder(r)
    feats = set()
    nsig = r.randint(1, 4)
    for _ in range(nsig):
        ty = r.choice(["int", "int", "std", "enum", "real"])
        res = r.choice(["none", "none", {"int": r.choice(["sum", "max"]), "std": "std", "enum": "enum", "real": "none"}[ty]])
        b.signal(ty, res, width=r.choice([0, 0, 0, 2]), downto=r.random() < .5)
    nproc = r.randint(1, 4)
    owner = {}
    for k in range(nproc):
        p = Proc(b, post=r.random() < .15)
        if p.post:
            feats.add("postponed")
        v = p.var()
        def operand():
            s = r.choice(b.sigs)
            k = r.randrange(s.width) if s.width else 0
            return s, k
        def cond(depth=0):
            """(expr, sensitivity nets)"""
            x = r.random()
            if depth < 2 and x < .25:
                a, na = cond(depth + 1); c, nc = cond(depth + 1)
                return op(r.choice(["and", "or"]), a, c), na + nc
            if x < .35:
                a, na = cond(depth + 1)
                return op("not", a), na
            s, k = operand()
            if x < .45:
                return attr("event", s.nets, s.name), list(s.nets)
            if x < .5 and s.ty == "int":
                e = op("<", sread(s, k), op("+", var(v), const("int", r.randint(0, 3))))
                return e, [s.nets[k]]
            if x < .55 and s.width:
                # run-time index: the sensitivity set holds the whole array
                e = op("=", sread_dyn(s, op("mod", var(v), const("int", s.width))), const(s.ty, b.rval(s.ty)))
                feats.add("dynamic sensitivity")
                return e, list(s.nets)
            return op(r.choice(["=", "<"]) if s.ty == "int" else "=", sread(s, k), const(s.ty, b.rval(s.ty))), [s.nets[k]]
        def delay():
            # a postponed process must not cause a delta cycle
            return const("int", r.choice([1, 1, 2, 3, 4] if p.post else [0, 0, 1, 1, 2, 3, 4]))
        def wait(p, budget=True):
            # timeouts of postponed processes: see the known finding
            t = delay() if r.random() < .45 and not p.post else None
            x = r.random()
            if x < .35 and not p.post:
                p.wait(timeout=t or delay()); feats.add("wait for")
            elif x < .65:
                ss = []
                for _ in range(r.randint(1, 2)):
                    s, k = operand()
                    if s.width and r.random() < .5:
                        ss.append(([s.nets[k]], s.elem(k)))
                    else:
                        ss.append((list(s.nets), s.name))
                c = cond()[0] if r.random() < .4 else None
                p.wait(sigs=ss, cond=c, timeout=t); feats.add("wait on" + (" until" if c else "") + (" for" if t else ""))
            else:
                c, nets = cond()
                p.wait(auto=True, sens=nets, cond=c, timeout=t); feats.add("wait until" + (" for" if t else ""))
        def assign(p):
            cands = [s for s in b.sigs if s.res != "none" or owner.get(s.name, p.id) == p.id]
            if not cands:
                return
            s = r.choice(cands)
            owner.setdefault(s.name, p.id)
            zero = not p.post and r.random() < .5
            n = 1 if zero else r.choice([1, 1, 2])
            d, elems = (0 if zero else r.choice([1, 1, 2, 3, 5])), []
            whole = s.width and r.random() < .6
            k = None if whole or not s.width else r.randrange(s.width)
            for _ in range(n):
                def val(k):
                    x = r.random()
                    if s.ty == "int" and x < .3:
                        return op("mod", op("+", var(v), const("int", r.randint(0, 3))), const("int", 5))
                    if s.ty == "int" and x < .5:
                        o = r.choice([t for t in b.sigs if t.ty == "int"])
                        return op("mod", op("+", sread(o, r.randrange(o.width) if o.width else 0), const("int", 1)), const("int", 7))
                    if x < .6:
                        o = r.choice([t for t in b.sigs if t.ty == s.ty])
                        return sread(o, r.randrange(o.width) if o.width else 0)
                    return const(s.ty, b.rval(s.ty))
                elems.append(([val(j) for j in range(s.width)] if whole else val(k), const("int", d)))
                d += r.choice([1, 2, 3])
            p.assign(s, "transport" if whole and not zero else r.choice(["transport", "inertial"]), None, elems, k=k)
        def observe(p):
            es = []
            for _ in range(r.randint(1, 3)):
                s, k = operand()
                es.append(sread(s, k) if r.random() < .7 else attr(r.choice(["event", "active"]), s.nets, s.name))
            p.log(es + [var(v)])
        def block(lv=None):
            for _ in range(r.randint(1, 3)):
                x = r.random()
                if x < .15:
                    p.branch(cond()[0], lambda: assign(p), (lambda: wait(p)) if r.random() < .4 else None)
                else:
                    assign(p)
                if r.random() < .3:
                    p.set(v, op("+", var(v), const("int", 1)))
                if r.random() < .7:
                    wait(p)
                    observe(p)
        if r.random() < .25:
            # a process with a sensitivity list, most often a clocked one
            s = r.choice(b.sigs)
            k = r.randrange(s.width) if s.width else 0
            shape = r.choice(["edge", "edge", "equal", "two", "any"])
            feats.add("sensitivity " + shape)
            ss = [([s.nets[k]], s.elem(k))] if r.random() < .6 else [(list(s.nets), s.name)]
            is1 = op("=", sread(s, k), const(s.ty, b.rval(s.ty)))
            edge = op("and", attr("event", [s.nets[k]], s.elem(k)), is1)
            if r.random() < .3:
                edge = op("and", is1, attr("event", [s.nets[k]], s.elem(k)))
            if shape == "two":
                s2, k2 = operand()
                ss.append(([s2.nets[k2]], s2.elem(k2)))
                is2 = op("=", sread(s2, k2), const(s2.ty, b.rval(s2.ty)))
                cnd = op("or", edge, is2 if r.random() < .5 else op("and", attr("event", [s2.nets[k2]], s2.elem(k2)), is2))
            else:
                cnd = {"edge": edge, "equal": is1, "any": None}[shape] or cond()[0]
            def inner2():
                assign(p)
                p.set(v, op("+", var(v), const("int", 1)))
                if r.random() < .5:
                    observe(p)
            # zero-delay feedback through the sensitivity list must end
            def inner():
                p.branch(op("<", var(v), const("int", 12)), inner2)
            p.branch(cnd, inner, inner if r.random() < .2 else None)
            if shape == "any":
                observe(p)
            p.sensitivity(ss)
            continue
        if r.random() < .4:
            block()
        def loop_body(lv):
            block()
            wait(p)
            observe(p)
        p.loop(r.randint(1, 5), loop_body)
        p.end()
    for s in b.sigs:
        o = Proc(b)
        o.log([sread(s, k) for k in range(s.width or 1)] + [attr("active", s.nets, s.name)])
        o.wait(sigs=[(list(s.nets), s.name)])
        o.forever()
    return b.final(40), architecture(b), feats

def body(c):
    models.kernel_confluence(c, gen, c.n(40, 1500))
    kcheck.known(c)
    kcheck.run(c, gen, c.n(1000, 15000), ["jit", "jit-shuffle", "jit", "aot", "jit-shuffle"])

if __name__ == "__main__":
    check.main("C02", body)
