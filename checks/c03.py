#!/usr/bin/env python3
"""C03: resolved values and propagation through ports."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, kcheck, known, nvc
from vk import kgen
from vk.kgen import *

CONV = {"int": ["id", "inv", "dbl", "half"], "std": ["not"], "enum": ["rot", "unrot"], "real": []}

class Port(Sig):
    def __init__(self, b, name, mode, default, *a, **k):
        Sig.__init__(self, b, name, *a, **k)
        self.mode, self.default = mode, default
        self.dir = mode
    def decl(self):
        d = "" if not self.default else " := " + self.init_text()
        return "%s : %s %s%s" % (self.name, self.mode, self.type_name(), d)

LEFT = {"int": -2**31, "std": 0, "enum": 0}

class Unit:
    """A design entity or a block: its ports, signals, processes and instances."""
    def __init__(self, b, name, parent=None, how="entity"):
        self.b, self.name, self.parent, self.how = b, name, parent, how
        self.ports, self.sigs, self.procs, self.kids = [], [], [], []
        self.maps = []
    def readable(self):
        return self.sigs + self.ports
    def writable(self):
        return self.sigs + [p for p in self.ports if p.mode != "in"]

class Gen:
    def __init__(self, r):
        self.r, self.b, self.feats = r, Builder(r), set()
        self.b.eid = 0
        self.used = {}        # net -> number of sources
        self.extra = []
    def sig(self, cls=Sig, name=None, ty=None, width=None, **k):
        r, b = self.r, self.b
        ty = ty or self.ty
        res = r.choice(["none", {"int": r.choice(["sum", "max"]), "std": "std", "enum": "enum"}[ty]] if r.random() < .7 else ["none"])
        w = r.choice([0, 0, 2, 3]) if width is None else width
        if cls is Port:
            k["default"] = k["default"] or ty == "int"
            return Port(b, name, k["mode"], k["default"], ty, res, width=w, downto=r.random() < .3,
                        init=None if k["default"] else [LEFT[ty]] * (w or 1))
        return Sig(b, name, ty, res, width=w, downto=r.random() < .3)
    def can_drive(self, nets):
        return all(self.b.nets[n - 1]["res"] != "none" or not self.b.nets[n - 1]["src"] for n in nets)

    def unit(self, name, depth, parent=None, how="entity"):
        r, b = self.r, self.b
        u = Unit(b, name, parent, how)
        if parent:
            for i in range(r.randint(1, 3)):
                mode = r.choice(["in", "in", "out", "out", "inout", "buffer"])
                u.ports.append(self.sig(Port, "%sp%d" % (name, i), mode=mode, default=r.random() < .7))
            if how == "component":
                # the local ports of the component: a level of signals of its own (11.7)
                outer = Unit(b, name, parent, how)
                for q in u.ports:
                    o = Port(b, q.name, q.mode, q.default, q.ty, q.res, width=q.width, downto=q.downto, init=q.init)
                    outer.ports.append(o)
                    for k, f in enumerate(q.nets):
                        if q.mode in ("in", "inout"):
                            b.nets[f - 1]["up"] = {"i": o.nets[k], "f": "id"}
                        if q.mode != "in":
                            b.nets[o.nets[k] - 1]["src"].append({"k": "n", "i": f, "f": "id"})
                self.connect(outer, parent)
                u.maps = outer.maps
            else:
                self.connect(u, parent)
        for i in range(r.randint(1 if depth else 0, 2) if parent else r.randint(1, 3)):
            u.sigs.append(self.sig(Sig, "%ss%d" % (name, i)))
        kids = 0 if depth == 0 else r.choice([1, 1, 2, 2, 3]) if not parent else r.choice([0, 1, 1, 2])
        for i in range(kids):
            u.kids.append(self.unit("%sx%d" % (name, i) if parent else "x%d" % i, depth - 1, u, r.choice(["entity", "entity", "component", "block"])))
        for _ in range(r.choice([1, 1, 2]) if not kids or r.random() < .6 else 0):
            self.process(u)
        self.observer(u)
        return u

    # -- port maps
    def connect(self, u, up):
        r = self.r
        for p in u.ports:
            n = p.width or 1
            isin, isout = p.mode in ("in", "inout"), p.mode != "in"
            # the modes of an actual that is itself a port (the rules of nvc: buffer only with buffer)
            pool = [s for s in up.readable() if s.ty == p.ty and
                    (getattr(s, "mode", None) in {"in": (None, "in", "out", "inout", "buffer"), "out": (None, "out", "inout"),
                                                  "inout": (None, "inout"), "buffer": (None, "buffer")}[p.mode])]
            if p.mode == "in":     # known finding in-from-inout: nvc does not pass the effective value of an inout port down
                pool = [s for s in pool if getattr(s, "mode", None) != "inout"]
            def link(k, net, fin="id", fout="id"):
                """formal element k to actual net"""
                f = p.nets[k]
                if isin:
                    self.b.nets[f - 1]["up"] = {"i": net, "f": fin}
                if isout:
                    self.b.nets[net - 1]["src"].append({"k": "n", "i": f, "f": fout})
            def ok(nets):
                return not isout or self.can_drive(nets)
            x = r.random()
            cands = []
            if not p.width:
                for s in pool:
                    for k in range(s.width or 1):
                        if ok([s.nets[k]]):
                            cands.append((s, k))
                if cands and x < .75:
                    s, k = r.choice(cands)
                    act, form = (s.elem(k) if s.width else s.name), p.name
                    fin = fout = "id"
                    if CONV[p.ty] and r.random() < .35:
                        c = CONV[p.ty]
                        if isin:
                            fin = r.choice(c); act = "cv_%s(%s)" % (fin, act)
                        if isout:
                            fout = r.choice(c); form = "cv_%s(%s)" % (fout, form)
                        self.feats.add("conversion " + p.mode)
                    if fin == "id" and "cv_id" not in act: pass
                    link(0, s.nets[k], fin, fout)
                    u.maps.append("%s => %s" % (form, act))
                    self.feats.add("port %s %s" % (p.mode, "element" if s.width else "whole"))
                    continue
            else:
                whole = [s for s in pool if s.width == p.width and ok(s.nets)]
                slices = [(s, a) for s in pool if s.width > p.width and s.downto == p.downto
                          for a in range(s.width - p.width + 1) if ok(s.nets[a:a + p.width])]
                if whole and x < .1 and CONV[p.ty]:
                    s = r.choice(whole)
                    fin, fout = r.choice(CONV[p.ty]), r.choice(CONV[p.ty])
                    for k in range(p.width):
                        link(k, s.nets[k], fin, fout)
                        if isin: self.b.nets[p.nets[k] - 1]["up"]["g"] = list(s.nets)
                        if isout: self.b.nets[s.nets[k] - 1]["src"][-1]["g"] = list(p.nets)
                    u.maps.append("%s => %s" % ("cvv_%s(%s)" % (fout, p.name) if isout else p.name, "cvv_%s(%s)" % (fin, s.name) if isin else s.name))
                    self.feats.add("vector conversion " + p.mode)
                    continue
                if whole and x < .45:
                    s = r.choice(whole)
                    for k in range(p.width):
                        link(k, s.nets[k])
                    u.maps.append("%s => %s" % (p.name, s.name))
                    self.feats.add("port %s whole array" % p.mode)
                    continue
                if slices and x < .65:
                    s, a = r.choice(slices)
                    for k in range(p.width):
                        link(k, s.nets[a + k])
                    u.maps.append("%s => %s(%d %s %d)" % (p.name, s.name, s.index(a), "downto" if s.downto else "to", s.index(a + p.width - 1)))
                    self.feats.add("port %s slice" % p.mode)
                    continue
                if x < .9:
                    plan = []
                    taken = set()
                    for k in range(p.width):
                        c = [(s, j) for s in pool for j in range(s.width or 1) if ok([s.nets[j]]) and
                             (not isout or s.nets[j] not in taken or s.res != "none")]
                        if not c:
                            break
                        s, j = r.choice(c)
                        taken.add(s.nets[j])
                        plan.append((k, s, j))
                    if len(plan) == p.width:
                        for k, s, j in plan:
                            fin = fout = "id"
                            form, act = p.elem(k), (s.elem(j) if s.width else s.name)
                            link(k, s.nets[j])
                            u.maps.append("%s => %s" % (form, act))
                        self.feats.add("port %s individual" % p.mode)
                        continue
            if p.mode == "in":
                if p.default and r.random() < .5:
                    if r.random() < .5:
                        u.maps.append("%s => open" % p.name)
                    self.feats.add("port open")
                else:
                    v = [self.b.rval(p.ty) for _ in range(n)]
                    for k in range(n):
                        m = self.b.net(v[k])
                        link(k, m)
                    u.maps.append("%s => %s" % (p.name, lit(p.ty, v[0]) if not p.width else
                                  "(" + ", ".join("%d => %s" % (p.index(k), lit(p.ty, v[k])) for k in range(n)) + ")"))
                    self.feats.add("port constant")
            else:
                if r.random() < .5:
                    u.maps.append("%s => open" % p.name)
                self.feats.add("port open")

    # -- processes
    def value(self, u, s, v):
        r = self.r
        x = r.random()
        if x < .3:
            c = [t for t in u.readable() if t.ty == s.ty]
            if c:
                t = r.choice(c)
                e = sread(t, r.randrange(t.width) if t.width else 0)
                if s.ty == "int":
                    return op("mod", op("+", op("mod", e, const("int", 1000)), const("int", r.randint(0, 2))), const("int", 1000))
                return e
        if s.ty == "int" and x < .5:
            return op("mod", var(v), const("int", 5))
        return const(s.ty, self.b.rval(s.ty))

    def process(self, u):
        r, b = self.r, self.b
        p = Proc(b)
        u.procs.append(p)
        v = p.var()
        targets = []
        def one():
            c = [s for s in u.writable()]
            if not c:
                return
            s = r.choice(c)
            k = r.randrange(s.width) if s.width and r.random() < .5 else None
            nets = s.nets if k is None else [s.nets[k]]
            mine = [d["n"] for d in b.drivers if d["p"] == p.id]
            if not all(n in mine or self.can_drive([n]) for n in nets):
                return
            zero = r.random() < .6
            d, elems = (0 if zero else r.choice([1, 1, 2])), []
            for _ in range(1 if zero else r.choice([1, 2])):
                val = [self.value(u, s, v) for _ in range(s.width)] if s.width and k is None else self.value(u, s, v)
                elems.append((val, const("int", d)))
                d += r.choice([1, 2])
            p.assign(s, "transport" if s.width and k is None else r.choice(["transport", "inertial"]), None, elems, k=k)
        def log():
            p.log([self.look(u) for _ in range(r.randint(1, 3))])
        one()
        def body(lv):
            for _ in range(r.randint(1, 3)):
                one()
            p.set(v, op("+", var(v), const("int", 1)))
            if r.random() < .35 and u.readable():
                s = r.choice(u.readable())
                k = r.randrange(s.width) if s.width and r.random() < .5 else None
                p.wait(sigs=[([s.nets[k]], s.elem(k)) if k is not None else (list(s.nets), s.name)], timeout=const("int", r.choice([1, 2, 3])))
            else:
                p.wait(timeout=const("int", r.choice([0, 0, 1, 1, 2])))
            log()
        p.loop(r.randint(1, 4), body)
        p.end()

    def look(self, u):
        r = self.r
        s = r.choice(u.readable())
        k = r.randrange(s.width) if s.width else 0
        x = r.random()
        if x < .6:
            return sread(s, k)
        nets, text = list(s.nets), s.name    # (attributes of elements are the business of C04)
        if x < .75:
            return attr("event", nets, text)
        if x < .85:
            return attr("active", nets, text)
        if x < .92 and (not s.width):
            return (s.ty, ["last_value", nets[0]], text + "'last_value")
        return attr("last_event", nets, text, "time")

    def observer(self, u):
        r = self.r
        for s in u.readable():
            if r.random() < .3:
                continue
            o = Proc(self.b)
            u.procs.append(o)
            o.log([sread(s, k) for k in range(s.width or 1)] + [attr("event", s.nets, s.name), attr("active", s.nets, s.name)])
            o.wait(sigs=[(list(s.nets), s.name)])
            o.forever()

    # -- text
    def body(self, u, ind):
        """declarations and statements of a unit"""
        decl = ["signal" + s.decl()[6:] for s in u.sigs]
        for k in u.kids:
            if k.how == "component":
                decl += ["component %s is" % k.name] + (["  port (" + "; ".join(p.decl() for p in k.ports) + ");"]) + ["end component;"]
        st = []
        for p in u.procs:
            st += p.vhdl()
        for k in u.kids:
            pm = "port map (" + ", ".join(k.maps) + ")" if k.maps else ""
            if k.how == "block":
                d, s = self.body(k, ind + 1)
                st += ["u_%s : block is" % k.name, "port (" + "; ".join(p.decl() for p in k.ports) + ");"] + ([pm + ";"] if pm else []) + \
                      d + ["begin"] + s + ["end block;"]
            else:
                st.append("u_%s : %s %s;" % (k.name, "entity work." + k.name if k.how == "entity" else k.name, pm))
        return decl, st
    def text(self, u):
        t = []
        def visit(x):
            for k in x.kids:
                visit(k)
            if x.how != "block":
                d, s = self.body(x, 1)
                t.extend(["library ieee; use ieee.std_logic_1164.all; use work.p.all;", "entity %s is" % x.name] +
                         (["  port (" + ";\n    ".join(p.decl() for p in x.ports) + ");"] if x.ports else []) +
                         ["end entity;", "architecture a of %s is" % x.name] + ["  " + l for l in d] + ["begin"] + ["  " + l for l in s] +
                         ["end architecture;"])
        visit(u)
        return kgen.PACKAGE + "\n".join(t) + "\n"

def gen(r, i):
    g = Gen(r)
    g.ty = r.choice(["int", "int", "std", "enum"])
    g.split = r.random() < .5
    u = g.unit("t", r.choice([1, 1, 2]))
    return g.b.final(14), g.text(u), g.feats

def body(c):
    kcheck.known(c)
    known.texts(c, lambda t: nvc.simulate(t, mode="jit", elab=["--no-collapse"]).out)
    kcheck.run(c, gen, c.n(1200, 20000), ["jit", "jit-nocollapse", "jit", "aot", "jit-shuffle", "aot0-nocollapse"])

if __name__ == "__main__":
    check.main("C03", body)
