#!/usr/bin/env python3
"""Writes the replayable inputs of the known findings (known/*.json)."""
import os, sys, json, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk.kgen import *
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known")

def save(name, b, tend, mode="jit"):
    with open(os.path.join(OUT, name + ".json"), "w") as f:
        json.dump({"mode": mode, "vhdl": architecture(b), "case": b.final(tend)}, f)

def c(v):
    return const("int", v)

b = Builder(random.Random(0))
s = b.signal("int", init=[0])
p = Proc(b); p.wait(timeout=c(1)); p.assign(s, "transport", None, [(c(1), c(0))]); p.end()
q = Proc(b, post=True); q.wait(timeout=c(1)); q.log([sread(s)]); q.end()
save("C02-postponed-timeout", b, 5)

b = Builder(random.Random(0))
s = b.signal("int", width=2, init=[0, 0])
p = Proc(b)
p.assign(s, "transport", None, [([c(1), c(0)], c(1))])
p.assign(s, "inertial", None, [([c(1), c(2)], c(3))])
p.end()
o = Proc(b); o.log([sread(s, 0), sread(s, 1)]); o.wait(sigs=[(s.nets, s.name)]); o.forever()
save("C01-composite-inertial", b, 8)

b = Builder(random.Random(0))
s = b.signal("int", "sum", init=[5])
i = b.imp("delayed", list(s.nets), 1)
p = Proc(b); p.wait(timeout=c(3)); p.assign(s, "transport", None, [(c(1), c(0))]); p.end()
p = Proc(b); p.wait(timeout=c(4)); p.assign(s, "transport", None, [(c(1), c(0))]); p.end()
o = Proc(b); o.log([sread(s), ("int", ["imp", i], s.name + "'delayed(1 ns)")]); o.end()
save("C04-delayed-resolved-initial", b, 6)

def late(name, es):
    b = Builder(random.Random(0))
    s = b.signal("int", width=2, init=[0, 0])
    p = Proc(b)
    p.assign(s, "transport", None, [([c(1), c(2)], c(1)), ([c(1), c(3)], c(2))]); p.wait(timeout=c(2)); p.log(es(s)); p.end()
    save(name, b, 8)
late("C04-late-split-event", lambda s: [attr("event", [s.nets[0]], s.elem(0)), attr("last_event", [s.nets[0]], s.elem(0), "time")])
late("C04-late-split-last-value", lambda s: [("int", ["last_value", s.nets[0]], s.elem(0) + "'last_value")])

b = Builder(random.Random(0))
s = b.signal("int", "max", kind="register", init=[4])
p = Proc(b)
p.assign(s, "transport", None, [(c(3), c(0))]); p.wait(timeout=c(1))
p.assign(s, "transport", None, [(None, c(0))]); p.wait(timeout=c(1))
p.emit("force", "in", list(s.nets), [["c", 9]]); p.out("s1 <= force 9;"); p.wait(timeout=c(1))
p.emit("release", "in", list(s.nets)); p.out("s1 <= release;"); p.wait(timeout=c(1))
p.log([sread(s)]); p.end()
save("C05-register-release", b, 8)
