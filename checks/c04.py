#!/usr/bin/env python3
"""C04: predefined attributes of signals."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, kcheck
from vk.kgen import *

def prefixes(s):
    """(nets, text, element index or None) of the whole signal, its elements and slices."""
    out = [(list(s.nets), s.name, None)]
    if s.width:
        for k in range(s.width):
            out.append(([s.nets[k]], s.elem(k), k))
        if s.width > 2:
            a, z = 1, s.width - 1
            out.append((s.nets[a:z + 1], "%s(%d %s %d)" % (s.name, s.index(a), "downto" if s.downto else "to", s.index(z)), None))
    return out

def gen(r, i):
    b = Builder(r)
    feats = set()
    nsig = r.choice([1, 1, 2])
    split = r.random() < .7
    for _ in range(nsig):
        ty = r.choice(["int", "int", "std", "enum", "real"])
        res = r.choice(["none", "none", {"int": r.choice(["sum", "max"]), "std": "std", "enum": "enum", "real": "none"}[ty]])
        kind = r.choice(["bus", "register"]) if res != "none" and r.random() < .3 else "none"
        b.signal(ty, res, kind=kind, width=r.choice([0, 0, 0, 2, 3] if split else [2, 3]), downto=r.random() < .5)
    imps = []     # (type, imp index list, text, kind)
    for s in b.sigs:
        for _ in range(r.randint(0, 3)):
            nets, text, k = r.choice(prefixes(s))
            kind = r.choice(["stable", "quiet", "delayed", "delayed", "transaction"])
            if kind == "delayed" and (s.res == "sum" or s.res == "std" and 8 in s.init):
                kind = "quiet"       # initial value: known finding
            t = r.choice([0, 1, 2, 3, 5])
            arg = "" if t == 0 and r.random() < .7 else "(%d ns)" % t
            if kind == "transaction":
                imps.append(("bit", [b.imp(kind, nets, 0)], text + "'transaction", kind))
            elif kind == "delayed":
                if k is None and s.width:
                    if len(nets) != s.width:
                        continue
                    for j, n in enumerate(nets):
                        imps.append((s.ty, [b.imp("delayed", [n], t)], "%s'delayed(%d ns)(%d)" % (text, t, s.index(j)), "delayed elem"))
                else:
                    imps.append((s.ty, [b.imp("delayed", nets, t)], text + "'delayed" + arg, kind))
            else:
                imps.append(("bool", [b.imp(kind, nets, t)], text + "'" + kind + arg, kind))
            feats.add("implicit " + kind)
    def iread(x):
        ty = {"bit": "bit"}.get(x[0], x[0])
        return (ty, ["imp", x[1][0]], x[2])
    def quiet_event(p):
        """Without a split before: an element has no event when the whole signal has none."""
        s = r.choice([s for s in b.sigs if s.width] or [None])
        if s is None or split:
            return
        feats.add("late element event")
        k = r.randrange(s.width)
        p.branch(op("not", attr("event", s.nets, s.name)),
                 lambda: p.log([attr("event", [s.nets[k]], s.elem(k)), sread(s, k)]))
    def attrs(p, n):
        es = []
        for _ in range(n):
            s = r.choice(b.sigs)
            nets, text, k = r.choice(prefixes(s) if split else prefixes(s)[:1])
            x = r.random()
            if x < .2:
                es.append(attr("event", nets, text)); feats.add("event")
            elif x < .35:
                es.append(attr("active", nets, text)); feats.add("active")
            elif x < .45:
                es.append(attr("last_event", nets, text, "time")); feats.add("last_event")
            elif x < .55:
                es.append(attr("last_active", nets, text, "time")); feats.add("last_active")
            elif x < .65 and (k is not None or not s.width):
                es.append((s.ty, ["last_value", nets[0]], text + "'last_value")); feats.add("last_value")
            elif x < .8 and p.drives:
                s, k = r.choice(p.drives)
                text = s.name if k is None else s.elem(k)
                nets = s.nets if k is None else [s.nets[k]]
                if s.kind != "none":
                    es.append(attr("driving", nets, text)); feats.add("driving")
                elif k is not None or not s.width:
                    es.append((s.ty, ["driving_value", nets[0]], text + "'driving_value")); feats.add("driving_value")
            elif imps:
                m = r.choice(imps)
                # the initial value of 'transaction is not defined: only its events are observed
                if m[3] != "delayed elem" and (m[3] == "transaction" or r.random() < .25):
                    es.append(("bool", ["ievent", m[1][0]], m[2] + "'event")); feats.add("event of implicit")
                else:
                    es.append(iread(m))
            else:
                es.append(sread(s, r.randrange(s.width) if s.width else 0))
        return es
    # Known finding: attributes of an element whose signal was first taken apart
    # after an event.  Either look at the elements at time zero or not at all.
    if split:
        for s in b.sigs:
            if s.width:
                o = Proc(b)
                o.log([attr("event", [s.nets[k]], s.elem(k)) for k in range(s.width)])
                o.end()
    nproc = r.choice([1, 1, 2, 3])
    owner = {}
    for _ in range(nproc):
        p = Proc(b)
        p.drives = []
        v = p.var()
        def one(first=False):
            cands = [s for s in b.sigs if s.res != "none" or owner.get(s.name, p.id) == p.id]
            if not cands:
                return
            s = r.choice(cands)
            owner[s.name] = p.id
            zero = r.random() < .5
            mech = r.choice(["transport", "inertial", "inertial", "reject"])
            k = None
            if s.width and split and r.random() < .7:
                k = r.randrange(s.width)
            if s.width and k is None and not zero:
                mech = "transport"
            n = 1 if zero else r.choice([1, 1, 2])
            d, elems = (0 if zero else r.choice([1, 1, 2, 3])), []
            def val():
                x = r.random()
                if s.ty == "int" and x < .3:
                    return op("mod", var(v), const("int", 4))
                if x < .45:
                    return sread(s, 0)
                return const(s.ty, r.choice([0, 1, 2]))
            for q in range(n):
                if s.kind != "none" and r.random() < .2:
                    x = None; feats.add("null")
                elif s.width and k is None:
                    x = [val() for _ in range(s.width)]
                    if r.random() < (.5 if not split else .1):
                        x = [sread(s, j) for j in range(s.width)]
                else:
                    x = val()
                elems.append((x, const("int", d)))
                d += r.choice([1, 2, 3])
            rej = const("int", r.randint(0, elems[0][1][1][1])) if mech == "reject" else None
            p.assign(s, mech, rej, elems, k=k)
            if (s, k) not in p.drives:
                p.drives.append((s, k))
        one()
        def body(lv=None):
            for _ in range(r.randint(1, 4)):
                one()
                if r.random() < .3:
                    p.set(v, op("+", var(v), const("int", 1)))
                if r.random() < .4:
                    p.log(attrs(p, r.randint(1, 4)))
                if r.random() < .7:
                    p.wait(timeout=const("int", r.choice([0, 0, 1, 1, 2, 4])))
                    if r.random() < .5:
                        quiet_event(p)
                    if r.random() < .5:
                        p.log(attrs(p, r.randint(1, 4)))
        p.loop(r.randint(1, 4), body)
        p.end()
    # observers: by polling and by waiting on signals and implicit signals
    for _ in range(r.randint(1, 3)):
        o = Proc(b)
        o.drives = []
        how = r.choice(["poll", "sig", "imp", "until"])
        if how in ("imp", "until") and not imps:
            how = "sig"
        if how == "until" and not [m for m in imps if m[0] == "bool"]:
            how = "imp"
        def rest():
            o.log(attrs(o, r.randint(2, 6)))
        rest()
        if how == "poll":
            def lb(lv):
                o.wait(timeout=const("int", r.choice([1, 1, 2])))
                rest()
                quiet_event(o)
                if r.random() < .4:
                    o.wait(timeout=const("int", 0))
                    rest()
                    quiet_event(o)
            o.loop(12, lb)
            o.end()
        elif how == "sig":
            nets, text, k = r.choice(prefixes(r.choice(b.sigs)))
            o.wait(sigs=[(nets, text)])
            o.forever()
        elif how == "imp":
            ms = r.sample([m for m in imps if m[3] != "delayed elem"] or imps[:1], 1)
            if ms[0][3] == "delayed elem":
                o.end()
            else:
                o.wait(imps=[(ms[0][1][0], ms[0][2])])
                o.forever()
        else:
            m = r.choice([m for m in imps if m[0] == "bool"])
            e = iread(m)
            o.wait(auto=True, sens=[], imps=[(m[1][0], "")], cond=op("not", e) if r.random() < .5 else e)
            o.forever()
    return b.final(30), architecture(b), feats

def body(c):
    kcheck.known(c)
    kcheck.run(c, gen, c.n(1200, 20000), ["jit", "jit-shuffle", "jit", "aot", "jit-nocollapse"])

if __name__ == "__main__":
    check.main("C04", body)
