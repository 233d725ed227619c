#!/usr/bin/env python3
"""C12: waveform dumps."""
import os, re, sys, shutil, subprocess, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import build, check, known, nvc, tlc

LOGIC = list("UX01ZWLH-")
CHARS = "abcXYZ019 _#"
TIMEU = [[1, "FS"], [10**3, "PS"], [10**6, "NS"], [10**9, "US"], [0, "MS"], [0, "SEC"], [0, "MIN"], [0, "HR"]]
SCALARS = {
  # VHDL name: type of the specification, values
  "std_logic": {"k": "logic", "lits": LOGIC}, "std_ulogic": {"k": "logic", "lits": LOGIC}, "bit": {"k": "logic", "lits": ["0", "1"]},
  "boolean": {"k": "enum", "lits": ["false", "true"]}, "en": {"k": "enum", "lits": ["aa", "'x'", "bb_c", "'y'"]},
  "severity_level": {"k": "enum", "lits": ["note", "warning", "error", "failure"]},
  "character": {"k": "enum", "lits": None},
  "integer": {"k": "int", "bits": 32}, "natural": {"k": "int", "bits": 32}, "sm": {"k": "int", "bits": 8}, "sn": {"k": "int", "bits": 8},
  "sb": {"k": "int", "bits": 1}, "sw": {"k": "int", "bits": 16}, "szi": {"k": "int", "bits": 16}, "nat": {"k": "int", "bits": 32}, "sl": {"k": "int", "bits": 64}, "su": {"k": "int", "bits": 64},
  "real": {"k": "real"}, "time": {"k": "phys", "units": TIMEU},
  "ph": {"k": "phys", "units": [[1, "U"], [7, "V"], [21, "W"]]}, "pn": {"k": "phys", "units": [[1, "AA"], [10, "BB"]]},
}
RANGE = {"integer": None, "natural": (0, 2**31 - 1), "sm": (0, 9), "sn": (-5, 5), "sb": (0, 1), "sw": (0, 300), "szi": (-200, 200), "nat": (3, 700), "sl": (-2**31 + 1, 2**31 - 1), "su": (0, 2**31 - 1), "ph": (-1000, 1000), "pn": (0, 255)}
ENLIT = {"boolean": ["false", "true"], "en": ["Aa", "'x'", "bB_c", "'y'"], "severity_level": ["note", "warning", "error", "failure"],
         "bit": ["'0'", "'1'"], "std_logic": ["'%s'" % c for c in LOGIC], "std_ulogic": ["'%s'" % c for c in LOGIC],
         "character": ["'%s'" % c for c in CHARS]}
VECS = ["bit_vector", "std_logic_vector", "unsigned", "signed", "string", "std_ulogic_vector"]
ELEM = {"bit_vector": "bit", "std_logic_vector": "std_logic", "unsigned": "std_logic", "signed": "std_logic", "string": "character", "std_ulogic_vector": "std_ulogic"}
PKG = '''  type en is (Aa, 'x', bB_c, 'y');
  type sm is range 0 to 9; type sn is range -5 to 5; type sb is range 0 to 1; type sw is range 0 to 300; type szi is range -200 to 200;
  type sl is range -2**40 to 2**40; type su is range 0 to 2**40;
  subtype nat is natural range 3 to 700;
  type ph is range -1000 to 1000 units u; v = 7 u; w = 3 v; end units;
  type pn is range 0 to 255 units aa; bb = 10 aa; end units;
'''

class Ty:
    """A type: its VHDL name, the description for the specification, and how to write values."""
    def __init__(self, name, spec, kind, parts=None):
        self.name, self.spec, self.kind, self.parts = name, spec, kind, parts
    def value(self, r):
        if self.kind == "array": return [self.parts.value(r) for _ in range(alen(self.spec))]
        if self.kind == "record": return [t.value(r) for _, t in self.parts]
        n = self.name
        if n in ENLIT: return r.randrange(len(ENLIT[n]))
        if n == "real": return r.randint(-9, 9)
        if n == "time": return r.choice([0, 0, r.randint(-2000, 2000), r.choice([1, -1, 1000, -616, 616]) * 1, r.randint(-2000, 2000) * 1000, r.randint(-2000, 2000) * 10**6, r.choice([10**9, -10**9, 2 * 10**9])])
        lo, hi = RANGE[n] or (-2**31 + 1, 2**31 - 1)
        return r.choice([lo, hi, r.randint(lo, hi), r.randint(max(lo, -300), min(hi, 300)), max(lo, min(hi, 0))])
    def lit(self, v):
        if self.kind == "record":
            return "(%s)" % ", ".join("%s => %s" % (f, t.lit(x)) for (f, t), x in zip(self.parts, v))
        if self.kind == "array":
            if self.parts.name in ENLIT and self.parts.name not in ("boolean", "en", "severity_level"):
                return '"%s"' % "".join(ENLIT[self.parts.name][x][1] for x in v)
            l = self.spec["l"]
            return "(%s)" % ", ".join("%d => %s" % (l + i if self.spec["dir"] == "to" else l - i, self.parts.lit(x)) for i, x in enumerate(v)) if v else None
        n = self.name
        if n in ENLIT: return ENLIT[n][v]
        if n == "real": return "(%s)" % (v / 2)
        if n == "time": return "(%d fs)" % v
        if n in ("ph", "pn"): return "(%d %s)" % (v, "u" if n == "ph" else "aa")
        return str(v) if v >= 0 else "(%d)" % v

def alen(s):
    return max(0, s["r"] - s["l"] + 1 if s["dir"] == "to" else s["l"] - s["r"] + 1)

class Gen:
    def __init__(self, r):
        self.r = r
        self.feats = collections.Counter()
        self.decls, self.ntype = [], 0
        self.objs, self.lbl = [], 0
        self.collapse = r.random() < .6
        self.arrays = r.choice([0, 0, 1000000, 1000000, 1000000, r.randint(1, 6)])
        self.ents = []
        self.pool = [self.scalar() for _ in range(2)] + [self.vector() for _ in range(2)]
        for _ in range(r.randint(2, 6)):
            self.pool.append(self.newtype())
        self.owned = collections.defaultdict(list)      # scope -> objects it drives

    def scalar(self, plain=False):
        n = self.r.choice([x for x in SCALARS if not plain or SCALARS[x]["k"] == "logic" or SCALARS[x]["k"] == "int"])
        s = dict(SCALARS[n])
        if n == "character": s["lits"] = ["'%s'" % c for c in CHARS]
        return Ty(n, s, "scalar")
    def rng(self):
        r = self.r
        l = r.randint(-2 if r.random() < .2 else 0, 4)
        n = r.choice([1, 2, 2, 3, 3, 4, 8 if r.random() < .3 else 2])
        return (l, l + n - 1, "to") if r.random() < .5 else (l + n - 1, l, "downto")
    def vector(self, null=True):
        r = self.r
        v = r.choice(VECS)
        l, h, d = self.rng()
        if v == "string":
            d = "to"; l, h = 1, abs(h - l) + 1
        elif l < 0 or h < 0:
            l += 2; h += 2
        if null and r.random() < .03: l, h = (1, 0) if d == "to" else (0, 1); self.feats["null vector"] += 1
        e = {"k": "logic", "lits": list(CHARS) if v == "string" else ["0", "1"] if v == "bit_vector" else LOGIC}
        return Ty("%s(%d %s %d)" % (v, l, d, h), {"k": "array", "l": l, "r": h, "dir": d, "elem": e, "inner": False}, "array", Ty(ELEM[v], e, "scalar"))
    def tname(self, p):
        self.ntype += 1
        return "%s%d" % (p, self.ntype)
    def newtype(self, depth=2):
        r = self.r
        x = r.random()
        some = [t for t in self.pool if t.kind != "scalar"]
        if x < .35:
            n = self.tname("r")
            fs = []
            for i in range(r.randint(1, 4)):
                t = r.choice(some) if depth and some and r.random() < .3 else self.scalar() if r.random() < .6 else self.vector()
                fs.append(("%s%d" % (r.choice("fF"), i), t))
            self.decls.append("  type %s is record %s end record;\n" % (n, " ".join("%s : %s;" % (f, t.name) for f, t in fs)))
            self.feats["record"] += 1
            return Ty(n, {"k": "record", "fields": [[f.lower(), t.spec] for f, t in fs]}, "record", fs)
        n = self.tname("a")
        while True:
            y = r.random()
            if y < .35: e = self.scalar()
            elif y < .6 or not some: e = self.vector(null=False)
            else: e = r.choice(some)
            if e.spec["k"] == "enum": continue          # known finding enum-array
            if e.kind == "array":
                i = e.spec
                d = 0
                while i["k"] == "array": i = i["elem"]; d += 1
                if i["k"] in ("real", "phys", "enum"): continue     # known finding nested-array
                if d > 2 or alen(e.spec) == 0: continue
            if size(e) > 12: continue
            break
        l, h, d = self.rng()
        if abs(h - l) > 3 or h == l: h = l + (1 if d == "to" else -1)
        s = {"k": "array", "l": l, "r": h, "dir": d, "elem": e.spec, "inner": False}
        if r.random() < .5:
            self.decls.append("  type %s is array (%d %s %d) of %s;\n" % (n, l, d, h, e.name))
            name = n
        else:
            self.decls.append("  type %s is array (integer range <>) of %s;\n" % (n, e.name))
            name = "%s(%d %s %d)" % (n, l, d, h)
            self.feats["constrained subtype"] += 1
        self.feats["array of " + (e.kind if e.kind != "scalar" else e.spec["k"])] += 1
        return Ty(name, s, "array", e)

    def obj(self, scope, gpath, name, t, conn=(), init=None, pkg=False):
        o = {"scope": scope, "path": list((gpath + ":" + name).lower()), "name": name.lower(), "t": t.spec, "init": 0 if init is None else init, "conn": list(conn), "pkg": pkg}
        self.objs.append(o)
        o["_t"] = t
        return len(self.objs)

    def name(self):
        self.lbl += 1
        return self.r.choice(["s%d", "S%d", "sig_%d", "x%d"]) % self.lbl

    def part(self, t, rec=True):
        """A part of type t: (path, VHDL suffix, type)"""
        r = self.r
        if t.kind == "scalar" or r.random() < .4: return [], "", t
        if t.kind == "record":
            i = r.randrange(len(t.parts))
            f, ft = t.parts[i]
            p, s, u = self.part(ft)
            return [["i", i + 1]] + p, "." + f + s, u
        n = alen(t.spec)
        if n == 0: return [], "", t
        l, up = t.spec["l"], t.spec["dir"] == "to"
        ix = lambda k: l + k if up else l - k
        if r.random() < .3 and t.parts.kind == "scalar" and n > 1 and "(" in t.name:
            a = r.randrange(n); b = r.randrange(a, n)
            spec = dict(t.spec, l=ix(a), r=ix(b))
            return [["s", a + 1, b + 1]], "(%d %s %d)" % (ix(a), t.spec["dir"], ix(b)), Ty(re.sub(r"\(.*", "", t.name) + "(%d %s %d)" % (ix(a), t.spec["dir"], ix(b)), spec, "array", t.parts)
        i = r.randrange(n)
        e = t.parts
        if e.name == "character": e = Ty("character", {"k": "enum", "lits": ["'%s'" % c for c in CHARS]}, "scalar")
        p, s, u = self.part(e)
        return [["i", i + 1]] + p, "(%d)%s" % (ix(i), s), u

    def get(self, o, p):
        ob = self.objs[o - 1]
        if ob["conn"]:
            return self.get(ob["conn"][0], ob["conn"][1] + p)
        v = ob["init"]
        for x in p:
            v = v[x[1] - 1] if x[0] == "i" else v[x[1] - 1:x[2]]
        return v

    def body(self, scope, gpath, ports, depth):
        """The contents of an architecture or block: text.  ports: objects that it drives (out)."""
        r = self.r
        decl, stmt = [], []
        mine = list(ports)
        local = []
        for _ in range(r.randint(1, 5 if depth else 3)):
            t = r.choice(self.pool)
            n = self.name()
            v = t.value(r)
            l = t.lit(v)
            if l is None and t.kind == "array": l = '""' if t.parts.name in ENLIT else None
            k = self.obj(scope, gpath, n, t, init=v)
            decl.append("signal %s : %s := %s;" % (n, t.name, l))
            mine.append((k, n)); local.append((k, n))
        driven = set()
        for _ in range(r.randint(0, 3) if depth else 0):
            x = r.random()
            if x < .5:
                u = "u%d" % (len(self.ents) + 1)
                lbl = r.choice(["i", "I", "inst_"]) + str(len(self.ents) + 1)
                self.ents.append(None)
                at = len(self.ents) - 1
                pd, pm, outs, done = [], [], [], []
                sc, gp = scope + "." + lbl.lower(), gpath + ":" + lbl.lower()
                for q in range(r.randint(0, 4)):
                    k, n = r.choice(local + ports)
                    if n.startswith("pi") and r.random() < .5: continue
                    t = self.objs[k - 1]["_t"]
                    p, s, pt = [], "", t
                    if not self.collapse and r.random() < .5:
                        p, s, pt = self.part(t)
                    if pt.kind == "array" and alen(pt.spec) == 0: continue
                    out = (k, n) in mine and k not in driven and not n.startswith("pi") and r.random() < .4
                    name = ("po" if out else "pi") + self.name()
                    tn, spec, ty = pt.name, pt.spec, pt
                    if pt.kind == "array" and "(" in pt.name and r.random() < .4:
                        # another index range
                        m = alen(pt.spec)
                        base = re.sub(r"\(.*", "", pt.name)
                        l0 = 1 if base == "string" else r.randint(0, 3)
                        dr = "to" if base == "string" or r.random() < .5 else "downto"
                        l1, r1 = (l0, l0 + m - 1) if dr == "to" else (l0 + m - 1, l0)
                        tn = "%s(%d %s %d)" % (base, l1, dr, r1)
                        ty = Ty(tn, dict(pt.spec, l=l1, r=r1, dir=dr), "array", pt.parts)
                        self.feats["port with other range"] += 1
                    elif pt.kind == "array" and "(" in pt.name and r.random() < .5 and (not out or pt.parts.name in ENLIT):
                        tn = re.sub(r"\(.*", "", pt.name)
                        self.feats["unconstrained port"] += 1
                    o = self.obj(sc, gp, name, ty, conn=(k, p))
                    if out:
                        driven.add(k)
                        if (k, n) in mine: mine.remove((k, n))
                        if p:
                            pass
                        outs.append((o, name))
                        lit = ty.lit(self.get(o, []))
                        pd.append("%s : out %s := %s" % (name, tn, lit))
                        self.feats["out port"] += 1
                    else:
                        done.append((o, name))
                        pd.append("%s : in %s" % (name, tn))
                        self.feats["in port"] += 1
                    pm.append("%s => %s%s" % (name, n, s))
                d, s = self.body(sc, gp, outs + done, depth - 1)
                self.ents[at] = "%sentity %s is %s end entity;\n%sarchitecture a of %s is\n%s\nbegin\n%s\nend architecture;\n" % (
                    USE, u, "port (%s);" % "; ".join(pd) if pd else "", USE, u, "\n".join(d), "\n".join(s))
                comp = r.random() < .3
                if comp:
                    decl.append("component %s is %s end component;" % (u, "port (%s);" % "; ".join(pd) if pd else ""))
                    self.feats["component"] += 1
                stmt.append("%s : %s%s%s;" % (lbl, "" if comp else "entity work.", u, " port map (%s)" % ", ".join(pm) if pm else ""))
                self.feats["instance"] += 1
            elif x < .65:
                self.lbl += 1
                l = "B%d" % self.lbl
                d, s = self.body(scope + "." + l.lower(), gpath + ":" + l.lower(), [], depth - 1)
                stmt.append("%s : block %s begin %s end block;" % (l, "\n".join(d), "\n".join(s)))
                self.feats["block"] += 1
            elif x < .8:
                self.lbl += 1
                l = "G%d" % self.lbl
                d, s = self.body(scope + "." + l.lower(), gpath + ":" + l.lower(), [], depth - 1)
                stmt.append("%s : if true generate %s begin %s end generate;" % (l, "\n".join(d), "\n".join(s)))
                self.feats["if generate"] += 1
            else:
                self.lbl += 1
                l = "F%d" % self.lbl
                t = r.choice(self.pool)
                n = self.name()
                v = t.value(r)
                lo = r.randint(0, 2)
                for i in range(lo, lo + r.randint(1, 2)):
                    hi = i
                    self.obj("%s.%s(%d)" % (scope, l.lower(), i), "%s:%s(%d)" % (gpath, l.lower(), i), n, t, init=v)
                stmt.append("%s : for i in %d to %d generate signal %s : %s := %s; begin end generate;" % (l, lo, hi, n, t.name, t.lit(v) or '""'))
                self.feats["for generate"] += 1
        mine = [(k, n) for k, n in mine if not n.startswith("pi")]
        for k, n in mine:
            if r.random() < .85:
                stmt.append(self.driver(k, n))
        for k, n in ports:
            if n.startswith("pi") and r.random() < .7 and self.objs[k - 1]["t"]["k"] != "x":
                stmt.append("process (%s) begin if %s'event then report \"%s\"; end if; end process;" % (n, n, n))
        return decl, stmt

    def driver(self, k, n):
        r = self.r
        t = self.objs[k - 1]["_t"]
        out, now, delta = [], 0, 0
        for _ in range(r.randint(1, 7)):
            for _ in range(r.randint(1, 2)):
                p, s, pt = self.part(t)
                v = pt.value(r)
                l = pt.lit(v)
                if l is None: continue
                if pt.kind == "array" and not v: continue
                out.append("%s%s <= %s;" % (n, s, l))
                self.ev.append((now, delta + 1, k, p, v))
            if r.random() < .35:
                out.append("wait for 0 ns;")
                delta += 1
                self.feats["delta cycle"] += 1
            else:
                d = r.choice([1, 1, 2, 3, 10, 100])
                out.append("wait for %d ns;" % d)
                now += d
                delta = 0
        return "process begin\n%s\nwait;\nend process;" % "\n".join(out)

    def program(self):
        r = self.r
        self.ev = []
        pk = []
        self.pkg = r.random() < .3
        if self.pkg:
            for _ in range(r.randint(1, 2)):
                t = r.choice(self.pool)
                n, v = self.name(), t.value(r)
                self.obj("work.sp", "", n, t, init=v, pkg=True)
                pk.append("  signal %s : %s := %s;\n" % (n, t.name, t.lit(v) or '""'))
            self.feats["package"] += 1
        d, s = self.body("t", ":t", [], 2)
        text = "%spackage pk is\n%s%send package;\n" % (LIBS, PKG, "".join(self.decls))
        if pk: text += "%spackage sp is\n%send package;\n" % (USE, "".join(pk))
        text += "".join(reversed(self.ents))
        use = USE + ("use work.sp.all;\n" if pk else "")
        if pk: s.append("process begin if %s'event and %s'active then null; end if; wait; end process;" % ((re.search(r"signal (\w+)", pk[0])[1],) * 2))
        text += "%sentity t is end entity;\n%sarchitecture a of t is\n%s\nbegin\n%s\nend architecture;\n" % (use, use, "\n".join(d), "\n".join(s))
        times = sorted({e[0] for e in self.ev}) or [0]
        stop = r.choice(times) + r.choice([0, 1, 50]) if r.random() < .4 else times[-1] + 200
        script = []
        for key in sorted({(e[0], e[1]) for e in self.ev}):
            script.append({"time": key[0], "assign": [{"obj": e[2], "part": e[3], "v": e[4]} for e in self.ev if (e[0], e[1]) == key]})
        incl, excl = [], []
        if r.random() < .4:
            for l in (incl, excl):
                for _ in range(r.choice([0, 1, 1, 2])):
                    p = "".join(r.choice(self.objs)["path"])
                    l.append(self.mutate(p))
            self.feats["globs"] += 1
        case = {"objs": [{k: v for k, v in o.items() if k != "_t"} for o in self.objs], "script": script, "stop": stop, "arrays": self.arrays,
                "incl": [list(x) for x in incl], "excl": [list(x) for x in excl], "collapse": self.collapse}
        return case, text, incl, excl

    def mutate(self, p):
        r = self.r
        for _ in range(r.randint(0, 3)):
            a = r.randint(0, len(p)); b = r.randint(a, min(len(p), a + r.choice([0, 1, 3, 9])))
            p = p[:a] + "*" + p[b:]
        return p or "*"

def size(t):
    if t.kind == "scalar": return 1
    if t.kind == "record": return sum(size(x) for _, x in t.parts)
    return alen(t.spec) * size(t.parts)

LIBS = "library ieee;\nuse ieee.std_logic_1164.all;\nuse ieee.numeric_std.all;\n"
USE = LIBS + "use work.pk.all;\n"

def parse(path):
    """Variables of a VCD file: name -> [[time in ns, text]] of the values at the end of each time step."""
    ids, dump, scope, now = collections.defaultdict(list), {}, [], 0
    bad = []
    data = open(path, "rb").read().decode("latin1")
    head, _, rest = data.partition("$enddefinitions $end\n")
    for l in head.split("\n"):
        w = l.split()
        if not w: continue
        if w[0] == "$scope": scope.append(w[2])
        elif w[0] == "$upscope": scope.pop()
        elif w[0] == "$var":
            n = ".".join(scope + [w[4]])
            if n in dump: bad.append("declared twice: " + n)
            dump[n] = []
            ids[w[3]].append((n, w[1], int(w[2])))
    vals = {}
    hist = collections.defaultdict(list)
    def flush():
        for i, v in vals.items():
            if not hist[i] or hist[i][-1][1] != v: hist[i].append([now, v])
        vals.clear()
    last = -1
    for l in rest.split("\n"):
        if not l or l[0] == "$": continue
        if l[0] == "#":
            flush()
            t = int(l[1:])
            if t < last or t % 10**6: bad.append("time " + l)
            last, now = t, t // 10**6
        elif l[0] in "brs":
            v, _, i = l[1:].rpartition(" ")
            if l[0] == "r":
                v = float(v) * 2
                v = str(int(v)) if v == int(v) else "real %s" % v
            elif l[0] == "s":
                v = re.sub(r"\\(x[0-9a-fA-F]{2}|[0-7]{3}|.)", lambda m: chr(int(m[1][1:], 16)) if m[1][0] == "x" and len(m[1]) == 3 else chr(int(m[1], 8)) if len(m[1]) == 3 else m[1], v)
            vals[i] = v
        else:
            vals[l[1:]] = l[0].upper() if l[0] in "uxzwlh" else l[0]
    flush()
    for i, ns in ids.items():
        for n, kind, bits in ns:
            dump[n] = hist[i]
            for t, v in hist[i]:
                if kind in ("logic", "integer") and len(v) != bits:
                    bad.append("%s has %d bits: %s" % (n, bits, v)); break
    return dump, bad

def observe(g, vhdl, incl, excl, stop, fmt, mode, files):
    d = nvc.scratch()
    try:
        with open(os.path.join(d, "t.vhd"), "w") as f: f.write(vhdl)
        opts = ["--stop-time=%dns" % stop]
        if files:
            for n, l in (("t.include", incl), ("t.exclude", excl)):
                if l:
                    with open(os.path.join(d, n), "w") as f: f.write("# globs\n" + "".join("  %s # x\n" % x for x in l))
        else:
            opts += ["--include=" + x for x in incl] + ["--exclude=" + x for x in excl]
        wave = ["--wave=f." + fmt, "--format=" + fmt]
        if g.arrays: wave.append("--dump-arrays" if g.arrays == 1000000 else "--dump-arrays=%d" % g.arrays)
        a = nvc.BASE + ["-a", "t.vhd", "-e"] + (["--jit", "--no-save"] if mode == "jit" else []) + ([] if g.collapse else ["--no-collapse"]) + ["t", "-r"] + opts + wave + ["t"]
        r = nvc.cmd(a, d, 60, {"TMPDIR": d})
        plain = None
        if mode == "jit" and stop % 3 == 0:
            a0 = [x for x in a if x not in wave]
            plain = [[str(m["time"]), m["delta"] or 0, m["text"]] for m in nvc.messages(nvc.cmd(a0, d, 60).out) if m["text"].startswith("p")]
        log = [[str(m["time"]), m["delta"] or 0, m["text"]] for m in nvc.messages(r.out) if m["text"].startswith("p")]
        bad = [m["text"] for m in nvc.messages(r.out) if m["sev"] != "note"]
        dump = {}
        if r.rc == 0:
            if fmt == "fst":
                p = subprocess.run([os.path.join(build.B, "bin", "fst2vcd"), "f.fst", "f.vcd"], cwd=d, timeout=60)
                if p.returncode: bad.append("the FST file cannot be read")
            if not bad:
                try:
                    dump, b = parse(os.path.join(d, "f.vcd"))
                    bad += b
                except (ValueError, OSError) as e:
                    bad.append("malformed dump: %r" % e)
        return dump, bad, r, log, log if plain is None else plain
    finally:
        shutil.rmtree(d, ignore_errors=True)

def body(c):
    n = c.n(500, 15000)
    feat = collections.Counter()
    done = 0
    while done < n and c.left() > 0 and len(c.violations) < 3:
        k = min(125, n - done)
        gs = [Gen(c.rng) for _ in range(k)]
        progs = [g.program() for g in gs]
        how = [(c.rng.choice(["vcd", "vcd", "fst"]), "jit", c.rng.random() < .3) for _ in range(k)]
        res = list(c.pool.map(lambda i: observe(gs[i], *progs[i][1:], progs[i][0]["stop"], *how[i]), range(k)))
        failed = ["fstReaderOpen" in res[i][2].out or any("FST file cannot be read" in x for x in res[i][1]) for i in range(k)]
        cases = [dict(progs[i][0], failed=failed[i], log=res[i][3], plain=res[i][4], dump=dict(res[i][0], **{"%": [[0, "%"]]})) for i in range(k)]
        v, tr = tlc.validate("Wave", cases)
        c.count(tr)
        c.traces += k
        done += k
        for i in range(k):
            feat.update(gs[i].feats); feat[how[i][0]] += 1
            feat["variables"] += len(res[i][0])
            why = v[i]
            if (res[i][1] or res[i][2].rc) and not failed[i]: why = "unexpected: %s" % (res[i][1][:3] or res[i][2].out[-300:])
            if res[i][2].crashed and not failed[i]: why = "crashed: " + res[i][2].out[-300:]
            if why and len(c.violations) < 3:
                print("  rejected: %s" % str(why)[:600])
                c.violation("case%d" % len(c.violations), {"why": why, "vhdl": progs[i][1], "incl": progs[i][2], "excl": progs[i][3], "how": how[i],
                            "collapse": gs[i].collapse, "arrays": gs[i].arrays, "output": res[i][2].out[-3000:], "case": cases[i]})
        c.sample({"variables": sorted(res[0][0])[:10]}, 2)
    c.cover["features"] = dict(feat)
    def show(text):
        d = nvc.scratch()
        try:
            with open(os.path.join(d, "t.vhd"), "w") as f: f.write(text)
            r = nvc.cmd(nvc.BASE + ["-a", "t.vhd", "-e", "--jit", "--no-save", "t", "-r", "--stop-time=50ns", "--wave=f.vcd", "--format=vcd", "--dump-arrays", "t"], d, 60, {"TMPDIR": d})
            dump, bad = parse(os.path.join(d, "f.vcd")) if r.rc == 0 else ({}, [])
            return r.out + "".join("%s %s\n" % (n, dump[n]) for n in sorted(dump)) + "\n".join(bad)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    known.texts(c, show)
    c.assumptions += ["arrays of enumeration types other than characters, bits and logic values, and nested arrays of real or physical types are not generated (known findings)",
                      "a port that is connected to a part of a signal is only generated with --no-collapse (known finding partial-alias)"]

if __name__ == "__main__":
    check.main("C12", body, targets=("libs", "fst2vcd"))
