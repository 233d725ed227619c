#!/usr/bin/env python3
"""C24: attributes of types, string representations and predefined array operators."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, fcheck, known, nvc

ENUMS = [["red", "green", "blue", "'a'", "'B'", "yellow", "\\Foo\\", "x1", "'1'", "'0'", "last_one"]]

class T:
    def __init__(self, name, k, l, r, d, base=None, names=(), units=(), mult=()):
        self.name, self.k, self.l, self.r, self.d, self.base = name, k, l, r, d, base or self
        self.names, self.units, self.mult = list(names), list(units), list(mult)
        self.dims = []
    lo = property(lambda s: s.l if s.d == 0 else s.r)
    hi = property(lambda s: s.r if s.d == 0 else s.l)
    def rec(self):
        b = self.base
        return {"k": self.k, "l": self.l, "r": self.r, "d": self.d, "bl": b.l, "br": b.r, "names": b.names or ["-"], "units": b.units or ["-"],
                "mult": b.mult or [1], "dims": self.dims or [{"l": 0, "r": 0, "d": 0}]}
    def lit(self, v):
        return str(v) if self.k == "int" and v >= 0 else "(%d)" % v if self.k == "int" else self.base.names[v] if self.k == "enum" else \
               "(%d %s)" % (v, self.base.units[0]) if v < 0 else "%d %s" % (v, self.base.units[0])
    def pos(self, e):
        return "%s'pos(%s)" % (self.base.name, e)

class Gen:
    def __init__(self, r):
        self.r, self.I = r, fcheck.Items(r)
        self.types, self.decls, self.show = [], [], {}
        self.n = 0
    def new(self, t):
        self.types.append(t)
        t.idx = len(self.types)
        return t
    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)
    def rng(self, lo, hi, null=.1):
        r = self.r
        a, b = r.randint(lo, hi), r.randint(lo, hi)
        a, b = min(a, b), max(a, b)
        if r.random() < null and b > a:
            a, b = b, a
        return (a, b, 0) if r.random() < .6 else (b, a, 1)
    def scalar_types(self):
        r = self.r
        for _ in range(2):
            w = r.choice([20, 300, 40000, 2 ** 30])
            l, rr, d = self.rng(-w, w, 0)
            t = self.new(T(self.name("int"), "int", l, rr, d))
            self.decls.append("type %s is range %d %s %d;" % (t.name, l, "to" if d == 0 else "downto", rr))
        self.new(T("integer", "int", -2 ** 31, 2 ** 31 - 1, 0))
        names = list(ENUMS[0])
        r.shuffle(names)
        names = names[:r.randint(1, len(names))]
        t = self.new(T(self.name("enm"), "enum", 0, len(names) - 1, 0, names=names))
        self.decls.append("type %s is (%s);" % (t.name, ", ".join(names)))
        self.new(T("boolean", "enum", 0, 1, 0, names=["false", "true"]))
        self.new(T("character", "enum", 0, 255, 0, names=["-"] * 32 + ["'%s'" % chr(i) for i in range(32, 127)] + ["-"] * 129))
        k1, k2 = r.randint(2, 20), r.randint(2, 20)
        u = [self.name("ua"), self.name("ub"), self.name("uc")]
        t = self.new(T(self.name("phy"), "phys", -10 ** 9, 10 ** 9, 0, units=u, mult=[1, k1, k1 * k2]))
        self.decls.append("type %s is range -1000000000 to 1000000000 units %s; %s = %d %s; %s = %d %s; end units;" %
                          (t.name, u[0], u[1], k1, u[0], u[2], k2, u[1]))
        for b in list(self.types):
            for _ in range(r.choice([1, 2])):
                if b.lo == b.hi:
                    continue
                lo, hi = (32, 126) if b.name == "character" else (b.lo, b.hi)
                if r.random() < .5:
                    m = r.randint(lo, hi)
                    lo, hi = max(lo, m - r.randint(1, 8)), min(hi, m + r.randint(1, 8))
                l, rr, d = self.rng(lo, hi)
                t = self.new(T(self.name("sub"), b.k, l, rr, d, base=b))
                self.decls.append("subtype %s is %s range %s %s %s;" % (t.name, b.name, b.lit(l), "to" if d == 0 else "downto", b.lit(rr)))
    def val(self, t, lo=None, hi=None):
        r = self.r
        lo, hi = t.lo if lo is None else lo, t.hi if hi is None else hi
        return r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
    def safe(self, t, v):
        return not (t.base.name == "character" and not 32 <= v <= 126)

    def scalar_items(self, t):
        r, I = self.r, self.I
        b = t.base
        for a in r.sample(["left", "right", "low", "high"], 2):
            if self.safe(t, t.l) and self.safe(t, t.r):
                I.add({"op": a, "t": t.idx}, t.pos("%s'%s" % (t.name, a)))
        if r.random() < .4:
            I.add({"op": "ascending", "t": t.idx}, "boolean'pos(%s'ascending)" % t.name)
        if b.name != "character":
            if r.random() < .4:
                a = r.choice(["left", "right"])
                if b.k != "int" or b.name == "integer":
                    I.add({"op": "b" + a, "t": t.idx}, b.name + "'pos(%s'base'%s)" % (t.name, a))
        for _ in range(6):
            # arguments of the attributes are of the base type; results stay in the base type
            lo, hi = (32, 126) if b.name == "character" else (b.lo, b.hi)
            op = r.choice(["pos", "val", "succ", "pred", "leftof", "rightof", "image", "roundtrip", "value", "rel", "min", "max"])
            up = {"succ": 1, "pred": -1, "leftof": -1 if t.d == 0 else 1, "rightof": 1 if t.d == 0 else -1}.get(op, 0)
            if hi - lo < 1 and up:
                continue
            v = self.val(t, lo + (up < 0), hi - (up > 0))
            if t.lo <= t.hi and r.random() < .5:
                v = max(lo + (up < 0), min(hi - (up > 0), self.val(t)))
            # the prefix 'subtype' only restricts the value of 'value; others take any value of the base
            if op in ("pos", "image"):
                I.add({"op": op, "t": t.idx, "a": [v]}, "%s'%s({0})" % (t.name, op), [(b.lit(v), b.name)], "s" if op == "image" else "i")
            elif op == "val":
                if -2 ** 31 <= v and t.lo <= v <= t.hi:
                    I.add({"op": op, "t": t.idx, "a": [v]}, t.pos("%s'val({0})" % t.name), [("(%d)" % v if v != -2 ** 31 else "integer'low", "integer")])
            elif op in ("succ", "pred", "leftof", "rightof"):
                if True:
                    if t.lo <= v <= t.hi and t.lo <= v + up <= t.hi:
                        I.add({"op": op, "t": t.idx, "a": [v]}, t.pos("%s'%s({0})" % (t.name, op)), [(b.lit(v), b.name)])
            elif op == "roundtrip":
                if b.name == "boolean" or b.k != "int" or v != -2 ** 31:
                    if t.lo <= v <= t.hi:
                        I.add({"op": op, "t": t.idx, "a": [v]}, t.pos("%s'value(%s'image({0}))" % (t.name, t.name)), [(b.lit(v), b.name)])
            elif op == "value":
                if t.lo <= v <= t.hi:
                    self.value(t, v)
            elif op == "rel":
                w = self.val(b, lo, hi) if r.random() < .7 else v
                f = r.choice(["=", "/=", "<", "<=", ">", ">="])
                I.add({"op": "rel", "f": f, "a": [v, w]}, "boolean'pos({0} %s {1})" % f, [(b.lit(v), b.name), (b.lit(w), b.name)])
            else:
                w = self.val(b, lo, hi)
                I.add({"op": op, "a": [v, w]}, t.pos("%simum({0}, {1})" % op), [(b.lit(v), b.name), (b.lit(w), b.name)])
        n = 0 if t.hi < t.lo else t.hi - t.lo + 1
        if n <= 12 and t.k != "phys" and self.safe(t, t.lo):
            I.subs.append("function fr%d return string is variable s : line; begin for i in %s loop write(s, integer'image(%s) & \" \"); end loop; "
                          "if s = null then return \"\"; else return s.all; end if; end;" % (len(I.items) + 1, t.name, t.pos("i")))
            I.add({"op": "in", "t": t.idx}, "fr%d" % (len(I.items) + 1), kind="")
    def value(self, t, v):
        """'value of a text with the value v: based literals, underscores, exponents, spaces, units"""
        r, b = self.r, t.base
        rec = {"op": "value", "t": t.idx}
        if b.k == "enum":
            s = b.names[v]
            if s[0] not in "'\\":
                s = "".join(c.upper() if r.random() < .5 else c for c in s)
            rec.update(op="roundtrip", a=[v])
        else:
            u, m = 1, v
            if b.k == "phys":
                u = r.choice([i + 1 for i, k in enumerate(b.mult) if v % k == 0])
                m = v // b.mult[u - 1] if v >= 0 else -(-v // b.mult[u - 1])
            sign, m = (-1, -m) if m < 0 else (1, m)
            if m == 2 ** 31:
                return
            base, ex = r.choice([10, 10, 10, 16, 2, 8]), 0
            while m and m % base == 0 and r.random() < .5:
                m //= base
                ex += 1
            ds = []
            x = m
            while x or not ds:
                ds.insert(0, x % base)
                x //= base
            txt = "".join(("_" if i and r.random() < .15 else "") + "0123456789ABCDEF"[d] for i, d in enumerate(ds))
            if r.random() < .5:
                txt = txt.lower()
            if base != 10:
                txt = "%d#%s#" % (base, txt)
            if ex or r.random() < .1:
                txt += r.choice("eE") + r.choice(["", "+"]) + str(ex)
            txt = ("-" if sign < 0 else "") + txt
            if b.k == "phys":
                un = b.units[u - 1]
                txt += " " * r.randint(1, 3) + (un.upper() if r.random() < .3 else un)
            rec.update(a=ds, base=base, exp=ex, sign=sign, n=u)
            s = txt
        s = " " * r.choice([0, 0, 1, 3]) + s + " " * r.choice([0, 0, 1, 3])
        self.I.add(rec, t.pos("%s'value({0})" % t.name), [('"%s"' % s.replace('"', '""'), "string")])

    # -- arrays
    def array_types(self):
        r, I = self.r, self.I
        ints = [t for t in self.types if t.k == "int"]
        for _ in range(3):
            nd = r.choice([1, 1, 2, 3])
            dims, txt = [], []
            for _ in range(nd):
                if r.random() < .3:
                    b = r.choice([t for t in self.types if t.base is t and t.k == "enum" and t.name != "character"])
                    l, rr, d = self.rng(b.lo, b.hi, .1)
                    txt.append("%s range %s %s %s" % (b.name, b.lit(l), "to" if d == 0 else "downto", b.lit(rr)))
                    dims.append((b, l, rr, d))
                else:
                    l, rr, d = self.rng(-6, 6, .12)
                    txt.append("integer range %d %s %d" % (l, "to" if d == 0 else "downto", rr))
                    dims.append((self.types[2], l, rr, d))
            t = T(self.name("arr"), "array", 0, 0, 0)
            t.dims = [{"l": l, "r": rr, "d": d} for b, l, rr, d in dims]
            t.ib = [b for b, *_ in dims]
            self.new(t)
            if r.random() < .5:
                self.decls.append("type %s is array (%s) of boolean;" % (t.name, ", ".join(txt)))
            else:
                u = self.name("unc")
                self.decls.append("type %s is array (%s) of boolean;" % (u, ", ".join(b.name + " range <>" for b in t.ib)))
                self.decls.append("subtype %s is %s(%s);" % (t.name, u, ", ".join(x.split(" range ")[1] for x in txt)))
            if r.random() < .5:
                obj = self.name("obj")
                I.vars.append("variable %s : %s;" % (obj, t.name))
            else:
                obj = self.name("prm")
            for _ in range(6):
                n = r.randint(1, nd)
                a = r.choice(["left", "right", "low", "high", "ascending", "length", "range", "reverse_range"])
                arg = "" if n == 1 and r.random() < .6 else "(%d)" % n
                b = t.ib[n - 1]
                pre = t.name if r.random() < .4 else obj
                l, rr, d = dims[n - 1][1:]
                if (l > rr if d == 0 else l < rr) and pre.startswith("prm") and a in ("right", "low", "high"):
                    continue        # right bound of a null array of unconstrained type: known finding
                if pre.startswith("prm"):
                    # a parameter of the unconstrained type
                    fn = "fa%d" % (len(I.items) + 1)
                    pt = [x for x in self.decls if x.startswith("subtype %s is" % t.name)]
                    ptn = pt[0].split(" is ")[1].split("(")[0] if pt else t.name
                    head = "function %s (prm : %s) return string is variable s : line; begin " % (fn, ptn)
                    I.vars.append("variable v%s : %s;" % (fn, t.name))
                    pre, fin = "prm", "%s(v%s)" % (fn, fn)
                else:
                    head, fin = "function fa%d return string is variable s : line; begin " % (len(I.items) + 1), "fa%d" % (len(I.items) + 1)
                    if pre != t.name:
                        head = "impure " + head
                if a in ("range", "reverse_range"):
                    bodyt = "for i in %s'%s%s loop write(s, integer'image(%s) & \" \"); end loop;" % (pre, a, arg, b.pos("i"))
                elif a == "ascending":
                    bodyt = "write(s, integer'image(boolean'pos(%s'ascending%s)));" % (pre, arg)
                elif a == "length":
                    bodyt = "write(s, integer'image(%s'length%s));" % (pre, arg)
                else:
                    bodyt = "write(s, integer'image(%s));" % b.pos("%s'%s%s" % (pre, a, arg))
                f = head + bodyt + " if s = null then return \"\"; else return s.all; end if; end;"
                self.late.append(f)
                I.add({"op": {"reverse_range": "arevrange"}.get(a, "a" + a), "t": t.idx, "n": n}, fin, kind="")

    def vec(self, et, n):
        """an operand of an array type: (list, literal, subtype text)"""
        r = self.r
        a = [r.randint(et["lo"], et["hi"]) for _ in range(n)]
        return a
    ARR = {"ivec": ("int", -3, 3), "bit_vector": ("bit", 0, 1), "boolean_vector": ("bool", 0, 1), "evec": ("enum", 0, 2), "integer_vector": ("int", -3, 3)}
    def oper(self, ty, a):
        """operand: declares a subtype with random bounds; -> (literal, subtype)"""
        r = self.r
        k, lo, hi = self.ARR[ty]
        s = self.name("sv")
        m = r.randint(0, 5)
        n = len(a)
        if r.random() < .5:
            rg, idx = "%d to %d" % (m, m + n - 1) if m or n else "1 to 0", list(range(m, m + n))
        else:
            rg, idx = ("%d downto %d" % (m + n - 1, m) if n else "%d downto %d" % (m, m + 1)), list(range(m + n - 1, m - 1, -1))
        self.I.subs.append("subtype %s is %s(%s);" % (s, ty, rg))
        e = lambda v: {"int": str(v), "bit": "'%d'" % v, "bool": ["false", "true"][v & 1], "enum": ["ea", "eb", "ec"][v] if 0 <= v < 3 else "ea"}[k]
        if not n:
            l = '""' if k == "bit" else "(1 to 0 => %s)" % e(lo)
            if k != "bit":
                # a null aggregate has bounds of its own; use an object of the subtype
                return None, s
        elif k == "bit" and r.random() < .6:
            l = '"%s"' % "".join(map(str, a))
        elif n == 1:
            l = "(%d => %s)" % (idx[0], e(a[0]))
        elif r.random() < .5:
            l = "(" + ", ".join(e(v) for v in a) + ")"
        else:
            l = "(" + ", ".join("%d => %s" % (i, e(v)) for i, v in zip(idx, a)) + ")"
        return l, s
    def vector_items(self):
        r, I = self.r, self.I
        for _ in range(45):
            op = r.choice(["vrel", "vrel", "vlogic", "vlogic", "vslogic", "svlogic", "vnot", "vreduce", "vshift", "vshift", "vmin", "vmax", "vmine", "vmaxe", "vcat", "vslice", "vstr", "vhstr", "vostr"])
            bits = op in ("vlogic", "vslogic", "svlogic", "vnot", "vreduce", "vshift", "vstr", "vhstr", "vostr")
            ty = r.choice(["bit_vector", "bit_vector", "boolean_vector"] if bits else list(self.ARR))
            if op in ("vstr", "vhstr", "vostr"):
                ty = "bit_vector"
            k, lo, hi = self.ARR[ty]
            n = r.choice([0, 1, 2, 3, 4, 8, 9, 17, 33, 64, 65]) if bits else r.choice([0, 1, 1, 2, 2, 3, 4])
            if op in ("vmine", "vmaxe", "vslice"):
                n = max(n, 1)
            a = [r.randint(lo, hi) for _ in range(n)]
            m = n if op == "vlogic" else r.choice([0, 1, 2, 3, n])
            b = [r.randint(lo, hi) for _ in range(m)]
            if op in ("vrel", "vmin", "vmax"):
                x = r.random()
                if x < .3: b = list(a)
                elif x < .5: b = a[:-1]
                elif x < .6: b = a + a[:1]
            sh = "sh_" + ty
            # null operands of types without string literals: variables without initial value
            def opn(a):
                l, s = self.oper(ty, a)
                if l is None:
                    v = self.name("nv")
                    I.subs.append("variable %s : %s;" % (v, s))
                    return (v, None)
                return (l, s)
            ops = []
            def use(a):
                l, s = opn(a)
                if s is None:
                    return l
                ops.append((l, s))
                return "{%d}" % (len(ops) - 1)
            es = lambda v: {"bit": "'%d'" % v, "bool": ["false", "true"][v]}[k]
            et = {"bit": "bit", "bool": "boolean"}.get(k)
            if op == "vrel":
                f = r.choice(["=", "/=", "<", "<=", ">", ">="])
                I.add({"op": op, "f": f, "a": a, "b": b}, "boolean'pos(%s %s %s)" % (use(a), f, use(b)), ops)
            elif op == "vlogic":
                f = r.choice(["and", "or", "xor", "nand", "nor", "xnor"])
                I.add({"op": op, "f": f, "a": a, "b": b}, "%s %s %s" % (use(a), f, use(b)), ops, sh)
            elif op in ("vslogic", "svlogic"):
                f = r.choice(["and", "or", "xor", "nand", "nor", "xnor"])
                c = r.randint(0, 1)
                x = use(a)
                ops.append((es(c), et))
                y = "{%d}" % (len(ops) - 1)
                I.add({"op": op, "f": f, "a": a, "b": [c]}, "%s %s %s" % ((x, f, y) if op == "vslogic" else (y, f, x)), ops, sh)
            elif op == "vnot":
                I.add({"op": op, "a": a}, "not %s" % use(a), ops, sh)
            elif op == "vreduce":
                f = r.choice(["and", "or", "xor", "nand", "nor", "xnor"])
                I.add({"op": op, "f": f, "a": a}, "%s'pos(%s %s)" % (et, f, use(a)), ops)
            elif op == "vshift":
                f = r.choice(["sll", "srl", "sla", "sra", "rol", "ror"])
                c = r.choice([0, 1, -1, 2, -2, n, -n, n + 1, -n - 1, 2 * n + 1, 70, -70])
                x = use(a)
                ops.append(("(%d)" % c, "integer"))
                I.add({"op": op, "f": f, "a": a, "n": c, "b": [0]}, "%s %s {%d}" % (x, f, len(ops) - 1), ops, sh)
            elif op in ("vmin", "vmax"):
                I.add({"op": op, "a": a, "b": b}, "%simum(%s, %s)" % (op[1:], use(a), use(b)), ops, sh)
            elif op in ("vmine", "vmaxe"):
                pos = {"int": "{}", "bit": "bit'pos({})", "bool": "boolean'pos({})", "enum": "e3'pos({})"}[k]
                I.add({"op": op, "a": a}, pos.replace("{}", "%simum(%s)" % (op[1:4], use(a))), ops)
            elif op == "vcat":
                x = r.random()
                if x < .25 and k != "enum" and k != "int":
                    c = r.randint(0, 1)
                    y = use(a)
                    ops.append((es(c), et))
                    if r.random() < .5:
                        I.add({"op": op, "a": a, "b": [c]}, "%s'(%s & {%d})" % (ty, y, len(ops) - 1), ops, sh)
                    else:
                        I.add({"op": op, "a": [c], "b": a}, "%s'({%d} & %s)" % (ty, len(ops) - 1, y), ops, sh)
                elif a or b:       # two null operands: known finding
                    I.add({"op": op, "a": a, "b": b}, "%s'(%s & %s)" % (ty, use(a), use(b)), ops, sh)
            elif op == "vslice":
                l, s = self.oper(ty, a)
                rg = [x for x in I.subs if x.startswith("subtype %s is" % s)][0]
                rg = rg[rg.index("(") + 1:rg.index(")")]
                dn = "downto" in rg
                left = int(rg.split()[0])
                i = r.randint(1, n); j = r.randint(i - 1, n)
                ix = lambda q: left - (q - 1) if dn else left + (q - 1)
                I.add({"op": op, "a": a, "b": [i, j]}, "{0}(%d %s %d)" % (ix(i), "downto" if dn else "to", ix(j)), [(l, s)], sh, form=r.choice(["var", "call"]))
            else:
                I.add({"op": op, "a": a}, "to_%sstring(%s)" % (op[1:-3], use(a)), ops, "s")
    def dim_items(self):
        """equality of arrays of two dimensions"""
        r, I = self.r, self.I
        for _ in range(4):
            a = [r.randint(0, 3) for _ in range(2)]
            b = list(a) if r.random() < .3 else a[::-1] if r.random() < .5 else [r.randint(0, 3) for _ in range(2)]
            n = []
            for x in (a, b):
                n.append(self.name("md"))
                o = [r.randint(1, 5) for _ in range(2)]
                I.vars.append("variable %s : mdim(%s) := (others => (others => true));" % (n[-1], ", ".join(
                    "%d to %d" % (p, p + q - 1) if r.random() < .5 else "%d downto %d" % (p + q - 1, p) for p, q in zip(o, x))))
            f = r.choice(["=", "/="])
            I.add({"op": "mdeq", "f": f, "a": a, "b": b}, "boolean'pos(%s %s %s)" % (n[0], f, n[1]))
    def conv_items(self):
        r, I = self.r, self.I
        for _ in range(4):
            q = r.randint(-4000, 4000)
            if q % 4 == 2:
                q += 1
            I.add({"op": "round", "a": [q]}, "integer({0})", [("%s%d.%02d" % ("-" if q < 0 else "", abs(q) // 4, abs(q) % 4 * 25), "real")])
        ints = [t for t in self.types if t.k == "int"]
        for _ in range(5):
            t, u = r.choice(ints), r.choice(ints)
            lo, hi = max(t.lo, u.lo), min(t.hi, u.hi)
            if lo > hi:
                continue
            v = r.choice([lo, hi, r.randint(lo, hi)])
            if v == -2 ** 31:
                continue
            I.add({"op": "conv", "a": [v]}, u.pos("%s({0})" % u.name), [(t.lit(v), t.name)])
        for _ in range(3):
            ty, tz = r.choice([("ivec", "integer_vector"), ("integer_vector", "ivec")])
            n = r.randint(1, 5)
            a = [r.randint(-3, 3) for _ in range(n)]
            I.add({"op": "conv", "a": a}, "%s({0})" % tz, [self.oper(ty, a)], "sh_" + tz)
    def program(self):
        self.late = []
        self.scalar_types()
        for t in list(self.types):
            self.scalar_items(t)
        self.array_types()
        self.vector_items()
        self.conv_items()
        self.dim_items()
        I = self.I
        I.vars = I.vars + self.late
        sh = ""
        for ty, pos in [("ivec", "{}"), ("integer_vector", "{}"), ("bit_vector", "bit'pos({})"), ("boolean_vector", "boolean'pos({})"), ("evec", "e3'pos({})")]:
            sh += "  function sh_%s (v : %s) return string is variable s : line; begin write(s, string'(\" \")); for i in v'range loop write(s, integer'image(%s) & \" \"); end loop; return s.all; end;\n" % (ty, ty, pos.replace("{}", "v(i)"))
        v = "use std.textio.all;\nentity t is end;\narchitecture a of t is\n  type ivec is array (natural range <>) of integer;\n  type mdim is array (integer range <>, integer range <>) of boolean;\n  type e3 is (ea, eb, ec);\n" \
            "  type evec is array (natural range <>) of e3;\n" + "".join("  %s\n" % d for d in self.decls) + sh + "begin\n" + I.process() + "end;\n"
        return {"types": [t.rec() for t in self.types], "items": I.items}, I.kinds, v, I.feats

def gen(r, i):
    return Gen(r).program()

def body(c):
    fcheck.run(c, gen, c.n(120, 4000), [("interp", "llvm"), ("O2", "interp"), ("llvm", "O0")], "AttrTrace", "AttrValue")
    known.texts(c, lambda t: nvc.simulate(t, mode="jit").out)

if __name__ == "__main__":
    check.main("C24", body)
