"""Generates sequential VHDL programs together with their abstract syntax for spec/Seq.tla."""
import re

MAXI, MINI = 2**31 - 1, -2**31

class Ty:
    def __init__(self, kind, name, base, idx=0, lo=0, hi=0, n=-1, l=0, d=0, elem=None, fields=None):
        self.kind, self.name, self.base, self.idx = kind, name, base, idx
        self.lo, self.hi, self.n, self.l, self.d, self.elem, self.fields = lo, hi, n, l, d, elem, fields
    def right(self):
        return self.l + self.n - 1 if self.d == 0 else self.l - self.n + 1
    def low(self):
        return min(self.l, self.right())
    def spec(self):
        if self.kind == "s":
            return {"k": "s", "lo": self.lo, "hi": self.hi, "n": 0, "l": 0, "d": 0, "e": 0}
        if self.kind == "a":
            return {"k": "a", "lo": 0, "hi": 0, "n": self.n, "l": self.l, "d": self.d, "e": self.elem.idx}
        return {"k": "r", "lo": 0, "hi": 0, "n": 0, "l": 0, "d": 0, "e": 0}

class E:
    """Expression: text, AST, interval, whether it is made of literals only."""
    def __init__(self, t, a, lo=0, hi=0, static=False, ty=None, n=None):
        self.t, self.a, self.lo, self.hi, self.static, self.ty, self.n = t, a, lo, hi, static, ty, n

class Var:
    def __init__(self, id, name, ty, n=None):
        self.id, self.name, self.ty, self.n = id, name, ty, n

class Sub:
    pass

def lit(v):
    if v == MINI:
        return E("integer'low", ["c", v], v, v, True)
    return E(str(v) if v >= 0 else "(%d)" % v, ["c", v], v, v, True)

class Cx:
    """Generation context of a statement or expression."""
    def __init__(self, **k):
        self.__dict__.update(k)
    def sub(self, **k):
        c = Cx(**self.__dict__)
        c.__dict__.update(k)
        return c

class Gen:
    def __init__(self, r, err=0.0, size=12, budget=3000):
        self.r, self.err, self.size, self.budget = r, err, size, budget
        self.lines, self.types, self.vars, self.funcs = [], [], [], []
        self.nid = 0
        self.feats = set()
        self.tag = 0
        self.label = 0
        self.cost = 0

    # --- text
    def emit(self, s, ind=1):
        self.lines.append("  " * ind + s)
        return len(self.lines)
    def line(self):
        return len(self.lines) + 1

    # --- types
    def add(self, ty):
        self.types.append(ty)
        ty.idx = len(self.types)
        return ty

    def make_types(self):
        r = self.r
        self.INT = self.add(Ty("s", "integer", "int", lo=MINI, hi=MAXI))
        self.BOOL = self.add(Ty("s", "boolean", "bool", lo=0, hi=1))
        m = r.randint(3, 6)
        self.ENUM = self.add(Ty("s", "en", "enum", lo=0, hi=m - 1))
        self.lits = ["e%d" % i for i in range(m)]
        self.emit("type en is (%s);" % ", ".join(self.lits))
        self.ints, self.enums = [self.INT], [self.ENUM]
        for lo, hi in r.sample([(0, 7), (-3, 4), (0, MAXI), (1, 10), (-100, 100), (-128, 127), (0, 255), (5, 5), (MINI, 10),
                                (0, 65535), (-1, 1), (1, MAXI)], 3):
            t = self.add(Ty("s", "i%d" % len(self.types), "int", lo=lo, hi=hi))
            self.emit("subtype %s is integer range %s to %s;" % (t.name, lit(lo).t, lit(hi).t))
            self.ints.append(t)
        if r.random() < .7:
            a = r.randint(0, m - 2)
            z = r.randint(a + 1, m - 1)
            t = self.add(Ty("s", "es", "enum", lo=a, hi=z))
            self.emit("subtype es is en range %s to %s;" % (self.lits[a], self.lits[z]))
            self.enums.append(t)
        self.SMALL = self.add(Ty("s", "depth", "int", lo=0, hi=4))
        self.emit("subtype depth is integer range 0 to 4;")
        self.arrays, self.bases = [], []
        for k in range(r.randint(1, 2)):
            el = r.choice([r.choice(self.ints), r.choice(self.ints), r.choice(self.enums), self.BOOL])
            b = self.add(Ty("a", "arr%d" % k, "arr%d" % k, elem=el))
            self.emit("type %s is array (integer range <>) of %s;" % (b.name, el.name))
            self.bases.append(b)
            for j in range(r.randint(2, 3)):
                n, l, d = r.choice([1, 2, 3, 4, 4, 6]), r.choice([0, 0, 1, 3, -2, 7]), r.randint(0, 1)
                t = self.add(Ty("a", "%s_%d" % (b.name, j), b.base, n=n, l=l, d=d, elem=el))
                self.emit("subtype %s is %s(%d %s %d);" % (t.name, b.name, l, "downto" if d else "to", t.right()))
                self.arrays.append(t)
        self.recs = []
        if r.random() < .6:
            fs = []
            for j in range(r.randint(2, 3)):
                fs.append(("f%d" % j, r.choice([r.choice(self.ints), r.choice(self.enums), self.BOOL, r.choice(self.arrays)])))
            t = self.add(Ty("r", "rec", "rec", fields=fs))
            self.emit("type rec is record")
            for n, ft in fs:
                self.emit("%s : %s;" % (n, ft.name), 2)
            self.emit("end record;")
            self.recs.append(t)
        # the image functions of the log
        for b in self.bases:
            im = "integer'image(b(i))" if b.elem.base == "int" else "integer'image(%s'pos(b(i)))" % ("en" if b.elem.base == "enum" else "boolean")
            self.images = getattr(self, "images", [])
            self.images += [
                "function im (a : %s; i : natural := 0) return string is" % b.name,
                "  alias b : %s(0 to a'length - 1) is a;" % b.name,
                "begin",
                "  if i = 0 then",
                "    if a'length = 0 then return \" 0\"; elsif a'length = 1 then return \" 1 \" & %s; end if;" % im,
                "    return \" \" & integer'image(a'length) & \" \" & %s & im(a, i + 1);" % im,
                "  elsif i >= a'length then return \"\";",
                "  else return \" \" & %s & im(a, i + 1); end if;" % im,
                "end function;"]

    def any_type(self, arrays=.3, recs=.12):
        x = self.r.random()
        if x < arrays:
            return self.r.choice(self.arrays)
        if x < arrays + recs and self.recs:
            return self.recs[0]
        return self.r.choice([self.r.choice(self.ints), self.r.choice(self.ints), self.r.choice(self.enums), self.BOOL])

    def new_var(self, name, ty, n=None):
        self.vars.append(ty.idx)
        return Var(len(self.vars), name, ty, ty.n if ty.kind == "a" and ty.n >= 0 else n)

    # --- expressions
    def risky(self):
        return self.err > 0 and self.r.random() < self.err

    def wrap(self, e, lo, hi, force=False):
        """Make the interval of e fit lo..hi."""
        if e.lo >= lo and e.hi <= hi:
            return e
        if not force and not e.static and self.risky():
            return E(e.t, e.a, lo, hi, False)
        if hi - lo + 1 > 2**20:
            k = self.r.choice([5, 13, 100])
            lo = lo if lo > MINI else hi - k
            hi = lo + k - 1
        k = hi - lo + 1
        if k == 1:
            return lit(lo)
        m = E("(%s mod %d)" % (e.t, k), ["mod", e.a, ["c", k]], 0, k - 1, e.static)
        if lo:
            m = E("(%s + %s)" % (m.t, lit(lo).t), ["+", m.a, ["c", lo]], lo, hi, e.static)
        return m

    def atoms(self, cx, pred):
        """Readable scalar places: variables, elements, fields."""
        return [v for v in cx.reads if pred(v)]

    def scalar(self, cx, base, depth=0):
        """A readable place of a scalar base type, or None."""
        r = self.r
        c = [v for v in cx.reads if v.ty.base == base]
        a = [v for v in cx.reads if v.ty.kind == "a" and v.ty.elem.base == base]
        f = [(v, i) for v in cx.reads if v.ty.kind == "r" for i, (n, t) in enumerate(v.ty.fields) if t.base == base]
        fa = [(v, i) for v in cx.reads if v.ty.kind == "r" for i, (n, t) in enumerate(v.ty.fields) if t.kind == "a" and t.elem.base == base]
        opts = ["v"] * (3 if c else 0) + ["a"] * (2 if a and depth < 3 else 0) + ["f"] * (1 if f else 0) + ["fa"] * (1 if fa and depth < 3 else 0)
        if not opts:
            return None
        o = r.choice(opts)
        if o == "v":
            v = r.choice(c)
            return self.rd(v)
        if o == "f":
            v, i = r.choice(f)
            return self.field(self.rd(v), i)
        if o == "fa":
            v, i = r.choice(fa)
            return self.elem(cx, self.field(self.rd(v), i), depth)
        return self.elem(cx, self.rd(r.choice(a)), depth)

    def rd(self, v):
        e = E(v.name, ["v", v.id], v.ty.lo, v.ty.hi, self.err > 0 and v.id in self.consts, v.ty, v.n)
        return e

    def field(self, e, i):
        n, t = e.ty.fields[i]
        return E("%s.%s" % (e.t, n), ["fd", e.a, i + 1], t.lo, t.hi, e.static, t, t.n if t.kind == "a" else None)

    def index(self, cx, a, depth, simple=False):
        """An index expression for array expression a."""
        ty = a.ty
        if simple:
            return lit(self.r.randint(ty.low(), ty.low() + ty.n - 1)) if ty.n >= 0 else E(a.t + "'left", ["left", a.a])
        if ty.n >= 0:
            if self.r.random() < .3:
                return lit(self.r.randint(ty.low(), ty.low() + ty.n - 1))
            return self.wrap(self.int(cx, depth + 2), ty.low(), ty.low() + ty.n - 1)
        x = self.r.random()
        if x < .4:
            w = self.r.choice(["left", "right", "low", "high"])
            return E("%s'%s" % (a.t, w), [w, a.a], -100, 100)
        i = self.wrap(self.int(cx, depth + 2), 0, 2**20, True)
        if self.risky():
            return E("(%s'low + %s)" % (a.t, i.t), ["+", ["low", a.a], i.a], 0, 10)
        return E("(%s'low + (%s mod %s'length))" % (a.t, i.t, a.t), ["+", ["low", a.a], ["mod", i.a, ["length", a.a]]], 0, 10)

    def elem(self, cx, a, depth, simple=False):
        i = self.index(cx, a, depth, simple)
        t = a.ty.elem
        self.feats.add("index")
        return E("%s(%s)" % (a.t, i.t), ["ix", a.a, i.a], t.lo, t.hi, a.static and i.static, t)

    def call(self, cx, f, depth):
        """Call of function f."""
        args, ts = [], []
        for p, m in zip(f.params, f.modes):
            if f.rec is p:
                e = cx.recarg if f is cx.me else lit(self.r.randint(0, 3))
            else:
                e = self.expr(cx, p.ty, depth + 2, roots=f.uses)
            args.append([e.a, 0])
            ts.append(e.t)
        self.charge(cx, f.cost)
        self.feats.add("call")
        if f.rec:
            self.feats.add("recursion")
        return E("%s(%s)" % (f.name, ", ".join(ts)) if ts else f.name, ["call", f.id, args], f.ret.lo, f.ret.hi, False, f.ret, f.ret.n)

    def callable(self, cx, base):
        return [f for f in cx.subs if f.ret and f.ret.base == base and (cx.mult * f.cost + self.cost < self.budget)
                and (f is not cx.me or cx.recarg) and not (f.impure and cx.me and cx.me.ret and not cx.me.impure)]

    def charge(self, cx, k=1):
        self.cost += cx.mult * k

    def int(self, cx, depth=0):
        r = self.r
        self.charge(cx)
        if depth >= 4 or r.random() < .12 + .1 * depth:
            if r.random() < .35:
                return lit(r.choice([0, 1, 1, 2, 3, 5, 7, -1, -2, r.randint(-20, 20), r.randint(MINI, MAXI) if r.random() < .3 else 4]))
            e = self.scalar(cx, "int", depth)
            return e or lit(r.randint(-9, 9))
        x = r.random()
        if x < .22:
            return self.scalar(cx, "int", depth) or lit(r.randint(-9, 9))
        if x < .62:
            op = r.choice("+ + - - * * / mod rem".split())
            a, b = self.int(cx, depth + 1), self.int(cx, depth + 1)
            return self.arith(op, a, b)
        if x < .66:
            a = self.int(cx, depth + 1)
            if a.lo == MINI:
                a = self.wrap(a, -1000, 1000, True)
            if r.random() < .5:
                return E("(-%s)" % a.t, ["neg", a.a], max(MINI, -a.hi), min(MAXI, -a.lo), a.static)
            m = max(abs(a.lo), abs(a.hi))
            return E("(abs %s)" % a.t, ["abs", a.a], 0, min(MAXI, m), a.static)
        if x < .70:
            a = self.wrap(self.int(cx, depth + 1), -6, 6)
            b = self.wrap(self.int(cx, depth + 1), 0, 5)
            self.feats.add("**")
            return E("(%s ** %s)" % (a.t, b.t), ["**", a.a, b.a], MINI // 2, MAXI // 2, a.static and b.static)
        if x < .76:
            base = r.choice(["enum", "bool"])
            e = self.enum(cx, depth + 1) if base == "enum" else self.bool(cx, depth + 1)
            n = "en" if base == "enum" else "boolean"
            return E("%s'pos(%s)" % (n, e.t), e.a, 0, len(self.lits) - 1 if base == "enum" else 1, e.static)
        if x < .82:
            c = [v for v in cx.reads if v.ty.kind == "a"]
            if c:
                a = self.rd(r.choice(c))
                w = r.choice(["length", "left", "right", "low", "high"])
                return E("%s'%s" % (a.t, w), [w, a.a], -100, 100, self.err > 0 and a.ty.n >= 0)
        if x < .93:
            fs = self.callable(cx, "int")
            if fs:
                return self.call(cx, r.choice(fs), depth)
        if x < .97:
            t = r.choice(self.ints)
            e = self.wrap(self.int(cx, depth + 1), t.lo, t.hi)
            if e.static and not (t.lo <= e.lo and e.hi <= t.hi):
                return e
            self.feats.add("qualified")
            return E(("%s'(%s)" if r.random() < .6 else "%s(%s)") % (t.name, e.t), ["cv", e.a, t.idx], t.lo, t.hi, e.static)
        return self.scalar(cx, "int", depth) or lit(r.randint(-9, 9))

    def arith(self, op, a, b):
        S = a.static and b.static
        def out(lo, hi):
            self.feats.add(op)
            return E("(%s %s %s)" % (a.t, op, b.t), [op, a.a, b.a], lo, hi, S)
        if op in ("/", "mod", "rem"):
            if b.lo <= 0 <= b.hi:
                if b.static or not self.risky():
                    b = lit(self.r.choice([2, 3, 7, -2, -3, 10, 100, 1])) if self.r.random() < .5 else \
                        self.arith("+", self.wrap(b, 0, 9, True), lit(1))
            if a.lo == MINI and b.lo <= -1 <= b.hi and op == "/":
                a = self.wrap(a, -1000, 1000, True)
            S = a.static and b.static
            mb = max(abs(b.lo), abs(b.hi))
            ma = max(abs(a.lo), abs(a.hi))
            if op == "/":
                return out(max(MINI, -ma), min(MAXI, ma))
            if op == "rem":
                return out(-(mb - 1) if a.lo < 0 else 0, mb - 1 if a.hi > 0 else 0) if mb else out(0, 0)
            return out(0 if b.lo > 0 else -(mb - 1), mb - 1 if b.hi > 0 else 0) if mb else out(0, 0)
        def rng(a, b):
            if op == "+":
                return a.lo + b.lo, a.hi + b.hi
            if op == "-":
                return a.lo - b.hi, a.hi - b.lo
            p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
            return min(p), max(p)
        lo, hi = rng(a, b)
        if lo < MINI or hi > MAXI:
            if S or not self.risky():
                k = 1000 if op != "*" else 200
                a, b = self.wrap(a, -k, k, True), self.wrap(b, -k, k, True)
                lo, hi = rng(a, b)
                S = a.static and b.static
            else:
                lo, hi = max(lo, MINI), min(hi, MAXI)
        return out(lo, hi)

    def enum(self, cx, depth=0):
        r = self.r
        self.charge(cx)
        m = len(self.lits)
        x = r.random()
        if x < .25 or depth >= 4:
            k = r.randint(0, m - 1)
            return E(self.lits[k], ["c", k], k, k, True)
        if x < .4:
            e = self.wrap(self.int(cx, depth + 1), 0, m - 1)
            return E("en'val(%s)" % e.t, ["val", e.a, 0, m - 1], 0, m - 1, e.static)
        if x < .5 and self.err:
            e = self.scalar(cx, "enum", depth)
            if e:
                w = r.choice(["succ", "pred"])
                return E("en'%s(%s)" % (w, e.t), [w, e.a, 0, m - 1], 0, m - 1)
        if x < .6:
            fs = self.callable(cx, "enum")
            if fs:
                return self.call(cx, r.choice(fs), depth)
        e = self.scalar(cx, "enum", depth)
        if e:
            return e
        k = r.randint(0, m - 1)
        return E(self.lits[k], ["c", k], k, k, True)

    def enum_in(self, cx, t, depth):
        """Enumeration expression for subtype t."""
        e = self.enum(cx, depth)
        if e.lo >= t.lo and e.hi <= t.hi or (not e.static and self.risky()):
            return e
        c = [v for v in cx.reads if v.ty.base == "enum" and v.ty.lo >= t.lo and v.ty.hi <= t.hi]
        if c and self.r.random() < .6:
            return self.rd(self.r.choice(c))
        k = self.r.randint(t.lo, t.hi)
        return E(self.lits[k], ["c", k], k, k, True)

    def bool(self, cx, depth=0):
        r = self.r
        self.charge(cx)
        x = r.random()
        if depth >= 4 or x < .12:
            e = self.scalar(cx, "bool", depth)
            if e:
                return e
            k = r.randint(0, 1)
            return E(["false", "true"][k], ["c", k], 0, 1, True)
        if x < .55:
            op = r.choice(["=", "/=", "<", "<=", ">", ">="])
            if r.random() < .75:
                a, b = self.int(cx, depth + 1), self.int(cx, depth + 1)
            else:
                a, b = self.enum(cx, depth + 1), self.enum(cx, depth + 1)
                if a.static and b.static:
                    k = r.choice([0, 1])
                    return E(["false", "true"][k], ["c", k], 0, 1, True)
            return E("(%s %s %s)" % (a.t, op, b.t), [op, a.a, b.a], 0, 1, a.static and b.static)
        if x < .65:
            base = r.choice(self.bases)
            a, b = self.array(cx, base, depth + 1, None), self.array(cx, base, depth + 1, None)
            if a and b:
                op = r.choice(["=", "/=", "<", "<=", ">", ">="])
                self.feats.add("array compare")
                return E("(%s %s %s)" % (a.t, op, b.t), ["a" + op, a.a, b.a], 0, 1)
        if x < .85:
            op = r.choice(["and", "or", "and", "or", "xor", "nand", "nor", "xnor"])
            a, b = self.bool(cx, depth + 1), self.bool(cx, depth + 1)
            return E("(%s %s %s)" % (a.t, op, b.t), [op, a.a, b.a], 0, 1, a.static and b.static)
        if x < .92:
            a = self.bool(cx, depth + 1)
            return E("(not %s)" % a.t, ["not", a.a], 0, 1, a.static)
        fs = self.callable(cx, "bool")
        if fs:
            return self.call(cx, r.choice(fs), depth)
        return self.scalar(cx, "bool", depth) or E("true", ["c", 1], 1, 1, True)

    def array(self, cx, base, depth, n, roots=None, named=False):
        """Array expression of base type, length n (None: any), avoiding variables in roots.
        named: an object whose bounds are known to the language."""
        r = self.r
        self.charge(cx)
        def okv(v):
            return v.ty.base == base.base and not (roots and v.id in roots)
        c = [self.rd(v) for v in cx.reads if v.ty.kind == "a" and okv(v)]
        c += [self.field(self.rd(v), i) for v in cx.reads if v.ty.kind == "r" and not (roots and v.id in roots)
              for i, (fn, t) in enumerate(v.ty.fields) if t.kind == "a" and t.base == base.base]
        exact = [e for e in c if n is None or e.n == n]
        bigger = [e for e in c if e.ty.n >= 0 and (n is None or e.ty.n > n)]
        x = r.random()
        if exact and (x < .45 or depth >= 3):
            return r.choice(exact)
        if c and self.risky() and not named:
            return r.choice(c)
        if bigger and x < .7 and depth < 4:
            e = r.choice(bigger)
            return self.slice(cx, e, depth, r.randint(1, e.ty.n) if n is None else n)
        if not named and n is not None and n >= 1 and depth < 3 and x < .8:
            k = r.randint(0, n)
            if k == n or k == 0:
                pass
            else:
                a = self.array(cx, base, depth + 1, k, roots)
                if n - k == 1 and r.random() < .6:
                    b = self.expr(cx, base.elem, depth + 1)
                    if a and not b.static:
                        self.feats.add("concat")
                        return E("(%s & %s)" % (a.t, b.t), ["&e", a.a, ["cv", b.a, base.elem.idx]], n=n)
                else:
                    b = self.array(cx, base, depth + 1, n - k, roots)
                    if a and b:
                        self.feats.add("concat")
                        return E("(%s & %s)" % (a.t, b.t), ["&", a.a, b.a], n=n)
        fs = [f for f in self.callable(cx, base.base) if n is None and f.ret.n < 0 and f is not cx.me or f.ret.n == n]
        if fs and x < .9 and not named and depth < 3:
            return self.call(cx, r.choice(fs), depth)
        # a qualified aggregate
        ts = [t for t in self.arrays if t.base == base.base and (n is None or t.n == n)]
        if ts:
            t = r.choice(ts)
            return self.aggregate(cx, t, depth)
        if n is None and exact:
            return r.choice(exact)
        if n is not None and not named:
            # positional aggregate qualified by the base type: left bound is integer'left
            els = [self.expr(cx, base.elem, depth + 2) for _ in range(n)]
            base = [b for b in self.bases if b.base == base.base][0]
            txt = ", ".join("%d => %s" % (i, e.t) for i, e in enumerate(els))
            return E("%s'(%s)" % (base.name, txt), ["agg", 0, 0, [e.a for e in els], base.elem.idx], n=n, ty=base)
        return None

    def aggregate(self, cx, t, depth):
        """Qualified aggregate of constrained subtype t."""
        r = self.r
        self.feats.add("aggregate")
        form = r.choice(["pos", "named", "others", "mixed"])
        if t.n == 1 or form == "others" and t.n == 1:
            form = "named"
        idx = [t.l + i if t.d == 0 else t.l - i for i in range(t.n)]
        if form == "others":
            e = self.expr(cx, t.elem, depth + 2)
            return E("%s'(others => %s)" % (t.name, e.t), ["agg", t.l, t.d, [e.a] * t.n, t.elem.idx], ty=t, n=t.n)
        els = [self.expr(cx, t.elem, depth + 2 + (t.n > 3)) for _ in range(t.n)]
        if form == "pos":
            txt = ", ".join(e.t for e in els)
        elif form == "named":
            p = list(zip(idx, els))
            r.shuffle(p)
            txt = ", ".join("%d => %s" % (i, e.t) for i, e in p)
        else:
            k = r.randint(1, t.n - 1)
            els = els[:k] + [els[k]] * (t.n - k)
            txt = ", ".join([e.t for e in els[:k]] + ["others => " + els[k].t])
        return E("%s'(%s)" % (t.name, txt), ["agg", t.l, t.d, [e.a for e in els], t.elem.idx], ty=t, n=t.n)

    def slice(self, cx, e, depth, n, simple=False):
        """Slice of length n of constrained array expression e."""
        r = self.r
        t = e.ty
        self.feats.add("slice")
        dn = t.d == 1
        lowest, highest = t.low(), t.low() + t.n - 1
        first_lo, first_hi = (lowest, highest - n + 1) if not dn else (lowest + n - 1, highest)
        if n == 0:
            l = lit(r.randint(lowest, highest))
        elif simple or r.random() < .4:
            l = lit(r.randint(first_lo, first_hi))
        else:
            l = self.wrap(self.int(cx, depth + 2), first_lo, first_hi)
        k = n - 1
        if l.lo == l.hi:
            q = l.lo + k if not dn else l.lo - k
            rt = lit(q)
        else:
            op = "-" if dn else "+"
            if l.lo < first_lo or l.hi > first_hi:
                l = self.wrap(l, -1000, 1000, True)
            if self.risky() and not simple:
                k += r.choice([-1, 1, 1])
            rt = E("(%s %s %s)" % (l.t, op, lit(k).t), [op, l.a, ["c", k]])
        return E("%s(%s %s %s)" % (e.t, l.t, "downto" if dn else "to", rt.t), ["sl", e.a, l.a, rt.a, t.d],
                 ty=Ty("a", None, t.base, n=-1, elem=t.elem), n=n)

    def record(self, cx, t, depth, roots=None):
        c = [v for v in cx.reads if v.ty.kind == "r" and not (roots and v.id in roots)]
        if c and (self.r.random() < .6 or depth > 2):
            return self.rd(self.r.choice(c))
        fs = self.callable(cx, t.base)
        if fs and self.r.random() < .4 and depth < 3:
            return self.call(cx, self.r.choice(fs), depth)
        err, self.err = self.err, 0          # the elements of record aggregates are not checked: known finding
        es = [self.expr(cx, ft, depth + 2) for n, ft in t.fields]
        self.err = err
        self.feats.add("record aggregate")
        if self.r.random() < .5:
            txt = ", ".join(e.t for e in es)
        else:
            txt = ", ".join("%s => %s" % (n, e.t) for (n, ft), e in zip(t.fields, es))
        return E("rec'(%s)" % txt, ["rec", [["cv", e.a, ft.idx] for e, (n, ft) in zip(es, t.fields)]], ty=t)

    def expr(self, cx, t, depth=0, roots=None):
        """Expression for an object of subtype t."""
        if t.kind == "r":
            return self.record(cx, t, depth, roots)
        if t.kind == "a":
            if t.n < 0:
                e = self.array(cx, t, depth, None, roots, named=True)
                return e or self.aggregate(cx, self.r.choice([x for x in self.arrays if x.base == t.base]), depth)
            return self.array(cx, t, depth, t.n, roots)
        if t.base == "int":
            return self.wrap(self.int(cx, depth), t.lo, t.hi)
        if t.base == "enum":
            return self.enum_in(cx, t, depth)
        return self.bool(cx, depth)

    # --- statements
    def target(self, cx, simple=False, avoid=()):
        """A writable place: (text, path AST, type or array type of a slice, n)."""
        r = self.r
        c = [v for v in cx.writes if v.id not in avoid]
        if not c:
            return None
        v = r.choice(c)
        e = self.rd(v)
        e.root = v.id
        if v.ty.kind == "r" and r.random() < .7:
            f = self.field(e, r.randrange(len(v.ty.fields)))
            f.root = v.id
            e = f
        if e.ty.kind == "a" and r.random() < .75:
            if r.random() < .6 or e.ty.n < 2:
                root = e.root
                e = self.elem(cx, e, 0, simple)
                e.root = root
            elif e.ty.n >= 2 and not simple:
                n = r.randint(0 if r.random() < .1 else 1, e.ty.n - 1)
                s = self.slice(cx, e, 0, n)
                s.root = e.root
                e = s
        return e

    def assign(self, cx, ind):
        t = self.target(cx)
        if not t:
            return ["null", self.emit("null;", ind)]
        if t.ty.kind == "a" and t.ty.n < 0:      # slice or unconstrained parameter
            n = t.n
            e = None
            if n is not None and n > 0:
                e = self.array(cx, t.ty, 0, n)
            if e is None:
                c = [x for x in cx.writes if x.ty.kind == "s"]
                if n is None or not c:
                    return ["null", self.emit("null;", ind)]
                v = self.r.choice(c)
                t = self.rd(v)
                e = self.expr(cx, t.ty)
                return ["as", self.emit("%s := %s;" % (t.t, e.t), ind), t.a, e.a, t.ty.idx]
            return ["as", self.emit("%s := %s;" % (t.t, e.t), ind), t.a, e.a, 0]
        e = self.expr(cx, t.ty)
        self.feats.add("assign")
        return ["as", self.emit("%s := %s;" % (t.t, e.t), ind), t.a, e.a, t.ty.idx]

    def log(self, cx, ind, vs=None):
        r = self.r
        es = []
        if vs is None:
            for _ in range(r.randint(1, 2)):
                x = r.random()
                if x < .5:
                    es.append(self.int(cx))
                elif x < .6:
                    es.append(self.bool(cx))
                elif x < .75:
                    es.append(self.enum(cx))
                    es[-1].ty = self.ENUM
                else:
                    a = self.array(cx, r.choice(self.bases), 1, None)
                    if a:
                        a.isarr = True
                        es.append(a)
                if es and es[-1].ty is None:
                    es[-1].ty = self.INT if x < .5 else self.BOOL
        else:
            for v in vs:
                e = self.rd(v)
                if v.ty.kind == "r":
                    es += [self.field(e, i) for i in range(len(v.ty.fields))]
                else:
                    es.append(e)
        self.tag += 1
        parts, kinds, asts = [], [], []
        for e in es:
            k = "s"
            if getattr(e, "isarr", False) or e.ty is not None and e.ty.kind == "a":
                k = "a"
                parts.append("im(%s)" % e.t)
            elif e.ty is self.INT or e.ty.base == "int":
                parts.append("\" \" & integer'image(%s)" % e.t)
            else:
                parts.append("\" \" & integer'image(%s'pos(%s))" % ("en" if e.ty.base == "enum" else "boolean", e.t))
            kinds.append(k)
            asts.append(e.a)
        ln = self.emit("report \"L %d\"%s;" % (self.tag, "".join(" & " + p for p in parts)), ind)
        return ["log", ln, self.tag, asts, kinds]

    def proc_call(self, cx, ind):
        r = self.r
        ps = [f for f in cx.subs if not f.ret and cx.mult * f.cost + self.cost < self.budget and (f is not cx.me or cx.recarg)
              and not (f.logs and not cx.logs) and not (f.writes - cx.mayset)]
        if not ps:
            return None
        f = r.choice(ps)
        args, ts, used = [], [], set(f.uses)
        # variables whose value changes through the call must not appear anywhere else in it
        outs = {}
        for p, m in zip(f.params, f.modes):
            if m != "in":
                c = []
                for v in cx.writes:
                    if v.id in used:
                        continue
                    if p.ty.kind == "s" and v.ty.kind == "s" and v.ty.base == p.ty.base:
                        c.append((self.rd(v), v))
                    if p.ty.kind == "s" and v.ty.kind == "a" and v.ty.n > 0 and v.ty.elem.base == p.ty.base:
                        c.append((self.elem(cx, self.rd(v), 0, True), v))
                    if p.ty.kind == "a" and v.ty.kind == "a" and v.ty.n >= 0 and v.ty.base == p.ty.base and (p.ty.n < 0 or p.ty.n == v.ty.n):
                        c.append((self.rd(v), v))
                    if p.ty.kind == "r" and v.ty.kind == "r":
                        c.append((self.rd(v), v))
                # nvc does not check the value given back by an out or inout parameter (see the known findings)
                c = [(e, v) for e, v in c if e.ty.kind != "s" or e.ty.lo <= p.ty.lo and e.ty.hi >= p.ty.hi and
                     (m == "out" or self.err or e.ty.lo >= p.ty.lo and e.ty.hi <= p.ty.hi)]
                if not c:
                    return None
                e, v = r.choice(c)
                used.add(v.id)
                outs[p.id] = e
        icx = cx.sub(reads=[v for v in cx.reads if v.id not in used])
        for p, m in zip(f.params, f.modes):
            if m != "in":
                e = outs[p.id]
                args.append([e.a, e.ty.idx])
            elif f.rec is p:
                e = cx.recarg if f is cx.me else lit(r.randint(0, 3))
                args.append([e.a, 0])
            else:
                e = self.expr(icx, p.ty, 1, roots=used)
                args.append([e.a, 0])
            ts.append(e.t if r.random() < .8 and not any("=>" in x for x in ts) else "%s => %s" % (p.name, e.t))
        self.charge(cx, f.cost)
        self.feats.add("procedure call")
        for m in f.modes:
            self.feats.add("mode " + m)
        return ["call", self.emit("%s%s;" % (f.name, "(%s)" % ", ".join(ts) if ts else ""), ind), f.id, args]

    def stmts(self, cx, n, ind):
        return [s for _ in range(n) for s in self.stmt(cx, ind)]

    def stmt(self, cx, ind):
        r = self.r
        self.charge(cx)
        x = r.random()
        deep = ind > 6
        if x < .38 or deep:
            return [self.assign(cx, ind)]
        if x < .5 and cx.logs:
            return [self.log(cx, ind)]
        if x < .62:
            c = self.bool(cx)
            ln = self.emit("if %s then" % c.t, ind)
            a = self.stmts(cx, r.randint(1, 2), ind + 1)
            b = []
            if r.random() < .3:
                c2 = self.bool(cx)
                l2 = self.emit("elsif %s then" % c2.t, ind)
                b = [["if", l2, c2.a, self.stmts(cx, 1, ind + 1), []]]
                if r.random() < .5:
                    self.emit("else", ind)
                    b[0][4] = self.stmts(cx, 1, ind + 1)
            elif r.random() < .6:
                self.emit("else", ind)
                b = self.stmts(cx, r.randint(1, 2), ind + 1)
            self.emit("end if;", ind)
            self.feats.add("if")
            return [["if", ln, c.a, a, b]]
        if x < .70:
            return [self.case(cx, ind)]
        if x < .80 and cx.mult < 60:
            return self.loop(cx, ind)
        if x < .9:
            c = self.proc_call(cx, ind)
            if c:
                return [c]
        if x < .95 and cx.loops:
            op = r.choice(["exit", "next"])
            lbl = r.choice(cx.loops)
            if r.random() < .3 and lbl != cx.loops[-1] or r.random() < .3:
                named = lbl
            else:
                named = ""
            c = self.bool(cx)
            self.feats.add(op + (" label" if named else ""))
            return [[op, self.emit("%s%s when %s;" % (op, " " + named if named else "", c.t), ind), named, c.a]]
        if x < .98 and cx.me is not None and cx.mayret:
            c = self.bool(cx)
            ln = self.emit("if %s then" % c.t, ind)
            s = self.ret(cx, ind + 1)
            self.emit("end if;", ind)
            self.feats.add("early return")
            return [["if", ln, c.a, [s], []]]
        if self.err and r.random() < .15:
            c = self.bool(cx)
            if not c.static:
                return [["assert", self.emit("assert %s severity failure;" % c.t, ind), c.a]]
        return [self.assign(cx, ind)]

    def ret(self, cx, ind):
        f = cx.me
        if not f.ret:
            return ["ret", self.emit("return;", ind), [], 0]
        e = self.expr(cx, f.ret, 1)
        return ["ret", self.emit("return %s;" % e.t, ind), e.a, f.ret.idx]

    def case(self, cx, ind):
        r = self.r
        self.feats.add("case")
        if r.random() < .5:
            m = len(self.lits)
            e = self.enum(cx)
            if e.static:
                e = self.scalar(cx, "enum") or e
            lo, hi = 0, m - 1
            nm = lambda k: self.lits[k]
            if e.ty is None:
                e = E("en'(%s)" % e.t, e.a)
            if e.ty is not None:
                lo, hi = e.ty.lo, e.ty.hi
        else:
            e = self.int(cx)
            lo, hi = -4, 12
            nm = lambda k: lit(k).t
            if e.ty is not None:
                lo, hi = max(lo, e.ty.lo), min(hi, e.ty.hi)
            else:
                e = E("integer'(%s)" % e.t, e.a, e.lo, e.hi)
            if e.ty is None and e.lo > -50 and e.hi < 50:
                lo, hi = max(lo, e.lo), min(hi, e.hi)
                if hi < lo:
                    lo, hi = -4, 12
        if e.ty is not None and e.ty.name == "":       # loop parameter
            e = E("integer'(%s)" % e.t, e.a)
        ln = self.emit("case %s is" % e.t, ind)
        vals = list(range(lo, hi + 1))
        alts = []
        for _ in range(r.randint(1, 3)):
            ch, tx = [], []
            for _ in range(r.randint(1, 2)):
                if not vals:
                    break
                k = r.choice(vals)
                if r.random() < .3:
                    z = k
                    while z + 1 in vals and r.random() < .6:
                        z += 1
                    ch.append([k, z])
                    tx.append("%s to %s" % (nm(k), nm(z)))
                    vals = [v for v in vals if not k <= v <= z]
                else:
                    ch.append([k, k])
                    tx.append(nm(k))
                    vals.remove(k)
            if not ch:
                break
            self.emit("when %s =>" % " | ".join(tx), ind + 1)
            alts.append([ch, self.stmts(cx, 1, ind + 2)])
        self.emit("when others =>", ind + 1)
        alts.append([[], self.stmts(cx, 1, ind + 2)])
        self.emit("end case;", ind)
        return ["case", ln, e.a, alts]

    def loop(self, cx, ind):
        r = self.r
        self.label += 1
        lbl = "l%d" % self.label
        inner = cx.sub(loops=cx.loops + [lbl])
        if r.random() < .6 or not cx.counters:
            v = self.new_var("j%d" % self.label, self.INT)
            arrs = [a for a in cx.reads if a.ty.kind == "a"]
            trips = 3
            if arrs and r.random() < .35:
                a = r.choice(arrs)
                if r.random() < .3:
                    txt, lo, hi, d = a.name + "'reverse_range", ["right", ["v", a.id]], ["left", ["v", a.id]], ["asc", ["v", a.id]]
                else:
                    txt, lo, hi, d = a.name + "'range", ["left", ["v", a.id]], ["right", ["v", a.id]], ["not", ["asc", ["v", a.id]]]
                v.ty = Ty("s", "", "int", self.INT.idx, a.ty.low() if a.ty.n >= 0 else -20, a.ty.low() + a.ty.n - 1 if a.ty.n >= 0 else 20)
                trips = a.ty.n if a.ty.n > 0 else 6
                self.feats.add("for range")
            else:
                a = self.wrap(self.int(cx, 2), -10, 10, True)
                b = self.wrap(self.int(cx, 3), 0, 4, True)
                d = r.randint(0, 1)
                op = "-" if d else "+"
                lo, hi = a.a, [op, a.a, ["-", b.a, ["c", 1]]]
                txt = "%s %s %s %s (%s - 1)" % (a.t, "downto" if d else "to", a.t, op, b.t)
                d = ["c", d]
                v.ty = Ty("s", "", "int", self.INT.idx, -15, 15)
                self.feats.add("for")
            ln = self.emit("%s : for %s in %s loop" % (lbl, v.name, txt), ind)
            inner = inner.sub(reads=cx.reads + [v], mult=cx.mult * trips)
            body = self.stmts(inner, r.randint(1, 3), ind + 1)
            self.emit("end loop;", ind)
            return [["for", ln, lbl, v.id, lo, hi, d, body]]
        w = cx.counters[0]
        inner = inner.sub(counters=cx.counters[1:], mult=cx.mult * 3)
        k = r.randint(1, 4)
        s0 = ["as", self.emit("%s := 0;" % w.name, ind), ["v", w.id], ["c", 0], self.INT.idx]
        plain = r.random() < .3
        cnt = E("(%s < %d)" % (w.name, k), ["<", ["v", w.id], ["c", k]])
        if plain:
            ln, cond = self.emit("%s : loop" % lbl, ind), ["c", 1]
            body = [["exit", self.emit("exit when not %s;" % cnt.t, ind + 1), "", ["not", cnt.a]]]
        else:
            if r.random() < .5:
                c = self.bool(cx, 1)
                cnt = E("(%s and %s)" % (cnt.t, c.t), ["and", cnt.a, c.a])
            ln, cond, body = self.emit("%s : while %s loop" % (lbl, cnt.t), ind), cnt.a, []
        body.append(["as", self.emit("%s := %s + 1;" % (w.name, w.name), ind + 1), ["v", w.id], ["+", ["v", w.id], ["c", 1]], self.INT.idx])
        body += self.stmts(inner, r.randint(1, 3), ind + 1)
        self.emit("end loop;", ind)
        self.feats.add("while")
        return [s0, ["while", ln, lbl, cond, body]]

    # --- declarations
    def decls(self, cx, n, ind, prefix, k=1, types=None):
        """Declare n variables and k loop counters; returns (vars, counters, AST)."""
        vs, ast = [], []
        for i in range(n):
            t = types[i] if types and i < len(types) else self.any_type()
            e = self.expr(cx, t, 2)
            v = self.new_var("%s%d" % (prefix, self.uid()), t)
            ln = self.emit("variable %s : %s := %s;" % (v.name, t.name, e.t), ind)
            ast.append([v.id, e.a, ln])
            vs.append(v)
            if self.r.random() < .7:
                cx = cx.sub(reads=cx.reads + [v])
        cs = []
        for i in range(k):
            v = self.new_var("c%d" % self.uid(), self.INT)
            ln = self.emit("variable %s : integer := 0;" % v.name, ind)
            ast.append([v.id, ["c", 0], ln])
            cs.append(v)
        return vs, cs, ast

    def uid(self):
        self.nid += 1
        return self.nid

    def signature(self, fn=None):
        r = self.r
        f = Sub()
        fn = r.random() < .6 if fn is None else fn
        f.name = ("f" if fn else "p") + str(self.uid())
        f.params, f.modes, f.outs = [], [], []
        f.rec = None
        for _ in range(r.randint(0 if not fn else 1, 3)):
            m = "in" if fn else r.choice(["in", "out", "inout", "inout"])
            x = r.random()
            if x < .15:
                t = r.choice(self.bases)
                m = "inout" if m == "out" else m
            elif x < .3:
                t = r.choice(self.arrays)
                m = "inout" if m == "out" else m
            elif x < .38 and self.recs:
                t = self.recs[0]
                m = "inout" if m == "out" else m
            else:
                t = r.choice([r.choice(self.ints), r.choice(self.enums), self.BOOL])
            if r.random() < .5 and t.kind == "s" and t.base == "int" and m != "in":
                t = self.INT
            v = self.new_var("a%d" % self.uid(), t)
            f.params.append(v)
            f.modes.append(m)
            f.outs.append(t.lo if t.kind == "s" else 0)
        if r.random() < .35:
            f.rec = self.new_var("d%d" % self.uid(), self.SMALL)
            f.params.insert(0, f.rec)
            f.modes.insert(0, "in")
            f.outs.insert(0, 0)
        f.ret = None
        if fn:
            f.ret = r.choice([r.choice(self.ints), self.INT, r.choice(self.enums), self.BOOL, r.choice(self.arrays), r.choice(self.bases)]
                             + (self.recs if self.recs else []))
        f.uses, f.writes, f.logs = set(), set(), False
        f.impure = bool(f.ret) and r.random() < .3
        return f

    def head(self, f):
        ps = "; ".join("%s%s : %s %s" % ("variable " if m != "in" else "", p.name, m, p.ty.name) for p, m in zip(f.params, f.modes))
        ps = " (%s)" % ps if ps else ""
        if f.ret:
            return "%sfunction %s%s return %s" % ("impure " if f.impure else "", f.name, ps, f.ret.name)
        return "procedure %s%s" % (f.name, ps)

    def body_of(self, f, outer, ind, nested=False):
        """Emit the body of f; outer: (reads, writes, subs) visible around it."""
        r = self.r
        reads, writes, subs = outer
        if nested:
            if f.ret and not f.impure:
                reads = [v for v in reads if v.id in self.consts]
            f.uses = {v.id for v in reads if v.id not in self.consts}
            for g in subs:
                f.uses |= g.uses
            if not f.ret:
                f.writes = {v.id for v in writes}
                for g in subs:
                    f.writes |= g.writes if not g.ret else set()
        mine = len(self.vars)
        save, self.cost = self.cost, 0
        self.emit(self.head(f) + " is", ind)
        own0 = [p.id for p in f.params]
        start = len(self.vars)
        cx = Cx(reads=list(reads) + [p for p, m in zip(f.params, f.modes) if m != "out"], writes=[], subs=list(subs), loops=[],
                me=f, recarg=None, mult=1, logs=False, counters=[], mayret=False, mayset=set())
        vs, cs, ast = self.decls(cx, r.randint(1, 3), ind + 1, "v", 1)
        allp = list(f.params)
        # out parameters of scalar type start with the leftmost value
        wr = [p for p, m in zip(f.params, f.modes) if m != "in"] + vs + ([] if f.ret else list(writes))
        rd = list(reads) + allp + vs
        mysubs = []
        if not nested and r.random() < .4:
            for _ in range(r.randint(1, 2)):
                g = self.signature()
                if f.ret and not f.impure:
                    g.impure = False
                vis = [v for v in allp + vs if r.random() < .7 and v.ty.n != -1 or v.ty.kind != "a"]
                ws = [v for v in vs + [p for p, m in zip(f.params, f.modes) if m != "in"] if v in vis]
                self.body_of(g, (vis + [v for v in reads if v.id in self.consts], ws, [s for s in subs if not s.uses]), ind + 1, True)
                mysubs.append(g)
            self.feats.add("nested subprogram")
        self.emit("begin", ind)
        cx = Cx(reads=rd, writes=wr, subs=list(subs) + mysubs + ([f] if f.rec else []), loops=[], me=f, recarg=None, mult=1,
                logs=False, counters=cs, mayret=True,
                mayset={v.id for v in writes} | set(own0) | {v.id for v in vs})
        if f.ret:       # functions have no side effects: they call no procedure that writes outside
            cx.mayset = set(own0) | {v.id for v in vs}
        f.cost = 30
        body = []
        # the initial value of a formal of mode out is never observed
        for p, m in zip(f.params, f.modes):
            if m == "out":
                icx = cx.sub(reads=[v for v in rd if v not in allp], subs=[])
                e = self.expr(icx, p.ty, 1)
                body.append(["as", self.emit("%s := %s;" % (p.name, e.t), ind + 1), ["v", p.id], e.a, p.ty.idx])
        if f.rec:
            ln = self.emit("if %s = 0 then" % f.rec.name, ind + 1)
            s = self.ret(cx, ind + 2)
            self.emit("end if;", ind + 1)
            body.append(["if", ln, ["=", ["v", f.rec.id], ["c", 0]], [s], []])
        body += self.stmts(cx, r.randint(1, 3), ind + 1)
        if f.rec:
            rcx = cx.sub(recarg=E("(%s - 1)" % f.rec.name, ["-", ["v", f.rec.id], ["c", 1]], 0, 3))
            if f.ret:
                tgt = [v for v in wr if v.ty.base == f.ret.base and (v.ty.kind != "a" or v.ty.n >= 0 and v.ty.n == f.ret.n)]
                if tgt and (self.err or f.ret.kind != "s" or True):
                    v = r.choice(tgt)
                    e = self.call(rcx, f, 1)
                    ok = v.ty.kind != "s" or v.ty.lo <= f.ret.lo and v.ty.hi >= f.ret.hi
                    if not ok and f.ret.base == "int":
                        e = self.wrap(e, v.ty.lo, v.ty.hi)
                        ok = True
                    if ok or self.err:
                        body.append(["as", self.emit("%s := %s;" % (v.name, e.t), ind + 1), ["v", v.id], e.a, v.ty.idx])
            else:
                rc = rcx.sub(subs=[f])
                c = self.proc_call(rc, ind + 1)
                if c:
                    body.append(c)
            body += self.stmts(cx, 1, ind + 1)
        if f.ret:
            if self.risky() and not f.rec:
                c = self.bool(cx)
                ln = self.emit("if %s then" % c.t, ind + 1)
                s = self.ret(cx, ind + 2)
                self.emit("end if;", ind + 1)
                body.append(["if", ln, c.a, [s], []])
                self.feats.add("maybe no return")
            else:
                body.append(self.ret(cx, ind + 1))
        self.emit("end %s;" % ("function" if f.ret else "procedure"), ind)
        f.cost = self.cost * (6 if f.rec else 1) + 5
        self.cost = save
        own = own0 + list(range(start + 1, len(self.vars) + 1))
        f.ast = {"ps": [p.id for p in f.params], "modes": f.modes, "outs": f.outs, "ls": ast, "body": body,
                 "rt": f.ret.idx if f.ret else 0, "own": own}
        self.funcs[f.id - 1] = f.ast

    def reserve(self, f):
        self.funcs.append(None)
        f.id = len(self.funcs)

    def program(self):
        r = self.r
        self.consts = set()
        sig0 = self.signature
        def signature(fn=None):
            f = sig0(fn)
            self.reserve(f)
            return f
        self.signature = signature
        inpkg = r.random() < .5
        if inpkg:
            self.emit("package p is", 0)
        else:
            self.emit("entity t is end entity;", 0)
            self.emit("architecture a of t is", 0)
        self.make_types()
        subs = []
        sigs = [self.signature() for _ in range(r.randint(1, 4))]
        if inpkg:
            self.feats.add("package")
            for b in self.bases:
                self.emit("function im (a : %s; i : natural := 0) return string;" % b.name)
            for f in sigs:
                self.emit(self.head(f) + ";")
            self.emit("end package;", 0)
            self.emit("package body p is", 0)
        for l in self.images:
            self.emit(l)
        for f in sigs:
            self.body_of(f, ([], [], list(subs)), 1)
            subs.append(f)
        if inpkg:
            self.emit("end package body;", 0)
            self.emit("use work.p.all;", 0)
            self.emit("entity t is end entity;", 0)
            self.emit("use work.p.all;", 0)
            self.emit("architecture a of t is", 0)
        decls, consts = [], []
        for _ in range(r.randint(0, 2)):
            t = self.any_type()
            # (calls multiplied by zero are not evaluated here: see the known findings of C07)
            cx = Cx(reads=list(consts), writes=[], subs=[s for s in subs if s.ret and not self.err], loops=[], me=None, recarg=None, mult=1, logs=False,
                    counters=[], mayret=False, mayset=set())
            e = self.expr(cx, t, 1)
            v = self.new_var("k%d" % self.uid(), t)
            decls.append([v.id, e.a, self.emit("constant %s : %s := %s;" % (v.name, t.name, e.t))])
            consts.append(v)
            self.consts.add(v.id)
            self.feats.add("constant")
        self.emit("begin", 0)
        self.emit("process")
        cx = Cx(reads=list(consts), writes=[], subs=[s for s in subs if s.ret], loops=[], me=None, recarg=None, mult=1, logs=True,
                counters=[], mayret=False, mayset=set())
        vs, cs, ast = self.decls(cx, r.randint(3, 6), 2, "x", 2)
        decls += ast
        psubs = []
        if r.random() < .4:
            for _ in range(r.randint(1, 2)):
                g = self.signature()
                vis = [v for v in vs if r.random() < .5]
                self.body_of(g, (vis + consts, list(vis), [s for s in subs if not s.uses]), 2, True)
                psubs.append(g)
            self.feats.add("process subprogram")
        self.emit("begin")
        cx = Cx(reads=consts + vs, writes=list(vs), subs=subs + psubs, loops=[], me=None, recarg=None, mult=1, logs=True, counters=cs,
                mayret=False, mayset={v.id for v in vs})
        body = []
        for i in range(self.size):
            body += self.stmt(cx, 2)
            if i % 4 == 3:
                body.append(self.log(cx, 2, vs))
        body.append(self.log(cx, 2, vs + consts))
        self.emit("wait;", 2)
        self.emit("end process;")
        self.emit("end architecture;", 0)
        case = {"types": [t.spec() for t in self.types], "vars": self.vars, "funcs": self.funcs, "decls": decls, "body": body,
                "log": [], "result": {"k": "ok", "kind": "", "line": 0}}
        return case, "\n".join(self.lines) + "\n"

    # --- sweeps: every value of two operand subtypes through one expression
    def sweep(self, erring, k):
        """z := f(x, y) for all x, y of two small subtypes.  The target subtype, array or condition is cut
        close to the values the expression takes, so that bounds inferred too narrow or too wide show."""
        r = self.r
        self.consts = set()
        self.emit("entity t is end entity;", 0)
        self.emit("architecture a of t is", 0)
        self.make_types()
        def rng():
            c = cls.pop()         # sign class: negative, mixed, natural, positive
            if c == 0:
                a = r.randint(-9, -2); return a, r.randint(a, -1)
            if c == 1:
                return r.randint(-9, -1), r.randint(0, 8)
            a = 0 if c == 2 else r.randint(1, 5)
            return a, a + r.randint(0, 8)
        # the first expression of a group of 224 is every operator with every pair of sign classes and cut
        ops = ["+", "-", "*", "/", "mod", "rem", "**"]
        cls = [k // 28 % 4, k // 7 % 4]
        simple, cut = r.random() < .75, k // 112 % 2
        def sub(lo, hi):
            t = self.add(Ty("s", "w%d" % len(self.types), "int", lo=lo, hi=hi))
            self.emit("subtype %s is integer range %s to %s;" % (t.name, lit(lo).t, lit(hi).t))
            return t
        A, B = sub(*rng()), sub(*rng())
        if r.random() < .25:
            A = sub(A.lo, MAXI)
        ra, rb = range(A.lo, min(A.hi, A.lo + 12) + 1), range(B.lo, B.hi + 1)
        x, y = self.new_var("x", A), self.new_var("y", B)
        i, j = self.new_var("i", self.INT), self.new_var("j", self.INT)
        def pyop(o, a, b):
            if o == "+": return a + b
            if o == "-": return a - b
            if o == "*": return a * b
            if o in ("/", "mod", "rem") and b == 0: return None
            if o == "/": return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            if o == "mod": return a % b
            if o == "rem": return abs(a) % abs(b) * (1 if a >= 0 else -1)
            if o == "**": return a ** b if b >= 0 else None
        def tree(d):
            q = r.random()
            if d == 0 or d == 1 and q < .45:
                v = r.choice([x, y] if r.random() < .8 else [x])
                if r.random() < .2:
                    k = r.randint(-4, 5)
                    return lit(k), lambda a, b: k
                return self.rd(v), (lambda a, b: a) if v is x else (lambda a, b: b)
            if q < .12:
                o = r.choice(["neg", "abs"])
                e, f = tree(d - 1)
                g = lambda a, b: None if f(a, b) is None else (-f(a, b) if o == "neg" else abs(f(a, b)))
                return E("(-%s)" % e.t if o == "neg" else "(abs %s)" % e.t, [o, e.a]), g
            o = r.choice("+ - * / mod rem mod rem / **".split())
            (e1, f1), (e2, f2) = tree(d - 1), tree(d - 1)
            if d > 1 and o == "**":
                o = "rem"
            if e2.a[0] == "c" and e2.a[1] == 0 and o in ("/", "mod", "rem"):
                e2, f2 = self.rd(y), lambda a, b: b
            def g(a, b):
                u, v = f1(a, b), f2(a, b)
                return None if u is None or v is None else pyop(o, u, v)
            self.feats.add("sweep " + o)
            return E("(%s %s %s)" % (e1.t, o, e2.t), [o, e1.a, e2.a]), g
        e, f = tree(r.choice([1, 1, 2]))
        if simple:
            o = ops[k % 7]
            e, f = E("(x %s y)" % o, [o, ["v", x.id], ["v", y.id]]), lambda a, b: pyop(o, a, b)
            self.feats.add("sweep " + o)
        if e.a[0] in "cv":
            e, f = E("(x mod 5)", ["mod", ["v", x.id], ["c", 5]]), lambda a, b: a % 5
        vals = [(a, b, f(a, b)) for a in ra for b in rb]
        good = sorted({v for _, _, v in vals if v is not None and abs(v) < MAXI})
        if not good:
            good = [0]
        lo, hi = good[0], good[-1]
        if erring and len(good) > 1 and r.random() < .8:
            if cut:
                hi = r.choice(good[-3:-1] or good[:1])
            else:
                lo = r.choice(good[1:3])
        lo, hi = min(lo, hi), max(lo, hi)
        if r.random() < .3:
            hi = max(hi, lo + r.randint(0, 9))
        T = sub(lo, hi)
        z = self.new_var("z", T)
        how = r.choice(["as", "as", "ix", "cv", "cmp"] if hi - lo < 200 else ["as", "cv", "cmp"])
        self.feats.add("sweep by " + how)
        if how == "ix":
            at = self.add(Ty("a", "wa", "wa", n=hi - lo + 1, l=lo, d=0, elem=self.INT))
            self.emit("type wa is array (%s to %s) of integer;" % (lit(lo).t, lit(hi).t))
            arr = self.new_var("arr", at)
        self.emit("begin", 0)
        self.emit("process")
        decls = []
        for v, init in ((x, A.lo), (y, B.lo), (z, lo)):
            decls.append([v.id, ["c", init], self.emit("variable %s : %s := %s;" % (v.name, v.ty.name, lit(init).t), 2)])
        if how == "ix":
            decls.append([arr.id, ["agg", lo, 0, [["c", 7]] * (hi - lo + 1), self.INT.idx], self.emit("variable arr : wa := (others => 7);", 2)])
        self.emit("begin")
        l1 = self.emit("l1 : for i in %s to %s loop" % (lit(ra[0]).t, lit(ra[-1]).t), 2)
        l2 = self.emit("l2 : for j in %s to %s loop" % (lit(rb[0]).t, lit(rb[-1]).t), 3)
        body = [["as", self.emit("x := i;", 4), ["v", x.id], ["v", i.id], A.idx],
                ["as", self.emit("y := j;", 4), ["v", y.id], ["v", j.id], B.idx]]
        zero = any(v is None for _, _, v in vals)
        skip = zero and (not erring or r.random() < .7)
        if not erring or skip:
            bad = sorted({(a, b) for a, b, v in vals if v is None or abs(v) >= MAXI or not erring and not lo <= v <= hi})
            # leave out the pairs that have no result
            badb = sorted({b for a, b in bad})
            bada = sorted({a for a, b in bad})
            conds = [(x, k) for k in bada] if len(bada) <= len(badb) else [(y, k) for k in badb]
            for v, k in conds:
                body.append(["next", self.emit("next when %s = %s;" % (v.name, lit(k).t), 4), "", ["=", ["v", v.id], ["c", k]]])
        if how == "as":
            body.append(["as", self.emit("z := %s;" % e.t, 4), ["v", z.id], e.a, T.idx])
        elif how == "cv":
            body.append(["as", self.emit("z := %s'(%s);" % (T.name, e.t), 4), ["v", z.id], ["cv", e.a, T.idx], T.idx])
        elif how == "ix":
            body.append(["as", self.emit("arr(%s) := i;" % e.t, 4), ["ix", ["v", arr.id], e.a], ["v", i.id], self.INT.idx])
        else:
            k = r.choice([lo - 1, lo, hi, hi + 1, r.randint(lo, hi)])
            o = r.choice(["<", "<=", ">", ">=", "=", "/="])
            s1, l = [], self.emit("if %s %s %s then" % (e.t, o, lit(max(-MAXI, min(MAXI, k))).t), 4)
            s1 = [["as", self.emit("z := %s;" % lit(hi).t, 5), ["v", z.id], ["c", hi], T.idx]]
            self.emit("else", 4)
            s2 = [["as", self.emit("z := %s;" % lit(lo).t, 5), ["v", z.id], ["c", lo], T.idx]]
            self.emit("end if;", 4)
            body.append(["if", l, [o, e.a, ["c", max(-MAXI, min(MAXI, k))]], s1, s2])
        rz = self.rd(z)
        rz.ty = self.INT
        if how != "ix":
            body.append(self.log(None, 4, [z]))
        self.emit("end loop;", 3)
        self.emit("end loop;", 2)
        prog = [["for", l1, "l1", i.id, ["c", ra[0]], ["c", ra[-1]], ["c", 0],
                 [["for", l2, "l2", j.id, ["c", rb[0]], ["c", rb[-1]], ["c", 0], body]]]]
        prog.append(self.log(None, 2, [x, y, z] + ([arr] if how == "ix" else [])))
        self.emit("wait;", 2)
        self.emit("end process;")
        self.emit("end architecture;", 0)
        if how == "ix":
            k = self.lines.index("begin")
            self.lines[k] = ("  function imw (a : wa; i : integer) return string is begin if i > a'right then return \"\"; "
                             "else return \" \" & integer'image(a(i)) & imw(a, i + 1); end if; end; "
                             "function im (a : wa) return string is begin return \" \" & integer'image(a'length) & imw(a, a'left); end; begin")
        case = {"types": [t.spec() for t in self.types], "vars": self.vars, "funcs": [], "decls": decls, "body": prog,
                "log": [], "result": {"k": "ok", "kind": "", "line": 0}}
        return case, "\n".join(self.lines) + "\n"

KINDS = [("division by zero", "div0"), (r"result of .* cannot be represented|overflow", "overflow"), ("negative exponent", "negexp"),
         (r"index .* outside of|slice .* outside|array .* index", "index"), (r"value .* outside of|type conversion argument|does not match enumeration|cannot be represented", "range"),
         (r"length .* does not match|length of", "length"), ("did not return a value", "noreturn"), ("[Aa]ssertion violation", "assert"),
         ("'SUCC|'PRED|'VAL|no .* value|last value|first value", "range")]

def kind(text):
    for p, k in KINDS:
        if re.search(p, text):
            return k
    return "unknown: " + text
