#!/usr/bin/env python3
"""C21: std_logic_1164 and numeric_std compute their defined functions on vectors of any length and value."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, fcheck, nvc, seqcheck

seqcheck.MODES.setdefault("nointr", dict(mode="jit", extra_env={"NVC_JIT_THRESHOLD": "0", "NVC_JIT_INTRINSICS": "0"}))
seqcheck.MODES.setdefault("novec", dict(mode="jit", extra_env={"NVC_JIT_THRESHOLD": "0", "NVC_VECTOR_INTRINSICS": "0"}))

CH = "UX01ZWLH-"
LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 130]
VT = {"slv": "std_logic_vector", "uns": "u_unsigned", "sgn": "u_signed"}
SH = {"slv": "shv", "uns": "shu", "sgn": "shs"}

class Gen:
    def __init__(self, r):
        self.r, self.I, self.ns = r, fcheck.Items(r), 0
        self.subs = []
    def length(self, hi=130, lo=0):
        return self.r.choice([n for n in LENS if lo <= n <= hi])
    def vec(self, n, k=None):
        r = self.r
        k = k or r.choice(["01", "01", "01", "01LH", "one", "all", "ext"])
        if k == "ext":
            return r.choice([[2] * n, [3] * n, [2] * (n - 1) + [3] if n else [], [3] + [2] * (n - 1) if n else [], [2] + [3] * (n - 1) if n else []])
        a = [r.choice([2, 3] if k in ("01", "one") else [2, 3, 6, 7] if k == "01LH" else range(9)) for _ in range(n)]
        if k == "one" and n:
            a[r.randrange(n)] = r.choice([0, 1, 4, 5, 8, 8, 7, 6])
        if k in ("01",) and r.random() < .3 and n > 2:      # runs of equal bits
            i = r.randrange(n)
            a[:i] = [r.choice([2, 3])] * i
        return a
    def op(self, ty, a, left=None, d=None):
        """(literal, subtype) of a vector operand with random bounds"""
        r, n = self.r, len(a)
        d = r.choice([0, 1, 1]) if d is None else d
        if left is None:
            left = r.choice([0, 0, 1, 5, 40]) if d == 0 else max(0, n - 1 + r.choice([0, 0, 0, 1, 3, 17]))
        if n == 0:
            b = "%d to %d" % (left + 1, left) if d == 0 else "%d downto %d" % (left, left + 1)
        else:
            b = "%d to %d" % (left, left + n - 1) if d == 0 else "%d downto %d" % (left, left - n + 1)
        self.ns += 1
        s = "sb%d" % self.ns
        self.subs.append("subtype %s is %s(%s);" % (s, VT[ty], b))
        return '"%s"' % "".join(CH[x] for x in a), s
    def el(self, x):
        return "'%s'" % CH[x], "std_ulogic"
    def add(self, op, ty, f, a, b, n, expr, ops, kind):
        self.I.add({"op": op, "ty": ty, "f": f, "a": a, "b": b, "n": n}, expr, ops, kind)
    def ints(self, n, sgn):
        """an integer that fits n bits"""
        r = self.r
        m = min(n, 32) if sgn else min(n, 31)
        lo, hi = (-2 ** (m - 1), 2 ** (m - 1) - 1) if sgn else (0, 2 ** m - 1)
        v = r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)])
        return max(lo, min(hi, v))
    def lit(self, v):
        return ("integer'low" if v == -2 ** 31 else "(%d)" % v if v < 0 else str(v)), "integer"
    def num(self, n, meta=.2):
        r = self.r
        return self.vec(n, r.choice(["01", "01", "ext", "01LH"]) if r.random() > meta else None)

    def logic(self):
        r = self.r
        for _ in range(5):
            ty = r.choice(["slv", "slv", "uns", "sgn"])
            f = r.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            n = self.length()
            a, b = self.vec(n), self.vec(n)
            self.add("logic", ty, f, a, b, 0, "{0} %s {1}" % f, [self.op(ty, a), self.op(ty, b)], SH[ty])
        for _ in range(2):
            ty = r.choice(["slv", "uns", "sgn"])
            f = r.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            a, x = self.vec(self.length()), r.randrange(9)
            e, o = ("{0} %s {1}" % f, [self.op(ty, a), self.el(x)]) if r.random() < .5 else ("{1} %s {0}" % f, [self.op(ty, a), self.el(x)])
            self.add("logicvs", ty, f, a, [x], 0, e, o, SH[ty])
        ty = r.choice(["slv", "uns", "sgn"])
        a = self.vec(self.length())
        self.add("not", ty, "", a, [], 0, "not {0}", [self.op(ty, a)], SH[ty])
        for _ in range(2):
            ty = r.choice(["slv", "uns", "sgn"])
            f = r.choice(["and", "or", "xor", "nand", "nor", "xnor"])
            a = self.vec(self.length())
            self.add("reduce", ty, f, a, [], 0, "%s {0}" % f, [self.op(ty, a)], "she")
        for f in ("x01", "x01z", "ux01"):
            ty = r.choice(["slv", "uns", "sgn"])
            a = self.vec(self.length())
            self.add(f, ty, "", a, [], 0, "to_%s({0})" % f, [self.op(ty, a)], SH[ty])
        for _ in range(2):
            ty = r.choice(["slv", "uns", "sgn"])
            a, x = self.num(self.length()), r.randrange(9)
            self.add("to01", ty, "", a, [x], 0, "to_01({0}, {1})", [self.op(ty, a), self.el(x)], SH[ty])
        a, x = self.vec(self.length()), r.randint(0, 1)
        self.add("tobit", "slv", "", a, [x], 0, "to_bitvector({0}, {1})", [self.op("slv", a), ("'%d'" % x, "bit")], "shbv")
        ty = r.choice(["slv", "uns", "sgn"])
        a = self.num(self.length())
        self.add("isx", ty, "", a, [], 0, "boolean'pos(is_x({0}))", [self.op(ty, a)], "i")
        a = self.vec(self.length(8, 1), "all")
        self.add("resolved", "slv", "", a, [], 0, "resolved({0})", [self.op("slv", a)], "she")
        for _ in range(2):
            x = r.randrange(9)
            self.add("cond", "slv", "", [x], [], 0, "boolean'pos(?? {0})", [self.el(x)], "i")
        for _ in range(4):
            x, y = r.randrange(9), r.randrange(9)
            f = r.choice(["?=", "?/=", "?<", "?<=", "?>", "?>="])
            if f not in ("?=", "?/=") and 8 in (x, y):
                continue
            self.add("matchel", "slv", f, [x], [y], 0, "{0} %s {1}" % f, [self.el(x), self.el(y)], "she")
    def near(self, a, k=None):
        """a vector that matches a in most elements"""
        r = self.r
        b = [r.choice([x, x, x, 8, 6 if x == 2 else 7 if x == 3 else x]) for x in a]
        if b and r.random() < .4:
            b[r.randrange(len(b))] = r.randrange(9)
        return b
    def match(self):
        r = self.r
        for _ in range(2):
            ty = "slv"
            a = self.vec(self.length(64, 1))
            b = self.near(a)
            f = r.choice(["?=", "?/="])
            self.add("matchvec", ty, f, a, b, 0, "{0} %s {1}" % f, [self.op(ty, a), self.op(ty, b)], "she")
        for _ in range(2):
            ty = r.choice(["slv", "uns", "sgn"])
            a = self.vec(self.length(64))
            b = self.near(a)
            if r.random() < .15:
                b = b + [2]
            self.add("stdmatch", ty, "", a, b, 0, "boolean'pos(std_match({0}, {1}))", [self.op(ty, a), self.op(ty, b)], "i")
        for _ in range(2):
            ty = r.choice(["uns", "sgn"])
            f = r.choice(["?=", "?/=", "?<", "?<=", "?>", "?>="])
            a = self.vec(self.length(33))
            b = self.near(a) if r.random() < .6 else self.vec(self.length(33))
            if f not in ("?=", "?/="):
                a, b = [x if x != 8 else 2 for x in a], [x if x != 8 else 3 for x in b]
            self.add("matchrel", ty, f, a, b, 0, "{0} %s {1}" % f, [self.op(ty, a), self.op(ty, b)], "she")
        for _ in range(2):
            ty = r.choice(["uns", "sgn"])
            f = r.choice(["find_leftmost", "find_rightmost"])
            a = self.vec(self.length(65, 1))
            x, d = r.randrange(9), r.randint(0, 1)
            left = r.randint(0, 9) + (len(a) - 1 if d else 0)
            self.add("find", ty, f, a, [x, d], left, "%s({0}, {1})" % f, [self.op(ty, a, left, d), self.el(x)], "i")
    def shifts(self):
        r = self.r
        for _ in range(5):
            ty = r.choice(["uns", "sgn", "slv"])
            f = r.choice(["sll", "srl", "rol", "ror"] + (["sla", "sra", "shift_left", "shift_right", "rotate_left", "rotate_right"] if ty != "slv" else []))
            a = self.vec(self.length())
            fn = "_" in f
            m = len(a)
            n = r.choice([0, 1, r.randint(0, m + 2), r.randint(0, m + 2), m, m + 1, 3 * m + 2])
            if not fn and r.random() < .35:
                n = -n
            if ty == "slv" and not a:
                continue
            self.add("shift", ty, f, a, [], n, "%s({0}, {1})" % f if fn else "{0} %s {1}" % f,
                     [self.op(ty, a), (self.lit(n)[0], "natural") if fn else self.lit(n)], SH[ty])
    def strings(self):
        r = self.r
        for op, f in (("string", "to_string"), ("hstring", "to_hstring"), ("ostring", "to_ostring")):
            ty = r.choice(["slv", "uns", "sgn"])
            a = self.vec(self.length(65, 0 if op == "string" else 1))
            self.add(op, ty, "", a, [], 0, "%s({0})" % f, [self.op(ty, a)], "s")
    def arith(self):
        r = self.r
        for _ in range(6):
            ty = r.choice(["uns", "sgn"])
            f = r.choice(["+", "-"])
            a, b = self.num(self.length()), self.num(self.length())
            if r.random() < .6:
                b = self.num(len(a))
            self.add("arith", ty, f, a, b, 0, "{0} %s {1}" % f, [self.op(ty, a), self.op(ty, b)], SH[ty])
        for _ in range(5):
            ty = r.choice(["uns", "sgn"])
            f = r.choice(["*", "*", "/", "rem", "mod"])
            h = r.choice([8, 8, 12, 17, 33, 33, 65 if f == "*" else 33])
            a, b = self.num(self.length(h), .1), self.num(self.length(h), .1)
            if f != "*":
                if all(x in (2, 6) for x in b) or f == "mod" and any(x in (6, 7) for x in a + b):
                    continue
            self.add("arith", ty, f, a, b, 0, "{0} %s {1}" % f, [self.op(ty, a), self.op(ty, b)], SH[ty])
        for _ in range(5):
            ty = r.choice(["uns", "sgn"])
            f = r.choice(["+", "-", "*", "/", "rem", "mod"])
            a = self.num(self.length(33 if f in "+-*" else 17, 1))
            n = self.ints(len(a), ty == "sgn")
            rev = r.random() < .4
            if f in ("/", "rem", "mod"):
                if (all(x in (2, 6) for x in a) if rev else n == 0) or any(x in (6, 7) for x in a):
                    continue
                if ty == "uns" and n == 0:
                    continue
            self.add("arithiv" if rev else "arithvi", ty, f, a, [], n, "{1} %s {0}" % f if rev else "{0} %s {1}" % f,
                     [self.op(ty, a), (self.lit(n)[0], "natural") if ty == "uns" else self.lit(n)], SH[ty])
        for _ in range(2):
            ty, f = r.choice(["uns", "sgn"]), r.choice("+-")
            a, x = self.num(self.length(65, 1)), r.choice([2, 3, 3, 6, 7, 1, 8])
            self.add("arithve", ty, f, a, [x], 0, "{0} %s {1}" % f, [self.op(ty, a), self.el(x)], SH[ty])
        for f in ("neg", "abs"):
            a = self.num(self.length(130, 1))
            if f == "abs" and any(x in (6, 7) for x in a):
                a = [2 if x == 6 else 3 if x == 7 else x for x in a]
            self.add(f, "sgn", "", a, [], 0, "-{0}" if f == "neg" else "abs {0}", [self.op("sgn", a)], "shs")
        for _ in range(5):
            ty, f = r.choice(["uns", "sgn"]), r.choice(["=", "/=", "<", "<=", ">", ">="])
            a, b = self.num(self.length()), self.num(self.length())
            if r.random() < .5:
                b = list(a)
                if b and r.random() < .7:
                    i = r.randrange(len(b))
                    b[i] = 5 - b[i] if b[i] in (2, 3) else b[i]
                if r.random() < .4:
                    b = ([b[0] if ty == "sgn" and b else 2] * r.randint(1, 5)) + b
            self.add("rel", ty, f, a, b, 0, "boolean'pos({0} %s {1})" % f, [self.op(ty, a), self.op(ty, b)], "i")
        for _ in range(4):
            ty, f = r.choice(["uns", "sgn"]), r.choice(["=", "/=", "<", "<=", ">", ">="])
            a = self.num(self.length(65))
            n = r.choice([self.ints(max(1, len(a)), ty == "sgn"), self.ints(32, ty == "sgn")])
            if a and len(a) <= 31 and not any(x in (0, 1, 4, 5, 8) for x in a) and r.random() < .5:
                n = int("".join("01"[x in (3, 7)] for x in a), 2)
                if ty == "sgn" and a[0] in (3, 7):
                    n -= 2 ** len(a)
                n = max(0 if ty == "uns" else -2 ** 31, min(2 ** 31 - 1, n + r.choice([0, 0, 1, -1])))
            rev = r.random() < .4
            self.add("reliv" if rev else "relvi", ty, f, a, [], n, "boolean'pos({%d} %s {%d})" % (rev, f, 1 - rev),
                     [self.op(ty, a), (self.lit(n)[0], "natural") if ty == "uns" else self.lit(n)], "i")
        for _ in range(2):
            ty, f = r.choice(["uns", "sgn"]), r.choice(["minimum", "maximum"])
            a, b = self.num(self.length(65)), self.num(self.length(65))
            self.add("minmax", ty, f, a, b, 0, "%s({0}, {1})" % f, [self.op(ty, a), self.op(ty, b)], SH[ty])
        for _ in range(3):
            ty = r.choice(["uns", "sgn"])
            a, n = self.vec(self.length()), self.length()
            self.add("resize", ty, "", a, [], n, "resize({0}, {1})", [self.op(ty, a), (str(n), "natural")], SH[ty])
        for _ in range(3):
            ty = r.choice(["uns", "sgn"])
            a = self.num(self.length(31 if ty == "uns" else 32))
            if ty == "uns" and r.random() < .3:
                a = [2] * r.randint(0, 40) + a
            self.add("toint", ty, "", a, [], 0, "to_integer({0})", [self.op(ty, a)], "i")
            n = self.length(65, 1)
            v = self.ints(n, ty == "sgn")
            self.add("fromint", ty, "", [], [n], v, "to_%s({0}, {1})" % {"uns": "unsigned", "sgn": "signed"}[ty],
                     [(self.lit(v)[0], "natural") if ty == "uns" else self.lit(v), (str(n), "natural")], SH[ty])
    def program(self):
        for g in (self.logic, self.match, self.shifts, self.strings, self.arith):
            g()
        I = self.I
        I.subs = self.subs
        sh = ""
        for n, t, e in (("shv", "std_ulogic_vector", "std_ulogic'pos(v(i))"), ("shu", "u_unsigned", "std_ulogic'pos(v(i))"),
                        ("shs", "u_signed", "std_ulogic'pos(v(i))"), ("shbv", "bit_vector", "bit'pos(v(i))")):
            sh += "  function %s (v : %s) return string is variable s : line; begin write(s, string'(\" \")); for i in v'range loop write(s, integer'image(%s) & \" \"); end loop; return s.all; end;\n" % (n, t, e)
        sh += "  function she (v : std_ulogic) return string is begin return integer'image(std_ulogic'pos(v)); end;\n"
        v = "library ieee;\nuse ieee.std_logic_1164.all, ieee.numeric_std.all, std.textio.all;\nentity t is end;\narchitecture a of t is\n" + sh + \
            "begin\n" + I.process() + "end;\n"
        return {"items": I.items}, I.kinds, v, I.feats

def gen(r, i):
    return Gen(r).program()

def body(c):
    fcheck.run(c, gen, c.n(180, 6000), [("interp",), ("llvm",), ("nointr",), ("interp",), ("novec",), ("llvm", "nointr")], "IeeeTrace", "IeeeValue", run=["--ieee-warnings=off"])

if __name__ == "__main__":
    check.main("C21", body)
