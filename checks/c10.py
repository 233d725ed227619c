#!/usr/bin/env python3
"""C10: PSL directives over random clocked traces, against Psl.tla."""
import os, re, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, known, nvc, tlc

TYPES = {"bit": "01", "boolean": ["false", "true"], "std_logic": "01HLXZ"}

class Gen:
    def __init__(self, r, only=None):
        self.r, self.feats = r, collections.Counter()
        self.n = r.randint(6, 12)
        self.types = [r.choice(["bit", "bit", "boolean", "std_logic"]) for _ in range(r.randint(3, 4))]
        self.sig = []
        for t in self.types:
            p = r.choice([.3, .5, .7, .85])
            row = []
            for _ in range(self.n):
                if t == "std_logic":
                    row.append(r.choice("11H") if r.random() < p else r.choice("000LXZ"))
                else:
                    row.append(TYPES[t][r.random() < p])
            self.sig.append(row)
        self.dirs = []

    # Booleans -------------------------------------------------------------
    def atom(self, typ=None):
        r = self.r
        k = r.randrange(len(self.types)) if typ is None else r.choice([i for i, t in enumerate(self.types) if t == typ])
        return k
    def lit(self, k, v):
        return v if self.types[k] == "boolean" else "'%s'" % v
    def boolean(self):
        """(AST, text)"""
        r = self.r
        x = r.random()
        k = self.atom()
        if x < .5:
            return ["b", k + 1], "s%d" % k
        if x < .6:
            return ["inv", k + 1], "not s%d" % k
        if x < .66 and self.types[k] == "bit":
            self.feats["built-in function"] += 1
            f = r.choice(["prev", "rose", "fell", "stable"])
            if f == "prev":
                n = r.choice([1, 1, 2, 3])
                return ["prev", k + 1, n], "prev(s%d)" % k if n == 1 and r.random() < .6 else "prev(s%d, %d)" % (k, n)
            return [f, k + 1], "%s(s%d)" % (f, k)
        if x < .75:
            v = r.choice(list(TYPES[self.types[k]])[:3])
            return ["eq", k + 1, v], "s%d = %s" % (k, self.lit(k, v))
        op = r.choice(["and", "or"])
        if x < .9:
            l = self.atom(self.types[k])
            self.feats["expression of two signals"] += 1
            return [op, [["b", k + 1], ["b", l + 1]]], "s%d %s s%d" % (k, op, l)
        l = self.atom()
        v, w = r.choice(list(TYPES[self.types[k]])[:2]), r.choice(list(TYPES[self.types[l]])[:2])
        return [op, [["eq", k + 1, v], ["eq", l + 1, w]]], "s%d = %s %s s%d = %s" % (k, self.lit(k, v), op, l, self.lit(l, w))
    def pb(self):
        """A Boolean in a position where it may need parentheses."""
        a, t = self.boolean()
        return a, t if re.fullmatch(r"s\d", t) else "(" + t + ")"

    # Sequences ------------------------------------------------------------
    def count(self, inf=True):
        r = self.r
        lo = r.randint(1, 3)
        x = r.random()
        if x < .5:
            lo = max(lo, 1)
            return lo, lo, "%d" % lo
        if x < .85 or not inf:
            hi = lo + r.randint(1, 2)
            return lo, hi, "%d to %d" % (lo, hi)
        return lo, -1, "%d to inf" % lo
    def sere(self, depth, mode="any"):
        """mode "det": at most one continuation at every tick; "any": otherwise."""
        r = self.r
        x = r.random()
        if depth == 0 or x < .3:
            return self.pb()
        if x < .6:
            n = r.randint(2, 3)
            l = [self.sere(depth - 1, mode) for _ in range(n)]
            self.feats["concatenation"] += 1
            return ["cat", [a for a, t in l]], "{%s}" % "; ".join(t for a, t in l)
        if x < .7:
            l = [self.sere(depth - 1, mode) for _ in range(2)]
            self.feats["fusion"] += 1
            return ["fus", [a for a, t in l]], "{%s}" % " : ".join(t for a, t in l)
        if x < .85:
            a, t = self.sere(depth - 1, mode) if r.random() < .4 else self.pb()
            self.feats["repetition"] += 1
            y = r.random()
            if mode == "det":
                n = r.randint(1, 3)
                return ["rep", a, n, n], "%s[*%d]" % (t, n)
            if y < .3:
                return ["rep", a, 1, -1], t + "[+]"
            lo, hi, c = self.count()
            return ["rep", a, lo, hi], "%s[*%s]" % (t, c)
        if x < .95:
            a, t = self.pb()
            n = r.randint(1, 3)
            if r.random() < .5 or mode == "det":
                self.feats["goto repetition"] += 1
                return ["goto", a, n, n], "%s[->%d]" % (t, n)
            self.feats["non-consecutive repetition"] += 1
            return ["equ", a, n, n], "%s[=%d]" % (t, n)
        return self.pb()
    def top_sere(self):
        r = self.r
        if r.random() < .2:
            l = [self.braced(*self.sere(2)) for _ in range(2)]
            self.feats["length-matching and"] += 1
            return ["len", l[0][0], l[1][0]], "{%s && %s}" % (l[0][1], l[1][1])
        return self.braced(*self.sere(r.randint(1, 3)))
    def braced(self, a, t):
        return (a, t) if a[0] in ("cat", "fus", "len") else (a, "{%s}" % t)

    # Properties -----------------------------------------------------------
    def prop(self, depth):
        r = self.r
        x = r.random()
        if depth == 0 or x < .12:
            a, t = self.pb()
            return ["bool", a], t
        if x < .3:
            n = r.randint(0, 4)
            a, t = self.prop(depth - 1)
            self.feats["next"] += 1
            if n == 1 and r.random() < .6:
                return ["next", 1, a], "next (%s)" % t
            return ["next", n, a], "next[%d] (%s)" % (n, t)
        if x < .5:
            b, u = self.pb()
            a, t = self.prop(depth - 1)
            self.feats["implication"] += 1
            return ["imp", b, a], "%s -> (%s)" % (u, t)
        if x < .56:
            b, u = self.pb()
            a, t = self.prop(depth - 1)
            self.feats["or of a property"] += 1
            return (["lor", b, a], "%s or (%s)" % (u, t)) if a[0] != "bool" else (["bool", ["or", [b, a[1]]]], "%s or %s" % (u, t)) if False else (a, t)
        if x < .68:
            (a, t), (b, u) = self.pb(), self.pb()
            k, op = r.choice([("until", "until"), ("untilI", "until_")])
            self.feats[op] += 1
            return [k, a, b, False], "%s %s %s" % (t, op, u)
        if x < .78:
            (a, t), (b, u) = self.pb(), self.pb()
            s = r.random() < .3
            k, op = r.choice([("before", "before"), ("beforeI", "before_")])
            self.feats[op + ("!" if s else "")] += 1
            return [k, a, b, s], "%s %s %s" % (t, op.replace("before", "before!") if s else op, u)
        if x < .84:
            a, t = self.braced(*self.sere(2, "det"))
            if a[0] not in ("cat", "fus", "rep", "goto"):
                return ["bool", a], t[1:-1]
            self.feats["sequence as property"] += 1
            return ["seq", a], t
        if x < .94:
            a, t = self.braced(*self.sere(2, "det"))
            p, u = self.prop(depth - 1)
            over = r.random() < .5
            self.feats["suffix implication"] += 1
            return ["over" if over else "non", a, p], "%s %s (%s)" % (t, "|->" if over else "|=>", u)
        if x < .96:
            (a, t), (b, u) = self.pb(), self.pb()
            self.feats["<->"] += 1
            return ["iff", a, b], "%s <-> %s" % (t, u)
        if x < .98:
            a, t = self.prop(depth - 1)
            b, u = self.pb()
            self.feats["sync_abort"] += 1
            return ["abort", a, b], "(%s) sync_abort %s" % (t, u)
        k = self.atom()
        self.feats["eventually!"] += 1
        return ["imp", ["b", k + 1], ["ev", ["inv", k + 1]]], "s%d -> (eventually! (not s%d))" % (k, k)

    def directive(self):
        r = self.r
        x = r.random()
        if x < .35:
            a, t = self.top_sere()
            self.feats["cover"] += 1
            return {"k": "cover", "p": a}, "cover %s report \"C\";" % t
        if x < .45:
            a, t = self.top_sere() if r.random() < .6 else self.pb()
            self.feats["never"] += 1
            return {"k": "never", "p": a}, "assert never %s;" % (t if t[0] != "(" else "{%s}" % t)
        a, t = self.prop(r.randint(1, 3))
        if x < .9:
            self.feats["always"] += 1
            return {"k": "always", "p": a}, "%s always (%s);" % ("assert", t)
        if a[0] == "bool":      # would be a VHDL assertion
            return self.directive()
        self.feats["assert once"] += 1
        return {"k": "assert", "p": a}, "assert %s;" % t

def design(g, dirs):
    """VHDL text and the line of every directive."""
    r = g.r
    clk = r.choice(["rising_edge(clk)", "clk'event and clk = '1'", "clk'delayed(0 ns)'event and clk = '1'"][:2])
    out = ["library ieee; use ieee.std_logic_1164.all;", "entity t is end entity;", "architecture a of t is",
           "  signal clk : std_logic := '0';"]
    for k, t in enumerate(g.types):
        out.append("  signal s%d : %s;" % (k, t))
    out.append("  default clock is %s;" % clk)
    out.append("begin")
    lines = []
    for i, (d, t) in enumerate(dirs):
        out.append("  d%d: %s" % (i, t))
        lines.append(len(out))
    out.append("  process begin")
    for i in range(g.n):
        out.append("    " + " ".join("s%d <= %s;" % (k, g.lit(k, g.sig[k][i])) for k in range(len(g.types))) +
                   " wait for 5 ns; clk <= '1'; wait for 3 ns; clk <= '0'; wait for 2 ns;")
    out += ["    wait;", "  end process;", "end architecture;"]
    return "\n".join(out) + "\n", lines

def observe(text, lines, n):
    r = nvc.simulate(text, run=("--exit-severity=failure",))
    log, end, odd = [set() for _ in range(n)], set(), []
    for m in nvc.messages(r.out):
        if m["line"] in lines and ("PSL assertion" in m["text"] or m["text"] == "C"):
            d = lines.index(m["line"]) + 1
            tm = m["time"]
            k = (tm // 10**6 - 5) // 10 if tm is not None else None
            if tm is not None and tm % (10 * 10**6) == 5 * 10**6 and 0 <= k < n:
                log[k].add(d)
            else:
                end.add(d)
        else:
            odd.append(m["text"])
    return [sorted(x) for x in log], sorted(end), odd, r

def body(c):
    n = c.n(1200, 20000)
    feats = collections.Counter()
    done = 0
    while done < n and c.left() > 0 and len(c.violations) < 3:
        k = min(300, n - done)
        gs = []
        for _ in range(k):
            g = Gen(c.rng)
            dirs = [g.directive() for _ in range(6)]
            gs.append((g, dirs) + design(g, dirs))
        res = list(c.pool.map(lambda x: observe(x[2], x[3], x[0].n), gs))
        cases = [{"n": g.n, "sig": g.sig, "dirs": [d for d, t in dirs], "log": res[i][0], "end": res[i][1]} for i, (g, dirs, _, _) in enumerate(gs)]
        v, tr = tlc.validate("Psl", cases)
        c.count(tr)
        c.traces += k
        done += k
        for i in range(k):
            feats.update(gs[i][0].feats)
            why = v[i]
            if res[i][2] or res[i][3].crashed:
                why = "%s %s" % ("crashed" if res[i][3].crashed else "unexpected message:", res[i][2][:3])
            if why:
                if os.environ.get("PSL_DEBUG"):
                    if "Caught" in res[i][3].out: open("/tmp/pv%d.vhd" % i, "w").write(gs[i][2])
                    for d, t, w in re.findall(r'<<(\d+), (\d+), "(\w+)">>', why)[:1] or [(0, 0, why)]:
                        print((w + " t%s " % t + gs[i][1][int(d) - 1][1]) if d else [l for l in res[i][3].out.splitlines() if "rror" in l or "***" in l or "ssert" in l and "PSL" not in l][:2])
                elif len(c.violations) < 3:
                    print("  rejected: %s" % str(why)[:500])
                    c.violation("case%d" % len(c.violations), {"why": why, "vhdl": gs[i][2], "case": cases[i], "output": res[i][3].out[-3000:]})
        c.sample({"vhdl": gs[0][2], "log": cases[0]["log"]}, 1)
    c.cover["features"] = dict(feats)
    c.assumptions += ["signals change away from the clock edge; one clock per directive",
                      "not generated (known findings): sequences with an empty match, alternatives within an asserted sequence or an antecedent, && within other sequences, eventually! that the current tick could satisfy"]
    def show(text):
        r = nvc.simulate(text)
        return r.out + "\nreports at %s\n" % sorted(set(m["time"] // 10**6 for m in nvc.messages(r.out) if m["time"] is not None))
    known.texts(c, show)

if __name__ == "__main__":
    check.main("C10", body, targets=("libs",))
