#!/usr/bin/env python3
"""C15: what names denote, against Names.tla."""
import os, re, shutil, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, known, nvc, tlc

NAMES = ["a", "b", "c", "d"]
INT, BOOL = "integer", "boolean"

class Gen:
    def __init__(self, r):
        self.r = r
        self.decls, self.regions, self.refs = [], [], []
        self.enums = {}             # type -> selected name usable anywhere it is needed
        self.lines = []
        self.refline = {}           # line -> reference index
        self.n = 0
        self.feats = collections.Counter()
        self.tail = []              # labels: region -> prefix of expanded names
    def out(self, s):
        self.lines.append(s)
        return len(self.lines)
    def new(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)
    def region(self):
        self.regions.append([])
        return len(self.regions)
    def types(self):
        return [INT, BOOL] + list(self.enums)
    def decl(self, reg, n, k, t, p=(), d=0):
        self.decls.append({"id": len(self.decls) + 1, "n": n, "k": k, "t": t, "p": list(p), "d": d})
        self.regions[reg - 1].append(["decl", len(self.decls)])
        return len(self.decls)
    def tname(self, t):
        return self.enums.get(t, t)

    def free(self, reg, n, over, sig=None):
        """May n be declared in region reg?"""
        for it in self.regions[reg - 1]:
            if it[0] == "decl":
                d = self.decls[it[1] - 1]
                if d["n"] == n and (not over or d["k"] not in ("fn", "lit") or [d["p"], d["t"]] == sig):
                    return False
        return True
    def value(self, t, i):
        return str(i) if t == INT else "false" if t == BOOL else self.tname(t) + "'val(0)"
    def add(self, reg, ind, spec=None, chain=None):
        """A random declaration; spec: list collecting bodies for a package body."""
        r = self.r
        x = r.random()
        n = r.choice(NAMES)
        if x < .25:
            if not self.free(reg, n, False): return
            t = INT if r.random() < .8 else BOOL
            i = self.decl(reg, n, "const", t)
            self.out("%sconstant %s : %s := %s;" % (ind, n, t, self.value(t, i)))
            self.feats["constant"] += 1
        elif x < .3:
            if not self.free(reg, n, False): return
            self.decl(reg, n, "sub", INT)
            self.out("%ssubtype %s is integer;" % (ind, n))
            self.feats["subtype"] += 1
        elif x < .45:
            ns = [m for m in NAMES if r.random() < .5 and self.free(reg, m, True, [[], "?"])]
            if not ns: return
            t = self.new("e")
            for m in ns:
                self.decl(reg, m, "lit", t)
            x = self.new("x")
            self.out("%stype %s is (%s, %s);" % (ind, t, ", ".join(ns), x))
            self.enums[t] = t
            if spec is None:
                self.local.append(t)
            self.feats["enumeration"] += 1
        else:
            ps = [r.choice(self.types()) for _ in range(r.choice([0, 1, 1, 1, 2]))]
            t = r.choice([INT, INT, INT, BOOL] + list(self.enums))
            if not self.free(reg, n, True, [ps, t]): return
            d = r.randint(1, len(ps)) if ps and r.random() < .2 else 0
            i = self.decl(reg, n, "fn", t, ps, d)
            head = "function %s%s return %s" % (n, " (%s)" % "; ".join(
                "p%d : %s%s" % (j, self.tname(q), " := " + self.value(q, 0) if j >= len(ps) - d else "") for j, q in enumerate(ps)) if ps else "",
                self.tname(t))
            body = "%s is begin return %s; end function;" % (head, self.value(t, i))
            if spec is not None:
                self.out("%s%s;" % (ind, head))
                spec.append("  " + body)
            else:
                self.out(ind + body)
            self.feats["function" + (" with defaults" if d else "")] += 1
    def use(self, reg, ind):
        r = self.r
        p = r.randrange(self.npk)
        n = "all" if r.random() < .5 else r.choice([self.decls[it[1] - 1]["n"] for it in self.regions[p] if it[0] == "decl"] or ["all"])
        self.regions[reg - 1].append(["use", p + 1, n])
        self.out("%suse work.pk%d.%s;" % (ind, p + 1, n))
        self.feats["use clause"] += 1

    # references -----------------------------------------------------------
    def chain(self, regs):
        return [[g, len(self.regions[g - 1])] for g in regs]
    def expr(self, regs, depth=1):
        r = self.r
        n = r.choice(NAMES)
        x = r.random()
        args, texts = [], []
        if r.random() < .55 and depth >= 0:
            for _ in range(r.choice([1, 1, 2])):
                if depth == 0 or r.random() < .55:
                    t = r.choice(self.types())
                    args.append(["lit", t])
                    texts.append("%s'(%s)" % (self.tname(t), "-7" if t == INT else "true" if t == BOOL else self.tname(t) + "'val(0)"))
                else:
                    e, s = self.expr(regs, depth - 1)
                    args.append(e)
                    texts.append(s)
            self.feats["call"] += 1
        tail = "(%s)" % ", ".join(texts) if texts else ""
        if x < .75:
            return ["name", n, args], n + tail
        cand = [(p + 1, r.choice(["pk%d", "work.pk%d"]) % (p + 1)) for p in range(self.npk)] + [(g, l) for g, l in self.labels if g in regs] * 3
        g, pre = r.choice(cand)
        if not pre.startswith("work") and pre.startswith("pk"):
            pre = "work." + pre
        if g > self.npk:
            g = [h for h in regs if (h, pre) in self.labels][0]
        if self.param.get(g) == n:      # nvc: parameters have no expanded names
            return ["name", n, args], n + tail
        self.feats["selected name" if g <= self.npk else "expanded name"] += 1
        if g > self.npk:
            ls = [l for _, l in self.labels]
            g = 1000 + ls.index(pre)
        return ["sel", g, n, args], pre + "." + n + tail
    def ref(self, regs, ind, decl=False):
        """A reference in a statement or in the initial value of a constant."""
        r = self.r
        t = INT if r.random() < .8 else r.choice([BOOL] + list(self.enums))
        e, s = self.expr(regs)
        k = len(self.refs) + 1
        self.refs.append({"chain": self.chain(regs), "e": e, "t": t, "got": -1})
        v = s if t == INT else "%s'pos(%s)" % (self.tname(t), s)
        if decl:
            self.refline[self.out("%sconstant k%d : integer := %s;" % (ind, k, v))] = k
            self.later.append((k, t))
            self.feats["reference in a declarative part"] += 1
        else:
            self.refline[self.out("%sreport \"R%d \" & integer'image(%s);" % (ind, k, v))] = k

    def decls_of(self, regs, ind, n):
        """A declarative part of region regs[0]."""
        r = self.r
        for _ in range(n):
            x = r.random()
            if x < .55: self.add(regs[0], ind)
            elif x < .75: self.use(regs[0], ind)
            else: self.ref(regs, ind, True)
    def flush(self, ind):
        for k, t in self.later:
            # a removed reference takes the report of its constant with it
            self.refline[self.out("%sreport \"R%d \" & integer'image(k%d);" % (ind, k, k))] = k
        self.later = []

    def seq(self, regs, ind, depth):
        r = self.r
        for _ in range(r.randint(2, 4)):
            if depth > 0 and r.random() < .25:
                g = self.region()
                n = r.choice(NAMES)
                i = self.decl(g, n, "const", INT)
                self.out("%sfor %s in %d to %d loop" % (ind, n, i, i))
                self.seq([g] + regs, ind + "  ", depth - 1)
                self.out("%send loop;" % ind)
                self.feats["loop parameter"] += 1
            else:
                self.ref(regs, ind)
    def conc(self, regs, ind, depth):
        r = self.r
        outer = [l for g, l in self.labels if g in regs and l[0] == "l"]
        n = r.randint(1, 3)
        for _ in range(n):
            x = r.random()
            g = self.region()
            # an only statement may have the label of one around it
            l = r.choice(outer) if n == 1 and outer and r.random() < .6 else self.new("l")
            keep = self.later, list(self.local)
            self.later = []
            if x < .3 and depth > 0:
                self.out("%s%s : block" % (ind, l))
                if l in outer: self.feats["label hidden by an inner one"] += 1
                self.labels.append((g, l))
                self.decls_of([g] + regs, ind + "  ", r.randint(1, 5))
                self.out("%sbegin" % ind)
                if self.later:
                    self.out("%s  process begin" % ind)
                    self.flush(ind + "    ")
                    self.out("%s    wait; end process;" % ind)
                self.conc([g] + regs, ind + "  ", depth - 1)
                self.out("%send block;" % ind)
                self.feats["block"] += 1
            elif x < .45 and depth > 0:
                n = r.choice(NAMES)
                i = self.decl(g, n, "const", INT)
                self.out("%s%s : for %s in %d to %d generate" % (ind, self.new("g"), n, i, i))
                self.conc([g] + regs, ind + "  ", depth - 1)
                self.out("%send generate;" % ind)
                self.feats["generate parameter"] += 1
            else:
                self.out("%s%s : process" % (ind, l))
                self.labels.append((g, l))
                self.decls_of([g] + regs, ind + "  ", r.randint(0, 4))
                sub = None
                if r.random() < .5:
                    h = self.region()
                    f = self.new("f")
                    late, self.later = self.later, []
                    n = r.choice(NAMES)
                    i = self.decl(h, n, "const", INT)
                    self.out("%s  procedure %s (%s : integer := %d) is" % (ind, f, n, i))
                    self.labels.append((h, f))
                    self.param[h] = n
                    kl = list(self.local)
                    self.decls_of([h, g] + regs, ind + "    ", r.randint(0, 4))
                    self.out("%s  begin" % ind)
                    self.flush(ind + "    ")
                    self.seq([h, g] + regs, ind + "    ", 1)
                    self.out("%s  end procedure;" % ind)
                    self.drop(kl)
                    self.later = late
                    self.feats["subprogram"] += 1
                    sub = f
                    self.decls_of([g] + regs, ind + "  ", r.randint(0, 2))
                self.out("%sbegin" % ind)
                self.flush(ind + "  ")
                self.seq([g] + regs, ind + "  ", 1)
                if sub: self.out("%s  %s;" % (ind, sub))
                self.out("%s  wait;" % ind)
                self.out("%send process;" % ind)
                self.feats["process"] += 1
            self.later = keep[0]
            self.drop(keep[1])
    def drop(self, keep):
        for t in [t for t in self.local if t not in keep]:
            del self.enums[t]
        self.local = list(keep)

    def regionlabels(self):
        ls, d = [l for _, l in self.labels], dict(self.labels)
        return [1000 + ls.index(d[g]) if g in d else g for g in range(1, len(self.regions) + 1)]

    def design(self):
        r = self.r
        self.labels, self.later, self.local, self.param = [], [], [], {}
        self.npk = r.randint(2, 4)
        for p in range(self.npk):
            self.region()
        for p in range(self.npk):
            spec = ["pk%d" % (p + 1)]
            self.out("package pk%d is" % (p + 1))
            for _ in range(r.randint(2, 6)):
                self.add(p + 1, "  ", spec)
            self.out("end package;")
            if spec[1:]:
                self.out("package body pk%d is" % (p + 1))
                for s in spec[1:]: self.out(s)
                self.out("end package body;")
            for t in self.enums:
                if "." not in self.enums[t]: self.enums[t] = "work.pk%d.%s" % (p + 1, t)
        ctx, ent = self.region(), self.region()
        for _ in range(r.randint(0, 2)):
            self.use(ctx, "")
        self.out("entity t is")
        regs = [ent, ctx]
        self.decls_of(regs, "  ", r.randint(0, 2))
        ke = self.later; self.later = []
        self.out("end entity;")
        ctx2 = self.region()
        for _ in range(r.randint(0, 1)):
            self.use(ctx2, "")
        self.out("architecture ar of t is")
        # the architecture extends the declarative region of the entity; its own context clause is nearer
        regs = [ent, ctx2, ctx]
        self.decls_of(regs, "  ", r.randint(0, 5))
        self.later = ke + self.later
        self.out("begin")
        if self.later:
            self.out("  process begin")
            self.flush("    ")
            self.out("    wait; end process;")
        self.conc(regs, "  ", 2)
        self.out("end architecture;")

def observe(g):
    """Analyse, remove the lines of rejected references, repeat; then run."""
    removed, odd = set(), None
    for _ in range(len(g.refs) + 2):
        d = nvc.scratch()
        try:
            with open(os.path.join(d, "t.vhd"), "w") as f:
                for n, l in enumerate(g.lines, 1):
                    f.write(("" if g.refline.get(n) in removed else l) + "\n")
            r = nvc.cmd(["--std=2008", "--messages=compact", "-a", "--error-limit=0", "t.vhd"], d, 60)
            if r.rc == 0:
                r = nvc.cmd(["--std=2008", "--messages=compact", "-e", "--jit", "--no-save", "t", "-r", "t"], d, 60)
                break
        finally:
            shutil.rmtree(d, ignore_errors=True)
        bad = set()
        for m in nvc.messages(r.out):
            if m["sev"] in ("error", "fatal"):
                k = g.refline.get(m["line"])
                if k is None and "analysed with errors" in m["text"]:
                    pass
                elif k is None:
                    odd = "error elsewhere: %s" % m
                else:
                    bad.add(k)
        if r.crashed or odd or not bad - removed:
            return removed, {}, odd or "analysis failed: rc %s" % r.rc, r
        removed.add(min(bad - removed, key=lambda k: min(l for l, q in g.refline.items() if q == k)))
    got = {}
    for m in nvc.messages(r.out):
        x = re.match(r"R(\d+) (-?\d+)$", m["text"])
        if x: got[int(x[1])] = int(x[2])
        else: odd = "unexpected message %s" % m
    if r.crashed or r.rc: odd = odd or "run failed: rc %s" % r.rc
    return removed, got, odd, r

def one(seed):
    import random
    g = Gen(random.Random(seed))
    g.design()
    removed, got, odd, r = observe(g)
    for k, ref in enumerate(g.refs, 1):
        if k in removed:
            ref["got"] = 0
        elif k in got:
            ref["val"] = got[k]
            ref["got"] = got[k] if ref["t"] == INT else -2
        else:
            odd = odd or "reference %d was not executed" % k
    return g, odd, r

def observe_text(text):
    return nvc.simulate(text, "t", "jit").out

def body(c):
    known.texts(c, observe_text)
    n = c.n(250, 6000)
    feats, verd = collections.Counter(), collections.Counter()
    done = 0
    while done < n and c.left() > 0 and len(c.violations) < 3:
        k = min(300, n - done)
        seeds = [c.rng.getrandbits(48) for _ in range(k)]
        res = list(c.pool.map(one, seeds))
        cases = []
        for g, odd, r in res:
            cases.append({"labels": g.regionlabels(), "decls": g.decls, "regions": g.regions, "refs": [{x: ref[x] for x in ("chain", "e", "t", "got")} for ref in g.refs]})
        v, tr = tlc.validate("Names", cases)
        c.count(tr)
        c.traces += k
        done += k
        for i, (g, odd, r) in enumerate(res):
            feats.update(g.feats)
            why = odd
            if v[i] and not odd:
                for x in re.findall(r"<<(\d+), (-?\d+), (-?\d+)>>", v[i]):
                    kk, want, got = map(int, x)
                    ref = g.refs[kk - 1]
                    if got == -2 and want != 0:
                        continue        # type given by the context: only acceptance is observed
                    line = [l for l, q in g.refline.items() if q == kk][0]
                    why = "%s\n  line %d: %s\n  spec: %s, nvc: %s" % (why or "", line, g.lines[line - 1].strip(),
                          g.decls[want - 1] if want else "rejected", g.decls[got - 1] if got > 0 else "rejected" if got == 0 else "accepted")
                    if os.environ.get("NAMES_DEBUG"): break
            for ref in g.refs:
                verd["rejected" if ref["got"] == 0 else "accepted"] += 1
            if why and os.environ.get("NAMES_DEBUG"):
                with open("/tmp/nm%d.vhd" % i, "w") as f: f.write("\n".join(g.lines) + "\n")
                print(i, why[:700])
            elif why and len(c.violations) < 3:
                print("  rejected: %s" % why[:600])
                c.violation("case%d" % len(c.violations), {"why": why, "vhdl": "\n".join(g.lines), "case": cases[i], "output": r.out[-3000:]})
        c.sample({"vhdl": "\n".join(res[0][0].lines), "denotes": [x["got"] for x in res[0][0].refs]}, 1)
    c.cover["features"], c.cover["references"] = dict(feats), dict(verd)

if __name__ == "__main__":
    check.main("C15", body, targets=("libs",))
