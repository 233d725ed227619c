#!/usr/bin/env python3
"""C16: elaboration of hierarchies."""
import json, os, re, sys, shutil, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, known, nvc, tlc

class Gen:
    def __init__(self, r):
        self.r = r
        self.std = r.choice([2008, 2008, 2019])
        self.feats = collections.Counter()
        self.n = r.randint(2, 4)                     # entities e1 .. en; e1 is the top
        self.lbl = 0
        self.ents, self.comps, self.cfgs = {}, {}, {}
        self.size = 0
        for i in range(1, self.n + 1):
            gens = [["g%d" % j, ["n", r.randint(-1, 4)]] for j in range(1, r.randint(1, 3) + 1)]
            self.ents["e%d" % i] = {"gens": gens, "archs": {}, "last": ""}
        for i in range(2, self.n + 1):
            if r.random() < .8:                      # same name: default binding
                g = [x for x in self.ents["e%d" % i]["gens"] if r.random() < .75]
                r.shuffle(g)
                self.comps["e%d" % i] = {"gens": [[x[0], ["n", r.randint(-1, 4)]] for x in g]}
            if r.random() < .5:
                self.comps["c%d" % i] = {"gens": [["g%d" % j, ["n", r.randint(-1, 4)]] for j in range(1, r.randint(0, 2) + 1)]
                                         + ([["q", ["n", r.randint(0, 3)]]] if r.random() < .5 else [])}
        self.order = []
        self.text = {}
        for i in range(self.n, 0, -1):
            e = "e%d" % i
            for a in (["a1", "a2"] if r.random() < .5 else ["a1"]):
                self.budget = r.choice([3, 5, 8])
                names = [g[0] for g in self.ents[e]["gens"]]
                body, text = self.body(i, names, r.randint(1, 2), "  ")
                self.ents[e]["archs"][a] = body
                self.ents[e]["last"] = a
                self.text[e, a] = text
            if r.random() < (.7 if i == 1 else .4):
                self.config(e, "f%d" % i)

    def label(self, p):
        self.lbl += 1
        return "%s%d" % (p, self.lbl)

    def expr(self, names, d=1):
        r = self.r
        x = r.random()
        if names and x < .5:
            n = r.choice(names)
            return ["v", n], n
        if d == 0 or x < .65:
            n = r.randint(-1, 4)
            return ["n", n], str(n) if n >= 0 else "(%d)" % n
        (a, s), (b, t) = self.expr(names, d - 1), self.expr(names, d - 1)
        if x < .78: return ["+", a, b], "(%s + %s)" % (s, t)
        if x < .86: return ["-", a, b], "(%s - %s)" % (s, t)
        if x < .92: return ["mod", a, 3], "(%s mod 3)" % s
        if x < .96: return ["f", ["mod", a, 5]], "pf(%s mod 5)" % s
        return ["*", ["mod", a, 4], ["mod", b, 4]], "((%s mod 4) * (%s mod 4))" % (s, t)

    def cond(self, names, d=1):
        r = self.r
        x = r.random()
        if d and x < .3:
            (a, s), (b, t) = self.cond(names, 0), self.cond(names, 0)
            if x < .1: return ["not", a], "not (%s)" % s
            o = "and" if x < .2 else "or"
            return [o, a, b], "(%s) %s (%s)" % (s, o, t)
        (a, s), (b, t) = self.expr(names), self.expr(names, 0)
        return [["<", a, b], "%s < %s" % (s, t)] if r.random() < .5 else [["=", a, b], "%s = %s" % (s, t)]

    def gmap(self, gens, names, ind, allopen=True):
        """A generic map: (normalised, text)."""
        r = self.r
        if not gens or r.random() < .2:
            return [], ""
        out, text = [], []
        pos = r.random() < .5
        gs = list(gens)
        if not pos:
            r.shuffle(gs)
        cut = r.randint(1, len(gs))
        for k, g in enumerate(gs[:cut]):
            if r.random() < .1 and not pos:
                text.append("%s => open" % g[0]); continue
            e, t = self.expr(names)
            out.append([g[0], e])
            if pos and r.random() < .3:
                pos = False
            text.append(t if pos else "%s => %s" % (g[0], t))
        return out, " generic map (%s)" % ", ".join(text)

    def binding(self, i, comp, names, cgens):
        """A binding for a component somewhere below entity i."""
        r = self.r
        x = r.random()
        cfgs = [c for c in self.cfgs if int(c[1:]) > i]
        if x < .1:
            self.feats["use open"] += 1
            return {"kind": "open", "ent": "", "arch": "", "hasmap": False, "gmap": [], "cfg": ""}, "use open"
        if cfgs and x < .3:
            c = r.choice(cfgs)
            ent = self.cfgs[c]["ent"]
            b = {"kind": "config", "ent": "", "arch": "", "hasmap": False, "gmap": [], "cfg": c}
            t = "use configuration work.%s" % c
            self.feats["bound to a configuration"] += 1
        else:
            ent = "e%d" % r.randint(i + 1, self.n)
            arch = r.choice(list(self.ents[ent]["archs"])) if r.random() < .7 else ""
            b = {"kind": "entity", "ent": ent, "arch": arch, "hasmap": False, "gmap": [], "cfg": ""}
            t = "use entity work.%s%s" % (ent, "(%s)" % arch if arch else "")
        egens = [g[0] for g in self.ents[ent]["gens"]]
        if any(g not in egens for g in cgens) or r.random() < .4:
            g, s = self.gmap(self.ents[ent]["gens"], list(cgens), 0)
            if s:
                b["hasmap"], b["gmap"] = True, g
                self.feats["generic map in binding"] += 1
                t += s
            elif any(g not in egens for g in cgens):
                # every generic of the component must have a formal
                b["hasmap"], b["gmap"] = True, [[egens[0], ["n", 1]]]
                t += " generic map (%s => 1)" % egens[0]
        return b, t

    def body(self, i, names, depth, ind, gen=False):
        """Statements of a scope of entity i: (record, text of declarations, text of statements)."""
        r = self.r
        k, kt = self.expr(names, 2)
        stmts, st, insts = [], [], []
        for _ in range(r.randint(0 if depth < 2 else 1, 3)):
            if self.budget <= 0: break
            self.budget -= 1
            x = r.random()
            if x < .5 or depth == 0:
                if i == self.n: continue
                l = self.label("u")
                y = r.random()
                comps = [c for c in self.comps if int(c[1:]) > i]
                cfgs = [c for c in self.cfgs if int(c[1:]) > i]
                if y < .3 or not comps and y < .9:
                    e = "e%d" % r.randint(i + 1, self.n)
                    a = r.choice(list(self.ents[e]["archs"])) if r.random() < .5 else ""
                    g, t = self.gmap(self.ents[e]["gens"], names, ind)
                    stmts.append({"t": "inst", "label": l, "kind": "entity", "ent": e, "arch": a, "gmap": g})
                    st.append("%s%s : entity work.%s%s%s;" % (ind, l, e, "(%s)" % a if a else "", t))
                    self.feats["direct instantiation"] += 1
                elif y < .4 and cfgs:
                    c = r.choice(cfgs)
                    g, t = self.gmap(self.ents[self.cfgs[c]["ent"]]["gens"], names, ind)
                    stmts.append({"t": "inst", "label": l, "kind": "config", "ent": c, "arch": "", "gmap": g})
                    st.append("%s%s : configuration work.%s%s;" % (ind, l, c, t))
                    self.feats["configuration instantiation"] += 1
                elif comps:
                    c = r.choice(comps)
                    g, t = self.gmap(self.comps[c]["gens"], names, ind)
                    stmts.append({"t": "inst", "label": l, "kind": "component", "ent": c, "arch": "", "gmap": g})
                    st.append("%s%s : %s%s%s;" % (ind, l, "component " if r.random() < .5 else "", c, t))
                    insts.append((l, c))
                    self.feats["component"] += 1
            elif x < .68:
                l, v = self.label("fg"), "i%d" % self.lbl
                a, at = self.expr(names, 1)
                w = r.randint(-1, 2)
                lo, hi = ["mod", a, 3], ["+", ["mod", a, 3], ["n", w]]
                lt, ht = "(%s mod 3)" % at, "(%s mod 3) + (%d)" % (at, w)
                b, t = self.body(i, names + [v], depth - 1, ind + "  ", True)
                stmts.append({"t": "for", "label": l, "var": v, "lo": lo, "hi": hi, "body": b})
                rng = "%s to %s" % (lt, ht) if r.random() < .6 else "%s downto %s" % (ht, lt)
                st.append("%s%s : for %s in %s generate\n%s%send generate;" % (ind, l, v, rng, t, ind))
                self.feats["for generate"] += 1
            elif x < .82:
                l = self.label("h")
                alts, t = [], []
                for q in range(r.randint(1, 3) if self.std >= 2008 else 1):
                    c, ct = self.cond(names)
                    b, bt = self.body(i, names, depth - 1, ind + "  ", True)
                    alts.append({"cond": c, "body": b})
                    t.append("%s %s generate\n%s" % ("if" if q == 0 else ind + "elsif", ct, bt))
                if self.std >= 2008 and r.random() < .5:
                    b, bt = self.body(i, names, depth - 1, ind + "  ", True)
                    alts.append({"cond": ["true"], "body": b})
                    t.append("%selse generate\n%s" % (ind, bt))
                stmts.append({"t": "if", "label": l, "alts": alts})
                st.append("%s%s : %s%send generate;" % (ind, l, "".join(t), ind))
                self.feats["if generate"] += 1
            elif x < .9 and self.std >= 2008:
                l = self.label("k")
                e, et = self.expr(names)
                vals = r.sample(range(5), r.randint(1, 4))
                alts, t = [], []
                while vals:
                    take = [vals.pop() for _ in range(min(len(vals), r.randint(1, 2)))]
                    b, bt = self.body(i, names, depth - 1, ind + "  ", True)
                    ch = [[v, v] for v in take]
                    alts.append({"choices": ch, "body": b})
                    t.append("%swhen %s =>\n%s" % (ind, " | ".join("%d" % v for v in take), bt))
                b, bt = self.body(i, names, depth - 1, ind + "  ", True)
                alts.append({"choices": [], "body": b})
                t.append("%swhen others =>\n%s" % (ind, bt))
                stmts.append({"t": "case", "label": l, "expr": ["mod", e, 5], "alts": alts})
                st.append("%s%s : case (%s) mod 5 generate\n%s%send generate;" % (ind, l, et, "".join(t), ind))
                self.feats["case generate"] += 1
            else:
                l = self.label("b")
                gens, gm, gt, hdr = [], [], "", ""
                if r.random() < .6:
                    gens = [["z%d" % self.lbl, ["n", r.randint(0, 3)]]]
                    gm, gt = self.gmap(gens, names, ind)
                    hdr = "%s  generic (%s : integer := %d);\n" % (ind, gens[0][0], gens[0][1][1]) + ("%s %s;\n" % (ind, gt) if gt else "")
                b, t = self.body(i, names + [g[0] for g in gens], depth - 1, ind + "  ")
                stmts.append({"t": "block", "label": l, "gens": gens, "gmap": gm, "body": b})
                st.append("%s%s : block\n%s%s%send block;" % (ind, l, hdr, t, ind))
                self.feats["block"] += 1
        specs, decl = [], []
        for comp in sorted({c for l, c in insts}):
            ls = [l for l, c in insts if c == comp]
            x = r.random()
            need = comp[0] == "c"
            if x < (.5 if need else .35):
                b, t = self.binding(i, comp, names, [g[0] for g in self.comps[comp]["gens"]])
                specs.append({"comp": comp, "sel": ["all", []], "bind": b})
                decl.append("%sfor all : %s %s;" % (ind, comp, t))
            elif x < (.8 if need else .6):
                some = [l for l in ls if r.random() < .6] or ls[:1]
                b, t = self.binding(i, comp, names, [g[0] for g in self.comps[comp]["gens"]])
                specs.append({"comp": comp, "sel": ["named", some], "bind": b})
                decl.append("%sfor %s : %s %s;" % (ind, ", ".join(some), comp, t))
                if r.random() < .6 and len(some) < len(ls):
                    b, t = self.binding(i, comp, names, [g[0] for g in self.comps[comp]["gens"]])
                    specs.append({"comp": comp, "sel": ["others", []], "bind": b})
                    decl.append("%sfor others : %s %s;" % (ind, comp, t))
                    self.feats["for others"] += 1
            else:
                continue
            self.feats["configuration specification"] += 1
        text = "%sconstant kk : integer := %s;\n" % (ind, kt) + "".join(d + "\n" for d in decl)
        text += ind[:-2] + "begin\n"
        text += '%spp : process begin report kk\'instance_name & " " & integer\'image(kk); wait; end process;\n' % ind
        text += "".join(s + "\n" for s in st)
        if gen and self.std >= 2008 and False:
            text += ind[:-2] + "end;\n"
        return {"k": k, "stmts": stmts, "specs": specs}, text

    # configuration declarations
    def items(self, i, body, depth, ind):
        r = self.r
        out, text = [], []
        insts = [(s["label"], s["ent"]) for s in body["stmts"] if s["t"] == "inst" and s["kind"] == "component"]
        specced = [s["comp"] for s in body["specs"]]
        for comp in sorted({c for l, c in insts}):
            if comp in specced: continue
            ls = [l for l, c in insts if c == comp]
            if r.random() < .2: continue
            some = [l for l in ls if r.random() < .7] or ls[:1]
            sels = [(["all", []], "all")] if r.random() < .4 else [(["named", some], ", ".join(some))]
            if sels[0][1] != "all" and len(some) < len(ls) and r.random() < .6:
                sels.append((["others", []], "others"))
                self.feats["others in a configuration"] += 1
            for sel, st in sels:
                b, t = self.binding(i, comp, [], [g[0] for g in self.comps[comp]["gens"]])
                sub, subt = [], ""
                if b["kind"] == "entity" and depth > 0 and r.random() < .6:
                    e = self.ents[b["ent"]]
                    arch = b["arch"] or e["last"]
                    sub, s = self.items(int(b["ent"][1:]), e["archs"][arch], depth - 1, ind + "    ")
                    subt = "%s  for %s\n%s%s  end for;\n" % (ind, arch, s, ind)
                    self.feats["nested block configuration"] += 1
                out.append({"t": "comp", "comp": comp, "sel": sel, "bind": b, "items": sub})
                text.append("%sfor %s : %s\n%s  %s;\n%s%send for;\n" % (ind, st, comp, ind, t, subt, ind))
                self.feats["component configuration"] += 1
        for s in body["stmts"]:
            if s["t"] in ("for", "if", "block") and r.random() < .7:
                if s["t"] == "if" and (len(s["alts"]) > 1 or '"v"' not in json.dumps(s["alts"][0]["cond"])): continue   # known finding removed-generate
                inner = s["alts"][0]["body"] if s["t"] == "if" else s["body"]
                idx, it = [], ""
                if s["t"] == "for" and r.random() < .3:
                    lo = r.randint(0, 2)
                    idx = [lo, lo + r.randint(0, 2)]
                    it = "(%d to %d)" % tuple(idx) if idx[0] != idx[1] or r.random() < .3 else "(%d)" % idx[0]
                    continue    # whether the indices exist depends on the generics
                sub, t = self.items(i, inner, depth, ind + "  ")
                if not sub: continue
                out.append({"t": "scope", "label": s["label"], "idx": idx, "items": sub})
                text.append("%sfor %s%s\n%s%send for;\n" % (ind, s["label"], it, t, ind))
                self.feats["generate or block configuration"] += 1
        return out, "".join(text)

    def config(self, e, name):
        r = self.r
        arch = r.choice(list(self.ents[e]["archs"]))
        items, t = self.items(int(e[1:]), self.ents[e]["archs"][arch], 2, "    ")
        self.cfgs[name] = {"ent": e, "arch": arch, "items": items}
        self.text[name] = "configuration %s of %s is\n  for %s\n%s  end for;\nend configuration;\n" % (name, e, arch, t)

    def program(self):
        r = self.r
        out = ["package pk is\n  function pf (x : integer) return integer;\n"]
        for c, d in self.comps.items():
            g = "; ".join("%s : integer := %d" % (x[0], x[1][1]) for x in d["gens"])
            out.append("  component %s is%s\n  end component;\n" % (c, " generic (%s);" % g if g else ""))
        out.append("end package;\npackage body pk is\n  function pf (x : integer) return integer is begin\n"
                   "    if x > 2 then return x - 2; end if;\n    return 2 * x + 1;\n  end function;\nend package body;\n")
        for i in range(self.n, 0, -1):
            e = "e%d" % i
            g = "; ".join("%s : integer := %d" % (x[0], x[1][1]) for x in self.ents[e]["gens"])
            out.append("entity %s is\n  generic (%s);\nend entity;\n" % (e, g))
            for a in self.ents[e]["archs"]:
                out.append("use work.pk.all;\narchitecture %s of %s is\n%send architecture;\n" % (a, e, self.text[e, a]))
            if "f%d" % i in self.cfgs:
                out.append("use work.pk.all;\n" + self.text["f%d" % i])
        over, opts = [], []
        for g in self.ents["e1"]["gens"]:
            if r.random() < .3:
                v = r.randint(-1, 4)
                over.append([g[0], v]); opts.append("-g%s=%d" % (r.choice([g[0], g[0].upper()]), v))
                self.feats["override"] += 1
        topcfg = "f1" if "f1" in self.cfgs else ""
        top = topcfg or "e1"
        toparch = ""
        if not topcfg and r.random() < .3:
            toparch = r.choice(list(self.ents["e1"]["archs"]))
            top = "e1-" + toparch
        case = {"ents": self.ents, "comps": self.comps or {"none": {"gens": []}}, "cfgs": self.cfgs or {"none": {"ent": "", "arch": "", "items": []}},
                "top": "e1", "topcfg": topcfg, "toparch": toparch, "over": over}
        return case, "".join(out), top, opts

def observe(g, vhdl, top, opts, mode):
    r = nvc.simulate(vhdl, top=top, mode=mode, glob=["--std=%d" % g.std], elab=opts, timeout=60)
    log, odd = [], []
    for m in nvc.messages(r.out):
        mm = re.match(r"(:\S*):kk (-?\d+)$", m["text"])
        if mm and m["sev"] == "note":
            log.append([mm[1], int(mm[2])])
        elif m["sev"] != "note" and "without binding indication" not in m["text"]:
            odd.append(m["text"])
    return log, odd, r

def body(c):
    n = c.n(800, 20000)
    feat = collections.Counter()
    done = 0
    while done < n and c.left() > 0 and len(c.violations) < 3:
        gs, progs = [], []
        while len(gs) < min(200, n - done):
            g = Gen(c.rng)
            gs.append(g)
            progs.append(g.program())
        k = len(gs)
        modes = [c.rng.choice(["jit"] * 5 + ["aot"]) for _ in range(k)]
        res = list(c.pool.map(lambda i: observe(gs[i], *progs[i][1:], modes[i]), range(k)))
        cases = [dict(progs[i][0], log=res[i][0], rc=res[i][2].rc) for i in range(k)]
        v, tr = tlc.validate("Elab", cases)
        c.count(tr)
        c.traces += k
        done += k
        for i in range(k):
            feat.update(gs[i].feats)
            feat["scopes"] += len(res[i][0])
            why = v[i]
            if res[i][1]:
                why = "unexpected message: %s" % res[i][1][:3]
            if res[i][2].crashed:
                why = "crashed"
            if why and len(c.violations) < 3:
                print("  rejected: %s" % str(why)[:700])
                c.violation("case%d" % len(c.violations), {"why": why, "vhdl": progs[i][1], "std": gs[i].std, "top": progs[i][2], "opts": progs[i][3],
                            "mode": modes[i], "output": res[i][2].out[-3000:], "case": cases[i]})
        c.sample({"top": progs[0][2], "opts": progs[0][3], "log": res[0][0][:12]}, 2)
    c.cover["features"] = dict(feat)
    known.texts(c, lambda t: nvc.simulate(t, top="cfg", mode="jit").out)
    c.assumptions += ["block configurations with an index are not generated (known finding indexed-config), nor of a generate with a constant condition (removed-generate), nor alternative labels",
                      "an architecture that is not named is the last one in the file"]

if __name__ == "__main__":
    check.main("C16", body, targets=("libs", "libs19"))
