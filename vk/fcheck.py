"""Programs that evaluate items and report their values; validated against a module extending FnTrace."""
import collections, re
from . import nvc, tlc, seqcheck

OUT = re.compile(r"F (\d+) (.*)$")

class Items:
    """The items of one program.  Each is evaluated with its operands as literals, variables or parameters."""
    def __init__(self, r):
        self.r, self.items, self.kinds, self.subs, self.vars, self.stmts, self.feats = r, [], [], [], [], [], collections.Counter()
        self.extra = []
    def add(self, rec, expr, ops=(), kind="i", form=None):
        """rec: item for the specification; expr: VHDL with {0} {1} for the operands ops = [(literal, subtype)];
        kind: i (integer expression), s (string), or the name of a function from the value to a string."""
        r = self.r
        n = len(self.items) + 1
        rec = dict({"t": 1, "a": [], "n": 1, "f": "", "b": [], "base": 10, "exp": 0, "sign": 1}, **rec)
        self.items.append(rec)
        self.kinds.append("s" if kind == "s" else "i")
        form = form or r.choice(["lit", "var", "call"])
        self.feats[rec["op"] + (" " + rec["f"] if rec["f"] else "")] += 1
        names = ["x%d_%d" % (n, i) for i in range(len(ops))]
        out = lambda e: 'report "F %d " & %s;' % (n, {"i": "integer'image(%s)" % e, "s": '"|" & %s & "|"' % e}.get(kind, "%s(%s)" % (kind, e)))
        if not ops or form == "lit":
            self.stmts.append(out(expr.format(*["%s'(%s)" % (s, l) for l, s in ops])))
        elif form == "var":
            for x, (l, s) in zip(names, ops):
                self.vars.append("variable %s : %s := %s;" % (x, "string(1 to %d)" % (len(l.replace("\"\"", "\"")) - (1 if l == "\"\"" else 2)) if s == "string" else s, l))
            self.stmts.append(out(expr.format(*names)))
        else:
            self.extra.append("procedure pr%d (%s) is begin %s end;" % (n, "; ".join("%s : %s" % (x, s) for x, (l, s) in zip(names, ops)), out(expr.format(*names))))
            self.stmts.append("pr%d(%s);" % (n, ", ".join(l for l, s in ops)))
    def process(self):
        return "  process\n" + "".join("    %s\n" % x for x in self.subs + self.extra + self.vars) + "  begin\n" + \
               "".join("    %s\n" % x for x in self.stmts) + "    wait;\n  end process;\n"

def observe(vhdl, kinds, mode, **kw):
    m = dict(seqcheck.MODES[mode])
    m.update(kw)
    r = nvc.simulate(vhdl, timeout=120, **m)
    obs = [[] if k == "i" else "<none>" for k in kinds]
    for x in nvc.messages(r.out):
        y = OUT.match(x["text"]) if x["sev"] == "note" else None
        if y:
            i = int(y[1]) - 1
            obs[i] = [int(v) for v in y[2].split()] if kinds[i] == "i" else y[2].strip()[1:-1]
    return obs, r

def run(check, gen, n, modes, module, value, batch=32, max_violations=3, hook=None, **kw):
    """gen(rng, i) -> (case, kinds, vhdl, feats)"""
    feat = collections.Counter()
    done = items = 0
    while done < n and check.left() > 0 and len(check.violations) < max_violations:
        k = min(batch, n - done)
        progs = [gen(check.rng, done + i) for i in range(k)]
        jobs = [(i, m) for i in range(k) for m in modes[(done + i) % len(modes)]]
        res = list(check.pool.map(lambda j: observe(progs[j[0]][2], progs[j[0]][1], j[1], **kw), jobs))
        groups = collections.OrderedDict()
        for (i, m), (obs, r) in zip(jobs, res):
            feat["mode " + m] += 1
            groups.setdefault((i, repr(obs)), (i, obs, r, []))[3].append(m)
            check.traces += 1
        for i in range(k):
            feat.update(progs[i][3])
        gl = list(groups.values())
        cases = [dict(progs[i][0], obs=obs) for i, obs, r, ms in gl]
        items += sum(len(c["items"]) for c in cases)
        verdicts, tr = tlc.validate(module, cases, constants="CONSTANT Value <- %s\n" % value)
        check.count(tr)
        done += k
        for j, why in sorted(verdicts.items()):
            i, obs, r, ms = gl[j]
            if why is None and r.rc != 0:
                why = "exit status %d" % r.rc
            if why and len(check.violations) < max_violations:
                obs2, r2 = observe(progs[i][2], progs[i][1], ms[0], **kw)
                if obs2 != obs:
                    print("  not reproducible in", ms[0])
                print("  rejected (%s): %s" % (ms, str(why)[:500]))
                print("   ", r.out[-400:].replace("\n", "\n    ") if "<none>" in str(why) or "observed\", <<>>" in str(why) else "")
                check.violation("case%d" % len(check.violations), {"modes": ms, "why": why, "vhdl": progs[i][2], "case": cases[j], "output": r.out[-3000:]})
        if gl:
            check.sample({"modes": gl[0][3], "items": cases[0]["items"][:3], "observed": cases[0]["obs"][:3]}, 2)
    check.cover["features"] = dict(feat)
    check.cover["items_judged"] = check.cover.get("items_judged", 0) + items
    check.cover["programs"] = check.cover.get("programs", 0) + done
    return done
