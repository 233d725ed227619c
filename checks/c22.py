#!/usr/bin/env python3
"""C22: conditional analysis directives."""
import os, re, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, nvc, tlc

def codes(s):
    return [ord(c) for c in s]

NAMES = ["FOO", "BAR", "X1", "a_b", "Debug", "z"]
VALUES = ["", "0", "1", "10", "2", "abc", "ABC", "abd", "a b", "true"]

def anycase(r, s):
    return r.choice([s, s.upper(), s.lower(), "".join(r.choice([c.upper(), c.lower()]) for c in s)])

def gen(r):
    feats = collections.Counter()
    std = r.choice([2008, 2019])
    cmd = [(n, r.choice(VALUES)) for n in r.sample(NAMES, r.randint(1, 4))]
    if r.random() < .15:
        cmd.append((cmd[0][0], r.choice(VALUES))); feats["redefined"] += 1
    defs = [("TOOL_TYPE", "SIMULATION"), ("TOOL_NAME", "nvc"), ("VHDL_VERSION", str(std))] + cmd
    bad = r.random() < .25
    elsif = [False]
    known = [n for n, v in defs]
    def rel(unsel):
        n = r.choice(known)
        if unsel and r.random() < .3 or bad and not elsif[0] and r.random() < .05:
            n = "UNDEFINED"; feats["undefined identifier"] += 1
        v = dict(defs).get(n, "")
        s = v if r.random() < .6 else r.choice(VALUES + ["SIMULATION", "SYNTHESIS", "2008", "2019", "NVC"])
        op = r.choice(["=", "=", "=", "/=", "/=", "<", "<=", ">", ">="])
        feats["relation " + op] += 1
        sp = r.choice([" ", " ", "", "  "])
        return ["rel", codes(n), op, codes(s)], "%s%s%s%s\"%s\"" % (anycase(r, n), sp or " ", op, sp, s)
    def expr(depth, unsel):
        x = r.random()
        if depth == 0 or x < .5:
            return rel(unsel)
        def operand():
            y = r.random()
            if y < .6:
                return rel(unsel)
            e, t = expr(depth - 1, unsel)
            if y < .75:
                feats["not"] += 1
                return ["not", e], "not (%s)" % t
            return e, "(%s)" % t
        if x < .6:
            e, t = operand()
            return e, t
        op = r.choice(["and", "or", "xor", "xnor"])
        n = r.choice([2, 2, 2, 3, 4])
        es = [operand() for _ in range(n)]
        feats[op + (" chain" if n > 2 else "")] += 1
        nl = "\n" if r.random() < .15 else " "
        return [op, [e for e, t in es]], (" %s%s" % (op, nl)).join(t for e, t in es)
    items, text = [], []
    ids = [0]
    def line():
        return sum(t.count("\n") for t in text) + 1
    def nid():
        ids[0] += 1
        return ids[0]
    def put(kind, arg, t):
        items.append([kind, line(), arg, t.rstrip().count("\n")])
        text.append(t)
    def ws():
        if r.random() < .2:
            text.append(r.choice(["\n", "-- `else\n", "-- `end if `if\n", "/* `if X = \"1\" then\n `end */\n", " "]))
            feats["comment"] += 1
    # whether text here can be selected is decided by the specification; unsel says that it is nested in a branch
    # known never to be selected, where undefined identifiers must not matter
    def frags(depth):
        for _ in range(r.randint(0, 3)):
            if depth and r.random() < .5:
                block(depth - 1, frags, False)
            else:
                i = nid()
                put("frag", i, r.choice(["& \" %d\"\n", "&\" %d\" ", "  & \" \"\n& \"%d\"\n"]) % i)
    def stmts(depth, unsel=False):
        for _ in range(r.randint(0, 3)):
            ws()
            x = r.random()
            if depth and x < .45:
                block(depth - 1, stmts, unsel)
            elif x < .55:
                i = nid()
                put("warn", i, "`%s \"W %d\"\n" % (anycase(r, "warning"), i)); feats["`warning"] += 1
            elif bad and x < .58:
                put("error", nid(), "`%s \"E\"\n" % anycase(r, "error")); feats["`error"] += 1
            elif x < .75:
                i = nid()
                put("open", i, "report \"T %d\" " % i)
                frags(depth)
                put("close", 0, ";\n")
                feats["inside a statement"] += 1
            else:
                i = nid()
                put("text", i, "report \"T %d\"%s;%s" % (i, r.choice(["", "", " & \"\" -- `end if\n", " & \"`else\""]), r.choice(["\n", " "])))
            if bad and r.random() < .06:
                k = r.choice(["else", "elsif", "end"])
                feats["stray directive"] += 1
                if k == "elsif":
                    elsif[0] = True
                    e, t = expr(1, False)
                    elsif[0] = False
                    put(k, e, "`elsif %s then\n" % t)
                else:
                    put(k, 0, "`%s\n" % k)
    def block(depth, body, unsel):
        kw = lambda s: anycase(r, s) if r.random() < .3 else s
        e, t = expr(2, unsel)
        never = r.random() < .15
        if never:
            e, t = ["rel", codes("TOOL_NAME"), "=", codes("other")], 'TOOL_NAME = "other"'
        put("if", e, "`%s %s %s%s" % (kw("if"), t, kw("then"), r.choice(["\n", "\n", " "])))
        body(*([depth, unsel or never] if body is stmts else [depth]))
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            elsif[0] = True
            e, t = expr(2, unsel)
            elsif[0] = False
            put("elsif", e, "`%s %s %s\n" % (kw("elsif"), t, kw("then")))
            body(*([depth, unsel] if body is stmts else [depth]))
            feats["`elsif"] += 1
        if r.random() < .5:
            put("else", 0, "`%s%s" % (kw("else"), r.choice(["\n", " "])))
            body(*([depth, unsel] if body is stmts else [depth]))
        if not (bad and r.random() < .04):
            put("end", 0, "`%s%s" % (kw("end"), r.choice(["\n", " if\n", "  IF \n", " if "])))
        else:
            feats["unterminated"] += 1
        feats["block"] += 1
    text.append("entity t is end entity;\narchitecture a of t is\nbegin\nprocess begin\n")
    for _ in range(r.randint(1, 3)):
        stmts(r.randint(2, 3))
    text.append("wait;\nend process;\nend architecture;\n")
    case = {"items": items, "defs": [[codes(n), codes(v)] for n, v in defs]}
    opts = []
    for n, v in cmd:
        opts += r.choice([["-D%s=%s" % (n, v)], ["-D", "%s=%s" % (n, v)], ["--define=%s=%s" % (n, v)]]) if v or r.random() < .5 else ["-D" + n]
    return case, "".join(text), std, opts, feats, len(cmd) != len(set(n for n, v in cmd))

def observe(vhdl, std, opts):
    d = nvc.scratch()
    import shutil
    try:
        with open(os.path.join(d, "t.vhd"), "w") as f:
            f.write(vhdl)
        r = nvc.cmd(["--std=%d" % std, "--messages=compact"] + ["-a"] + opts + ["t.vhd", "-e", "--jit", "--no-save", "t", "-r", "t"], d, 60)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    log, warn, err, odd = [], [], 0, []
    for m in nvc.messages(r.out):
        t = m["text"].replace("`else", "")
        if re.match(r"T \d+( \d+)*$", t) and m["sev"] == "note" and m["time"] == 0:
            log.append([m["line"], [int(x) for x in t.split()[1:]]])
        elif re.match(r'"?W (\d+)"?$', t) and m["sev"] == "warning":
            warn.append([m["line"], int(re.search(r"\d+", t)[0])])
        elif m["sev"] == "error":
            err = err or m["line"] or -1
        elif "already defined" in t or "infinite loop" in t:
            pass
        elif m["sev"] != "note":
            odd.append(t)
    return log, warn, err, odd, r

def body(c):
    n = c.n(1000, 30000)
    feat = collections.Counter()
    done = 0
    while done < n and c.left() > 0 and len(c.violations) < 3:
        k = min(500, n - done)
        progs = [gen(c.rng) for _ in range(k)]
        res = list(c.pool.map(lambda i: observe(*progs[i][1:4]), range(k)))
        cases = [dict(progs[i][0], log=res[i][0], warn=res[i][1], errline=res[i][2] if res[i][4].rc else 0, rc=res[i][4].rc) for i in range(k)]
        v, tr = tlc.validate("Cond", cases)
        c.count(tr)
        c.traces += k
        done += k
        for i in range(k):
            feat.update(progs[i][4])
            feat["rejected by nvc" if res[i][4].rc else "accepted by nvc"] += 1
            why = v[i]
            if res[i][3] and res[i][4].rc == 0:
                why = "unexpected message: %s" % res[i][3][:3]
            if res[i][4].crashed:
                why = "crashed"
            if why and len(c.violations) < 3:
                print("  rejected (%s): %s" % (progs[i][3], str(why)[:600]))
                c.violation("case%d" % len(c.violations), {"why": why, "vhdl": progs[i][1], "std": progs[i][2], "run": progs[i][3],
                            "case": cases[i], "output": res[i][4].out[-3000:], "rc": res[i][4].rc})
        c.sample({"text": progs[0][1][:600], "defines": progs[0][3], "log": cases[0]["log"], "rc": cases[0]["rc"]}, 2)
    c.cover["features"] = dict(feat)
    c.assumptions += ["`end followed by an if statement is not generated (`end if is ambiguous there)",
                      "an undefined identifier in the condition of a selected `if is an error; none is used in an `elsif whose branch could have been decided before it"]

if __name__ == "__main__":
    check.main("C22", body, targets=("libs", "libs19"))
