#!/usr/bin/env python3
"""C19: internal tables and queues refine their abstract data types."""
import collections, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, tlc
from vk.adt import run

ALPHA = [ord(x) for x in "abcABZz._*'\\-1 @[`{"] + [233, 201, 215, 247, 223, 255, 222, 254, 192, 224]

def text(o):
    f = {"heap": "heap", "mask": "mask", "arr": "arr", "id": "id"}.get(o["f"], o["f"])
    a = list(o["a"])
    if o["f"] == "id":
        c = o["c"]
        s, t = [len(o["s"])] + o["s"], [len(o["t"])] + o["t"]
        a = a + (s if c != "many" else []) + (t if c in ("prefix", "starts", "glob", "cmp", "casecmp", "dist") else [])
    return "%s_%s %s" % (f, o["c"], " ".join(str(x) for x in a))

def op(f, c, *a, s=(), t=()):
    return {"f": f, "c": c, "a": list(a), "s": list(s), "t": list(t)}

def map_ops(r, f, n):
    ks = r.choice([3, 6, 12, 40, 200])
    size = r.choice([1, 2, 4, 4, 8, 16, 64])
    base = r.choice([0, 0, 1000]) if f != "ihash" else r.choice([0, 0, 1000, -5, 1 << 20])
    key = lambda: base + r.randrange(ks)
    ops = [op(f, "new", size) if f != "ghash" else op(f, "new", size, 1)]
    while len(ops) < n:
        x = r.random()
        if x < 0.45:
            ops.append(op(f, "put", key(), r.randrange(1, 1000)))
        elif x < 0.8:
            ops.append(op(f, "get", key()))
        elif x < 0.9 and f in ("hash", "shash", "ghash"):
            ops.append(op(f, "delete", key()))
        elif x < 0.93 and f in ("hash", "shash", "chash"):
            ops.append(op(f, "iter"))
        elif f == "chash":
            ops.append(op(f, "cas", key(), r.choice([0, 0, r.randrange(1, 1000)]), r.randrange(1, 1000)))
    if f == "chash":      # compare-and-swap that may succeed
        m = {}
        for o in ops:
            k = o["a"][0] if o["a"] else None
            if o["c"] == "put":
                m[k] = o["a"][1]
            elif o["c"] == "cas":
                if r.random() < 0.5:
                    o["a"][1] = m.get(k, 0)
                if m.get(k, 0) == o["a"][1]:
                    m[k] = o["a"][2]
    for k in range(base, base + min(ks, 40)):
        ops.append(op(f, "get", k))
    return ops

def heap_ops(r, n):
    ops, v, live = [op("heap", "new", r.choice([1, 2, 4, 16]))], 0, {}
    ks = r.choice([3, 20, 1000000, 1000000, 1000000])
    fill = r.choice([0, 5, 12, 30, 60])
    distinct = ks > 100        # deletion of known elements needs distinct keys
    while len(ops) < n:
        x = r.random()
        bias = 0.95 if len(ops) < fill else 0.45
        if x < bias or not live:
            v += 1
            k = r.randrange(ks)
            if distinct and k in live.values():
                continue
            live[v] = k
            ops.append(op("heap", "insert", k, v))
        elif x < bias + 0.2 * (1 - bias) / 0.55:
            ops.append(op("heap", "extract"))
            m = min(live, key=lambda y: live[y])
            del live[m]
        elif x < bias + 0.25 * (1 - bias) / 0.55:
            ops.append(op("heap", r.choice(["min", "size", "walk"])))
        elif distinct:
            y = r.choice(list(live))
            if r.random() < 0.1:
                y = v + 1000
            else:
                del live[y]
            ops.append(op("heap", "delete", y))
    return ops + [op("heap", "extract")] * len(live) + [op("heap", "size")]

def mask_ops(r, n):
    size = r.choice([1, 2, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 191, 192, 193, 256, r.randrange(1, 300)])
    edge = [b for b in (0, 1, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, size - 2, size - 1) if 0 <= b < size]
    bit = lambda: r.choice(edge) if r.random() < 0.5 else r.randrange(size)
    ops = [op("mask", "new", size)]
    while len(ops) < n:
        m = r.randrange(2)
        c = r.choice(["set", "set", "clear", "test", "tas", "setr", "setr", "clearr", "testr", "testr", "setall", "clearall", "clearall",
                      "pop", "back", "back", "count", "count", "sub", "union", "inter", "copy", "eq", "iter", "iter"])
        if c in ("set", "clear", "test", "tas", "back", "count"):
            ops.append(op("mask", c, m, bit()))
        elif c in ("setr", "clearr", "testr"):
            b = bit()
            e = r.choice([b, b, b + 1, bit(), size, r.randrange(b, size + 1)])
            ops.append(op("mask", c, m, b, max(0, min(e, size) - b)))
        elif c in ("setall", "clearall") and r.random() < 0.6:
            continue
        elif c == "eq":
            ops.append(op("mask", c))
        else:
            ops.append(op("mask", c, m))
    return ops

def arr_ops(r, n):
    ops, size = [op("arr", "new")], 0
    while len(ops) < n:
        c = r.choice(["push"] * 6 + ["pop", "pop", "get", "get", "trim", "resize", "all"])
        if c == "push":
            ops.append(op("arr", c, r.randrange(1000))); size += 1
        elif c == "pop" and size:
            ops.append(op("arr", c)); size -= 1
        elif c == "get" and size:
            ops.append(op("arr", c, r.randrange(size)))
        elif c == "trim" and r.random() < 0.2:
            size = r.randrange(size + 1)
            ops.append(op("arr", c, size))
        elif c == "resize" and r.random() < 0.3:
            size = r.choice([size + r.randrange(20), r.randrange(size + 1)])
            ops.append(op("arr", c, size, r.randrange(1000)))
        elif c == "all":
            ops.append(op("arr", c))
    return ops + [op("arr", "all")]

def id_ops(r, n):
    alpha = r.sample(ALPHA, r.choice([2, 3, 6])) if r.random() < 0.7 else ALPHA
    pool = []
    def string():
        if pool and r.random() < 0.5:
            x = list(r.choice(pool))
            y = r.random()
            if y < 0.2 and x:
                x[r.randrange(len(x))] = r.choice(alpha)
            elif y < 0.3 and x:
                i = r.randrange(len(x))
                x[i] = x[i] ^ 32 if x[i] ^ 32 else 65
            elif y < 0.4:
                x.append(r.choice(alpha))
            return x
        k = r.choice([1, 2, 3, 4, 5, 8, 14, 15, 16, 17, 30, 31, 32, 33, 47, 48, 49, 62, 63, 64, 65, 100, 127, 128, 129])
        if r.random() < 0.6:
            k = min(k, 8)
        x = [r.choice(alpha) for _ in range(k)]
        pool.append(x)
        return x
    ops = []
    while len(ops) < n:
        c = r.choice(["new", "new", "new_n", "sprintf", "uniq", "prefix", "prefix", "until", "runtil", "from", "rfrom", "pos", "down", "starts", "glob",
                      "glob", "cmp", "casecmp", "casecmp", "dist", "walk", "walk", "many"])
        s = string()
        if c == "walk" and r.random() < 0.7:      # selected names with character literals and extended identifiers
            s = [ord(x) for x in "".join(r.choice(["a", ".", ".", "'.'", "'a'", "\\a.b\\", "\\a'b\\", "'\\'", "b", "'\"'"]) for _ in range(r.randrange(1, 7)))]
        if c == "new_n":
            ops.append(op("id", c, r.randrange(1, len(s) + 1), s=s))
        elif c == "prefix":
            ops.append(op("id", c, r.choice([0, 46, 46, 45]), s=s, t=string()))
        elif c in ("until", "runtil", "from", "rfrom", "pos"):
            ops.append(op("id", c, r.choice(s + alpha), s=s))
        elif c == "glob":
            s = s[:20]
            t = list(s)
            for _ in range(r.choice([0, 1, 1, 2])):
                i, j = sorted((r.randrange(len(t) + 1), r.randrange(len(t) + 1)))
                t[i:j] = [42]
            if r.random() < 0.3 and len(t) > 1:
                t[r.randrange(len(t))] = r.choice(alpha)
            ops.append(op("id", c, s=s, t=t[:20]))
        elif c in ("starts", "cmp", "casecmp", "dist"):
            t = string() if r.random() < 0.4 else [(x ^ 32 if r.random() < 0.4 and (65 <= x & ~32 <= 90 or x & ~32 > 191) else x) for x in s]
            if r.random() < 0.3:
                t = t[:r.randrange(1, len(t) + 1)]
            if c == "dist":
                s, t = s[:12], t[:12]
            ops.append(op("id", c, s=s, t=t))
        elif c == "many":
            if r.random() < 0.1:
                ops.append(op("id", c, r.randrange(100), r.choice([100, 1000, 20000])))
        else:
            ops.append(op("id", c, s=s))
    return ops

def conc(r):
    """A concurrent history: the commands and how to read the result."""
    th, ks = r.choice([2, 3, 4, 8]), r.choice([1, 2, 4])
    noise = r.choice([0, 10, 100])
    pre = [(k, r.randrange(1, 100)) for k in range(ks) if r.random() < 0.5]
    cmds = ["chash_new %d" % r.choice([4, 4, 8, 16])] + ["chash_put %d %d" % x for x in pre]
    v = 100
    hist = []
    w = ["conc %d" % th]
    idents = r.random() < 0.2
    grow = not idents and r.random() < 0.5     # long runs on own keys while the table grows
    if grow:
        th = r.choice([2, 3, 4, 8]); ks = th; pre = []
        cmds = ["chash_new 4"]
        w = ["conc %d" % th]
    for t in range(th):
        o = []
        for i in range(40 if grow else r.randrange(3, 9)):
            k = t if grow else r.randrange(ks)
            c = 3 if idents else r.choice([0, 0, 1, 1, 2])
            v += 1
            o.append((c, k, v, r.choice([0, v - 1, r.randrange(100, v + 1)] + [x[1] for x in pre if x[0] == k])))
            if grow:
                if r.random() < 0.3:
                    o.append((0, 100 + t * 100 + i, v, 0))
                continue
            for _ in range(r.randrange(noise // 5 + 1) if not idents else 0):    # other keys, so that the table grows meanwhile
                o.append((0, 100 + r.randrange(noise * 10), v, 0))
        hist.append(o)
        w.append("%d %s" % (len(o), " ".join("%d %d %d %d" % x for x in o)))
    cmds.append(" ".join(w))
    cmds += ["chash_get %d" % k for k in range(ks)]
    return cmds, pre, hist, ks, idents

def lin_cases(h, obs):
    cmds, pre, hist, ks, idents = h
    n = 1 + len(pre)
    x = obs[n]
    cells = [[] for _ in range(ks)]
    p = 0
    for t, o in enumerate(hist):
        for c, k, v, m in o:
            if k < ks:
                cells[k].append({"th": t, "op": ["put", "get", "cas", "get"][c], "val": v, "cmp": m, "res": x[p], "t0": x[p + 1], "t1": x[p + 2]})
            p += 3
    if idents:     # one handle for each name, whoever asks first; different for different names
        hs = [sorted({o["res"] for o in c}) for c in cells]
        return [{"init": hs[k][0] if hs[k] else 0, "ops": cells[k]} for k in range(ks) if cells[k]], len({a[0] for a in hs if a}) == len([a for a in hs if a])
    for k in range(ks):
        cells[k].append({"th": 99, "op": "get", "val": 0, "cmp": 0, "res": obs[n + 1 + k][0], "t0": 10 ** 6, "t1": 10 ** 6 + 1})
    init = dict(pre)
    return [{"init": init.get(k, 0), "ops": cells[k]} for k in range(ks)], True

FAMS = ["hash", "shash", "ihash", "hset", "ghash", "chash", "heap", "heap", "mask", "mask", "arr", "id", "id"]

def gen(r, i):
    f = FAMS[i % len(FAMS)]
    n = r.choice([20, 60, 150]) if f != "id" else r.choice([15, 40, 80])
    if f == "heap":
        return f, heap_ops(r, r.choice([20, 60, 150, 150]))
    if f == "mask":
        return f, mask_ops(r, n)
    if f == "arr":
        return f, arr_ops(r, n)
    if f == "id":
        return f, id_ops(r, n)
    return f, map_ops(r, f, n)

def body(c):
    feat = collections.Counter()
    n, done = c.n(360, 12000), 0
    nconc = c.n(400, 8000)
    while done < n and c.left() > 0 and len(c.violations) < 3:
        k = min(180, n - done)
        gs = [gen(c.rng, done + i) for i in range(k)]
        res = list(c.pool.map(lambda g: run([text(o) for o in g[1]], 20), gs))
        cases = [{"ops": g[1][:len(o) + 1], "obs": o} for g, (o, why) in zip(gs, res)]
        verdicts, r = tlc.validate("AdtTrace", cases)
        c.count(r)
        c.traces += k
        done += k
        for f, ops in gs:
            feat.update("%s %s" % (f, o["c"]) for o in ops)
        for j, why in sorted(verdicts.items()):
            if (why or res[j][1]) and len(c.violations) < 3:
                print("  rejected:", str(why)[:500], res[j][1])
                c.violation("case%d" % len(c.violations), {"family": gs[j][0], "why": why, "status": res[j][1], "commands": [text(o) for o in gs[j][1]], "observed": res[j][0][-5:]})
            elif not why:
                c.sample({"family": gs[j][0], "ops": gs[j][1][:4], "observed": res[j][0][:4]}, 3)
    done = 0
    while done < nconc and c.left() > 0 and len(c.violations) < 3:
        k = min(400, nconc - done)
        hs = [conc(c.rng) for _ in range(k)]
        # one program runs several histories; few programs at a time, so that the threads really overlap
        groups = [hs[i:i + 20] for i in range(0, k, 20)]
        res = []
        for g in groups:
            res.append(run([x for h in g for x in h[0]], 30))
        cases, who = [], []
        for g, (obs, why) in zip(groups, res):
            p = 0
            for h in g:
                o = obs[p:p + len(h[0])]
                p += len(h[0])
                if len(o) < len(h[0]):
                    print("  concurrent history not completed:", why)
                    c.violation("conc%d" % len(c.violations), {"why": why or "no result", "commands": h[0]})
                    break
                cs, distinct = lin_cases(h, o)
                if not distinct:
                    c.violation("conc%d" % len(c.violations), {"why": "two names share an identifier", "commands": h[0], "observed": o})
                for x in cs:
                    cases.append(x); who.append((h, o))
                feat["concurrent history"] += 1
                feat["overlapping operations"] += sum(1 for x in cs for a in x["ops"] for b in x["ops"] if a["th"] < b["th"] and a["t0"] < b["t1"] and b["t0"] < a["t1"])
        c.traces += k
        done += k
        verdicts, r = tlc.validate("Lin", cases, silent_reject=True)
        c.count(r)
        for j, why in sorted(verdicts.items()):
            if why and len(c.violations) < 3:
                print("  not linearizable:", cases[j])
                c.violation("lin%d" % len(c.violations), {"why": why, "case": cases[j], "commands": who[j][0][0]})
    # single writer keys hammered while the table grows
    cases = []
    for i in range(c.n(6, 100)):
        th = [2, 4, 8][i % 3]
        o, why = run(["stress %d %d %d" % (th, c.rng.choice([200, 1000, 3000]), c.n(2000, 4000))], 60)
        if why or not o:
            c.violation("stress%d" % len(c.violations), {"why": why or "no result", "threads": th})
            continue
        x = o[0]
        feat["stress"] += 1
        c.traces += 1
        cases.append({"init": 0 if x[0] == 0 and x[1] == 1 else x[1] if x[0] else x[1] - 1,
                      "ops": [{"th": 0, "op": "get" if x[j] else "put", "val": x[j + 1], "cmp": 0, "res": x[j + 2], "t0": j, "t1": j + 1} for j in range(0, len(x), 3)]})
        if c.left() < 0 or len(c.violations) > 2:
            break
    if cases:
        verdicts, r = tlc.validate("Lin", cases, silent_reject=True)
        c.count(r)
        for j, why in sorted(verdicts.items()):
            if why and len(c.violations) < 3:
                print("  not linearizable:", cases[j])
                c.violation("stress%d" % len(c.violations), {"why": why, "case": cases[j]})
    c.cover["features"] = dict(feat)

if __name__ == "__main__":
    check.main("C19", body, targets=("adt",))
