#!/usr/bin/env python3
"""C17: when runs end and with which exit status."""
import os, re, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, nvc, tlc

SEV = ["note", "warning", "error", "failure"]
INF = 1000000

def gen(r):
    std = r.choice([2008, 2008, 2019])
    feats = collections.Counter()
    opts = {"x": r.choice([None, None, 0, 1, 2, 3, 3]), "t": None, "d": None}
    ids = [0]
    def nid():
        ids[0] += 1
        return ids[0]
    sevs = r.choice([[0, 0, 1], [0, 0, 0, 1, 2], [0, 1, 2, 3], [0]])
    risky = r.random() < .5         # whether stop calls and errors occur at all
    timed_loop, delta_loop = r.random() < .35, r.random() < .3
    if timed_loop or r.random() < .25:
        opts["t"] = r.randint(0, 12)
        feats["stop time"] += 1
    if delta_loop or r.random() < .3:
        opts["d"] = r.randint(1, 7)
        feats["delta limit"] += 1
    procs, text = [], []
    np = r.randint(1, 4)
    resfn = r.random() < .3
    def body(code, out, n, inloop=False):
        for _ in range(n):
            x = r.random()
            if x < .34:
                code.append(["wait", r.choice([0, 0, 1, 1, 2, 3])])
                out.append("wait for %d ns;" % code[-1][1])
            elif x < .40:
                t = r.choice([0, 0, 1, 2, 4])
                code.append(["act", t])
                out.append("s@ <= %s%s after %d ns;" % ("transport " if t else "", "not s@", t))
                feats["activity only"] += 1
            elif x < .46 and risky:
                fin, has = r.random() < .5, r.random() < .6
                st = r.choice([0, 0, 1, 3, 42]) if has else 0
                code.append(["stop", int(fin), int(has), st])
                out.append("%s%s;" % ("finish" if fin else "stop", "(%d)" % st if has else ""))
                feats["stop or finish"] += 1
            elif x < .49 and risky:
                i = nid()
                code.append(["err", i])
                out.append("vi := %d; va := arr(vi);" % (1000 + i))
                feats["run-time error"] += 1
            elif x < .60 and std == 2019:
                y = r.random()
                if y < .4:
                    sv, b = r.randrange(4), r.random() < .5
                    code.append(["en", sv, int(b)])
                    out.append("SetVhdlAssertEnable(%s, %s);" % (SEV[sv], "true" if b else "false"))
                    feats["assertion enable"] += 1
                elif y < .55:
                    code.append(["clear"]); out.append("ClearVhdlAssert;")
                    feats["assertion clear"] += 1
                else:
                    sv, i = r.randrange(4), nid()
                    code.append(["count", sv, i])
                    out.append('report "C %d " & integer\'image(GetVhdlAssertCount(%s));' % (i, SEV[sv]))
                    feats["assertion count"] += 1
            else:
                sv, i = r.choice(sevs), nid()
                y = r.random()
                st = SEV[sv]
                if y < .25:
                    out.append("sv := %s;" % st); st = "sv"
                if y > .93:
                    i = 0
                    out.append("assert false severity %s;" % st)
                elif r.random() < .4:
                    out.append('assert %s report "R %d" severity %s;' % (r.choice(["false", "vi < 0", "vi = -1"]), i, st))
                elif sv == 0 and st == "note" and r.random() < .5:
                    out.append('report "R %d";' % i)
                elif r.random() < .3:
                    out.append('say("R %d", %s);' % (i, st))
                else:
                    out.append('report "R %d" severity %s;' % (i, st))
                code.append(["rep", sv, i])
                feats["report " + SEV[sv]] += 1
                if r.random() < .15:
                    out.append('assert vi >= 0 report "never" severity failure;')
    for p in range(1, np + 1):
        code, out, pre, decl = [], [], [], []
        if r.random() < .15:
            for _ in range(r.randint(1, 2)):
                sv, i = r.choice(sevs), nid()
                pre.append(["rep", sv, i])
                decl.append("variable i%d : integer := %s(%d, %s);" % (i, r.choice(["init", "pinit"]), i, SEV[sv]))
                feats["report in an initial value"] += 1
        pre.append(["end"])
        if r.random() < .08:
            sv, i = r.choice(sevs), nid()
            code, pre, decl = [["rep", sv, i], ["end"]], [["end"]], []
            text.append('  assert %s report "R %d" severity %s;' % ("false", i, SEV[sv]))
            procs.append({"pre": pre, "code": code})
            feats["concurrent assertion"] += 1
            continue
        body(code, out, r.randint(1, 6))
        k = r.choice(["end", "timed", "delta"])
        if k == "timed" and timed_loop or k == "delta" and delta_loop:
            pc = len(code) + 1
            out.append("loop")
            if r.random() < .7:
                body(code, out, r.randint(0, 2), True)
            if r.random() < .2 and k == "delta":
                code += [["act", 0]]
                out.append("s@ <= not s@;")
            w = r.randint(1, 4) if k == "timed" else 0
            code += [["wait", w], ["jmp", pc]]
            if w == 0 and r.random() < .5:
                # a delta cycle through a signal event
                code.insert(-2, ["act", 0])
                out.append("q@ <= not q@; wait on q@;")
            else:
                out.append("wait for %d ns;" % w)
            out.append("end loop;")
            if any(x[0] == "wait" and x[1] for x in code[pc - 1:]) and opts["t"] is None:
                opts["t"] = r.randint(0, 12)
            feats[k + " loop"] += 1
        else:
            code.append(["end"]); out.append("wait;")
        procs.append({"pre": pre, "code": code})
        text.append("  p%d: process is\n    variable vi, va : integer := 0; variable sv : severity_level;\n%s  begin\n%s  end process;\n" %
                    (p, "".join("    %s\n" % x for x in decl), "".join("    %s\n" % x.replace("@", str(p)) for x in out)))
    d = ["signal %s : boolean := false;" % ", ".join("s%d, q%d" % (p, p) for p in range(1, np + 1)),
         "type int_arr is array (1 to 3) of integer;",
         "constant arr : int_arr := (1, 2, 3);",
         "procedure say (m : string; s : severity_level) is begin report m severity s; end procedure;",
         "impure function init (i : integer; s : severity_level) return integer is begin report \"R \" & integer'image(i) severity s; return i; end function;",
         "function pinit (i : integer; s : severity_level) return integer is begin report \"R \" & integer'image(i) severity s; return i; end function;"]
    if resfn:
        # a resolution function that complains about combinations of values that never occur
        feats["resolution function with assertions"] += 1
        d += ["type e is (ea, eb, ec);", "type e_vec is array (natural range <>) of e;",
              "function res (v : e_vec) return e is begin for i in v'range loop assert v(i) /= ec report \"never\" severity %s; end loop; return v(v'left); end function;" % r.choice(SEV),
              "signal es : res e;"]
        text += ["  es <= ea; es <= eb after 1 fs;" if False else "  es <= ea;\n  es <= eb;\n"]
        # its drivers are active in the first cycle
        for _ in range(2):
            procs.append({"pre": [["end"]], "code": [["act", 0], ["end"]]})
    # messages of severity x or more end the run; the same option sets the status severity
    case = {"procs": procs, "xsev": 3 if opts["x"] is None else opts["x"], "ssev": 2 if opts["x"] is None else opts["x"],
            "tstop": INF if opts["t"] is None else opts["t"], "dstop": 10000 if opts["d"] is None else opts["d"]}
    vhdl = "use std.env.all;\nentity t is end entity;\narchitecture a of t is\n%sbegin\n%send architecture;\n" % (
        "".join("  %s\n" % x for x in d), "".join(text))
    run = []
    if opts["x"] is not None:
        run.append("--exit-severity=" + r.choice([SEV[opts["x"]], SEV[opts["x"]].upper()]) if False else "--exit-severity=" + SEV[opts["x"]])
    if opts["t"] is not None:
        run.append("--stop-time=%s" % r.choice(["%dns" % opts["t"], "%dps" % (opts["t"] * 1000)]))
    if opts["d"] is not None:
        run.append("--stop-delta=%d" % opts["d"])
    if r.random() < .3:
        run.append("--shuffle")
    return case, vhdl, std, run, feats

def observe(vhdl, std, run, mode):
    r = nvc.simulate(vhdl, mode="aot" if mode == "split" else mode, split=mode == "split", run=run, glob=["--std=%d" % std], timeout=60)
    log, odd = [], []
    for m in nvc.messages(r.out):
        t, x = m["text"], None
        if t.startswith("(init): "):
            t, m["time"], m["delta"] = t[8:], 0, -1
        if m["time"] is None:
            if "--shuffle" not in t:
                odd.append(t)
            continue
        ns = m["time"] // 10**6
        k = re.match(r"R (\d+)$", t)
        if k:
            x = ["r", SEV.index(m["sev"]), int(k[1])]
        elif t == "Assertion violation.":
            x = ["r", SEV.index(m["sev"]), 0]
        elif re.match(r"C (\d+) (\d+)$", t) and m["sev"] == "note":
            k = re.match(r"C (\d+) (\d+)$", t)
            x = ["c", int(k[2]), int(k[1])]
        elif re.match(r"(STOP|FINISH) called", t) and m["sev"] == "note":
            k = re.match(r"(STOP|FINISH) called(?: with status (-?\d+))?$", t)
            x = ["s", int(k[1] == "FINISH"), -1 if k[2] is None else int(k[2])]
        elif re.match(r"limit of \d+ delta cycles reached", t) and m["sev"] == "fatal":
            x = ["d", 0, 0]
        elif re.match(r"index (\d+) outside", t) and m["sev"] in ("error", "fatal"):
            x = ["e", 0, int(re.match(r"index (\d+)", t)[1]) - 1000]
        if x is None or m["time"] % 10**6:
            odd.append(t)
        else:
            log.append([ns, m["delta"]] + x)
    return log, odd, r

def body(c):
    n = c.n(1500, 20000)
    feat = collections.Counter()
    done = 0
    while done < n and c.left() > 0 and len(c.violations) < 3:
        k = min(500, n - done)
        progs = [gen(c.rng) for _ in range(k)]
        modes = [c.rng.choice(["jit"] * 8 + ["aot", "split", "split"]) for i in range(k)]
        res = list(c.pool.map(lambda i: observe(*progs[i][1:4], modes[i]), range(k)))
        cases = [dict(progs[i][0], log=res[i][0], rc=res[i][2].rc) for i in range(k)]
        v, tr = tlc.validate("RunTrace", cases, silent_reject=True)
        c.count(tr)
        c.traces += k
        done += k
        for i in range(k):
            feat.update(progs[i][4])
            feat["mode " + modes[i]] += 1
            feat["status %s" % ("0" if res[i][2].rc == 0 else "not 0")] += 1
            why = v[i]
            if res[i][1]:
                why = "unexpected message: %s" % res[i][1][:3]
            if res[i][2].crashed:
                why = "crashed"
            if why and len(c.violations) < 3:
                print("  rejected (%s %s): %s" % (modes[i], progs[i][3], why))
                c.violation("case%d" % len(c.violations), {"why": why, "vhdl": progs[i][1], "std": progs[i][2], "run": progs[i][3],
                            "mode": modes[i], "case": cases[i], "output": res[i][2].out[-3000:], "rc": res[i][2].rc})
        c.sample({"procs": cases[0]["procs"], "run": progs[0][3], "log": cases[0]["log"], "rc": cases[0]["rc"]}, 2)
    c.cover["features"] = dict(feat)
    c.assumptions += ["processes resumed in the cycle in which the end is requested may or may not still run",
                      "a status given to stop or finish is the exit status whatever was reported before"]

if __name__ == "__main__":
    check.main("C17", body, targets=("libs", "libs19"))
