#!/usr/bin/env python3
"""C09: file objects."""
import os, re, sys, struct, shutil, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import check, known, nvc, tlc

CH = "abcdefXYZ0123456789 _"
# name -> (declarations, subtype, size in bytes or 0, value generator, literal, image as a string of integers, decode)
def chlit(c): return "'%s'" % chr(c)
TYPES = {
 "int":  ("", "integer", 4, lambda r: [r.choice([0, 1, -1, 255, 256, 2147483647, -2147483648, r.randint(-1000, 1000)])],
          lambda v: "(-2147483647-1)" if v[0] == -2147483648 else str(v[0]), "integer'image(%s)", lambda b: [struct.unpack("<i", b)[0]]),
 "char": ("", "character", 1, lambda r: [ord(r.choice(CH))], lambda v: chlit(v[0]), "integer'image(character'pos(%s))", lambda b: [b[0]]),
 "bool": ("", "boolean", 1, lambda r: [r.randint(0, 1)], lambda v: ["false", "true"][v[0]], "integer'image(boolean'pos(%s))", lambda b: [b[0]]),
 "nat8": ("type nat8 is range 0 to 255;", "nat8", 1, lambda r: [r.choice([0, 255, 10, 13, 26, r.randint(0, 255)])], lambda v: str(v[0]), "integer'image(integer(%s))", lambda b: [b[0]]),
 "enum": ("type en is (e0, e1, e2, e3);", "en", 1, lambda r: [r.randint(0, 3)], lambda v: "e%d" % v[0], "integer'image(en'pos(%s))", lambda b: [b[0]]),
 "time": ("", "time", 8, lambda r: [r.randint(-2000000, 2000000)], lambda v: "(%d fs)" % v[0], "integer'image(%s / 1 fs)", lambda b: [struct.unpack("<q", b)[0]]),
 "bv3":  ("subtype bv3 is bit_vector(3 downto 1);", "bv3", 3, lambda r: [r.randint(0, 1) for _ in range(3)], lambda v: '"%d%d%d"' % tuple(v),
          "im(%s)", lambda b: list(b)),
 "arr2": ("type arr2 is array (natural range 0 to 1) of integer;", "arr2", 8, lambda r: [r.randint(-9, 70000) for _ in range(2)], lambda v: "(%d, %d)" % tuple(v),
          "im(%s)", lambda b: list(struct.unpack("<2i", b))),
 "rec":  ("type rec is record a : integer; b : character; c : bit_vector(0 to 1); end record;", "rec", 0,
          lambda r: [r.randint(-9, 70000), ord(r.choice(CH)), r.randint(0, 1), r.randint(0, 1)],
          lambda v: "(%d, %s, \"%d%d\")" % (v[0], chlit(v[1]), v[2], v[3]), "im(%s)", None),
 "str":  ("", "string", 1, lambda r: [ord(r.choice(CH)) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))], None, None, lambda b: [b[0]]),
 "ints": ("type ints is array (natural range <>) of integer;", "ints", 4, lambda r: [r.randint(-9, 70000) for _ in range(r.choice([0, 1, 2, 3, 4]))], None, None,
          lambda b: [struct.unpack("<i", b)[0]]),
 "text": ("", "string", 0, lambda r: [ord(r.choice(CH)) for _ in range(r.choice([0, 0, 1, 2, 3, 9, 60]))], None, None, None),
}
IM = {"bv3": "function im(x : bv3) return string is begin return integer'image(bit'pos(x(3))) & \" \" & integer'image(bit'pos(x(2))) & \" \" & integer'image(bit'pos(x(1))); end function;",
      "arr2": "function im(x : arr2) return string is begin return integer'image(x(0)) & \" \" & integer'image(x(1)); end function;",
      "rec": "function im(x : rec) return string is begin return integer'image(x.a) & \" \" & integer'image(character'pos(x.b)) & \" \" & integer'image(bit'pos(x.c(0))) & \" \" & integer'image(bit'pos(x.c(1))); end function;"}
LOGS = '''procedure logb(id : integer; x : boolean) is begin report "L " & integer'image(id) & " " & integer'image(boolean'pos(x)); end procedure;
procedure logi(id : integer; x : integer) is begin report "L " & integer'image(id) & " " & integer'image(x); end procedure;
procedure logo(id : integer; x : file_open_status) is begin logi(id, file_open_status'pos(x)); end procedure;
'''
LOGS19 = '''procedure logm(id : integer; x : file_open_kind) is begin logi(id, file_open_kind'pos(x)); end procedure;
procedure logt(id : integer; x : file_open_state) is begin logi(id, file_open_state'pos(x)); end procedure;
'''

class G:
    def __init__(self, r):
        self.r = r
        self.std = r.choice([2008, 2019])
        self.ty = r.choice(list(TYPES))
        self.decl, self.sub, self.size, self.val, self.lit, self.img, self.dec = TYPES[self.ty]
        if self.std == 2019 and self.ty in ("int", "ints", "arr2"):        # integers have 64 bits
            self.size *= 2
            self.dec = {"arr2": lambda b: list(struct.unpack("<2q", b))}.get(self.ty, lambda b: [struct.unpack("<q", b)[0]])
        self.stream = self.ty in ("str", "ints")
        self.text = self.ty == "text"
        self.nobj = r.randint(1, 3)
        self.nname = r.randint(1, 3)
        self.many = r.random() < .06            # more open files than the initial size of the table of handles
        if self.many:
            self.nobj = self.nname = r.randint(17, 36)
        self.names = ["f%d.dat" % (i + 1) for i in range(self.nname)]
        self.feats = collections.Counter({self.ty: 1})
        self.risk = r.choice([0, 0, .01, .03])
        self.ops, self.id, self.procs = [], 0, []
        self.pre = [r.random() < .4 and self.dec is not None for _ in range(self.nname)]
        self.predata = [self.prevals() if p else [] for p in self.pre]
        # a light simulation that keeps the program within what the standard defines
        self.exists = [bool(p) for p in self.pre]
        self.len = [len(d) for d in self.predata]
        self.o = [None] * (self.nobj + 1)           # per object: name, mode, pos, dirty

    def prevals(self):
        n = self.r.choice([0, 1, 2, 5, 1200])
        if self.stream:
            return [[self.one()] for _ in range(n)]
        return [self.val(self.r) for _ in range(n)]
    def one(self):
        while True:
            v = self.val(self.r)
            if v: return v[0]
    def op(self, kind, f, **kw):
        d = {"op": kind, "f": f + 1, "name": 0, "mode": "", "status": False, "v": [], "n": 0, "origin": "", "id": 0}
        self.id += 1
        d["id"] = self.id
        d.update(kw)
        self.ops.append(d)
        self.feats[kind] += 1
        return d["id"]
    def arrlit(self, v):
        if self.ty in ("str", "text"):
            return '"%s"' % "".join(map(chr, v))
        return "(%s)" % ", ".join("%d => %d" % (i, x) for i, x in enumerate(v)) if v else "ints'(1 to 0 => 0)"

    # can object f be opened on name n with mode m without interference through buffers?
    def free(self, f, n, m):
        for g, o in enumerate(self.o):
            if g != f and o and o["name"] == n:
                if m == "read" and (o["mode"] == "read" or o["clean"]):
                    continue
                return False
        return True
    def frozen(self, f):
        o = self.o[f]
        return o["mode"] != "read" and any(g != f and p and p["name"] == o["name"] for g, p in enumerate(self.o))

    def openop(self, f, out, ref, mode=None, declared=None):
        r = self.r
        for _ in range(20):
            n = f if self.many and f < self.nname else r.randrange(self.nname)
            m = mode or r.choice(["read", "read", "read", "write", "write", "append"] + (["readwrite"] if self.std == 2019 and not self.text else []))
            if not self.free(f, n, m): continue
            missing = not self.exists[n] and m in ("read", "readwrite")
            if m == "readwrite" and missing: continue
            status = declared is None and r.random() < .6
            if (missing or self.o[f]) and not status and (declared is not None and self.o[f] or r.random() >= self.risk * 3): continue
            break
        else:
            return False
        i = self.op("open", f, name=n + 1, mode=m, status=status)
        km = {"read": "read_mode", "write": "write_mode", "append": "append_mode", "readwrite": "read_write_mode"}[m]
        if self.o[f]: self.feats["double open"] += 1
        elif missing: self.feats["missing file"] += 1
        else:
            if m == "write": self.len[n] = 0
            if m in ("write", "append"): self.exists[n] = True
            self.o[f] = {"name": n, "mode": m, "pos": self.len[n] if m == "append" else 0, "clean": m != "write" and True}
            if m == "write": self.o[f]["clean"] = True
        if declared is not None:
            declared.append(' open %s is "%s"' % (km, self.names[n]))
        elif status and self.std == 2019 and r.random() < .3:
            out.append('logo(%d, file_open(%s, "%s", %s));' % (i, ref, self.names[n], km)); self.feats["open function"] += 1
        elif status:
            out.append('file_open(st, %s, "%s"%s); logo(%d, st);' % (ref, self.names[n], "" if m == "read" and r.random() < .3 else ", " + km, i))
        else:
            out.append('file_open(%s, "%s"%s);' % (ref, self.names[n], "" if m == "read" and r.random() < .3 else ", " + km))
        return True

    def step(self, f, out, ref):
        """One operation on object f, whose name in the program is ref."""
        r = self.r
        o = self.o[f]
        if r.random() < self.risk:
            return self.wrong(f, out, ref)
        if o is None:
            x = r.random()
            if x < .1:
                self.op("close", f); out.append("file_close(%s);" % ref); self.feats["close closed"] += 1
            elif x < .2 and self.std == 2019:
                out.append("logt(%d, file_state(%s));" % (self.op("state", f), ref))
            elif x < .25:
                i = self.op("open", f, name=0, mode="read", status=True)
                out.append('file_open(st, %s, "%s", %s); logo(%d, st);' % (ref, r.choice(["", "nodir/x"]), r.choice(["read_mode", "write_mode"]), i))
            else:
                self.openop(f, out, ref)
            return
        left = self.len[o["name"]] - o["pos"]
        kinds = ["endfile", "close", "open2"]
        if o["mode"] in ("read", "readwrite"):
            kinds += ["read"] * 6 + ["endfile"] * 3
        if o["mode"] != "read" and not self.frozen(f):
            kinds += ["write"] * 8 + ["flush"] * 2
        elif o["mode"] == "read":
            kinds += ["flush"] * 0
        if self.std == 2019:
            kinds += ["state", "mode", "canseek"]
            if self.size == 1 and not self.frozen(f):
                kinds += ["size", "position", "position"]
                if o["mode"] != "append":
                    kinds += ["rewind", "seek", "seek"]
                if o["mode"] in ("write", "readwrite"):
                    kinds += ["truncate"]
            elif not self.text and not self.frozen(f) and o["mode"] != "append":
                kinds += ["rewind"]
        k = r.choice(kinds)
        if k == "read":
            if self.stream:
                n = r.choice([0, 1, 2, 3, 5, 20])
                i = self.op("read", f, n=n)
                o["pos"] += max(0, min(n, left))
                out.append("rdarr(%d, %s, %d);" % (i, ref, n))
            elif left > 0:
                i = self.op("read", f)
                o["pos"] += 1
                out.append("rd(%d, %s);" % (i, ref))
            else:
                out.append("logb(%d, endfile(%s));" % (self.op("endfile", f), ref))
        elif k == "write":
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                v = self.val(r)
                self.op("write", f, v=v)
                w = len(v) if self.stream else 1
                o["pos"] = self.len[o["name"]] + w if o["mode"] == "append" else o["pos"] + w
                self.len[o["name"]] = max(self.len[o["name"]], o["pos"])
                o["clean"] = False
                if self.text:
                    out.append("wr(%s, %s);" % (ref, self.arrlit(v)))
                elif self.stream:
                    out.append("write(%s, %s);" % (ref, "%s'(%s)" % (self.sub, self.arrlit(v)) if r.random() < .5 else self.arrlit(v)))
                elif r.random() < .3:
                    out.append("write(%s, %s'(%s));" % (ref, self.sub, self.lit(v)))
                else:
                    out.append("wrp(%s, %s);" % (ref, self.lit(v)))
        elif k == "flush":
            self.op("flush", f); out.append("flush(%s);" % ref); o["clean"] = True
        elif k == "endfile":
            out.append("logb(%d, endfile(%s));" % (self.op("endfile", f), ref))
        elif k == "close":
            self.op("close", f); out.append("file_close(%s);" % ref); self.o[f] = None
        elif k == "open2":
            i = self.op("open", f, name=r.randint(1, self.nname), mode="read", status=True)
            out.append('file_open(st, %s, "%s", %s); logo(%d, st);' % (ref, self.names[0], r.choice(["read_mode", "write_mode"]), i)); self.feats["double open"] += 1
        elif k == "state":
            out.append("logt(%d, file_state(%s));" % (self.op(k, f), ref))
        elif k == "mode":
            out.append("logm(%d, file_mode(%s));" % (self.op(k, f), ref))
        elif k == "canseek":
            out.append("logb(%d, file_canseek(%s));" % (self.op(k, f), ref))
        elif k == "size":
            out.append("logi(%d, file_size(%s));" % (self.op(k, f), ref)); o["clean"] = True
        elif k == "position":
            g = r.choice(["begin", "begin", "end", "current"])
            out.append("logi(%d, file_position(%s%s));" % (self.op(k, f, origin=g), ref, "" if g == "begin" and r.random() < .5 else ", file_origin_" + g))
        elif k == "rewind":
            self.op(k, f); out.append("file_rewind(%s);" % ref); o["pos"] = 0
        elif k in ("seek", "truncate"):
            g = r.choice(["begin", "begin", "end", "current"])
            size = self.len[o["name"]]
            target = r.choice([0, size, r.randint(0, size), r.randint(0, size)])
            n = target - {"begin": 0, "current": o["pos"], "end": size}[g]
            self.op(k, f, n=n, origin=g)
            out.append("file_%s(%s, %d%s);" % (k, ref, n, "" if g == "begin" and r.random() < .5 else ", file_origin_" + g))
            if k == "seek":
                o["pos"] = target
            else:
                self.len[o["name"]] = target
                o["pos"] = min(o["pos"], target)
                o["clean"] = True
                if g == "end":      # where this leaves the position is not specified
                    o["pos"] = r.randint(0, target)
                    self.op("seek", f, n=o["pos"], origin="begin")
                    out.append("file_seek(%s, %d);" % (ref, o["pos"]))

    def wrong(self, f, out, ref):
        r = self.r
        o = self.o[f]
        self.feats["wrong operation"] += 1
        if o is None:
            k = r.choice(["read", "write", "endfile", "flush"] + (["mode", "rewind"] + (["size", "canseek", "position"] if self.size == 1 else []) if self.std == 2019 else []))
        elif o["mode"] == "read":
            k = "write"
        elif o["mode"] in ("write", "append"):
            k = "read"
        else:
            return
        if o is not None and self.text:
            return
        if k == "read":
            out.append(("rdarr(%d, %s, 1);" if self.stream else "rd(%d, %s);") % (self.op("read", f, n=1), ref))
        elif k == "write":
            v = self.val(r)
            while not v: v = self.val(r)
            self.op("write", f, v=v)
            out.append(("wr(%s, %s);" if self.text else "write(%s, %s);") % (ref, self.arrlit(v) if self.stream or self.text else "%s'(%s)" % (self.sub, self.lit(v)) if self.lit else ""))
        elif k == "endfile":
            out.append("logb(%d, endfile(%s));" % (self.op(k, f), ref))
        elif k in ("flush", "rewind"):
            self.op(k, f); out.append({"flush": "flush(%s);", "rewind": "file_rewind(%s);"}[k] % ref)
        elif k == "mode":
            out.append("logm(%d, file_mode(%s));" % (self.op(k, f), ref))
        elif k == "canseek":
            out.append("logb(%d, file_canseek(%s));" % (self.op(k, f), ref))
        else:
            out.append("logi(%d, file_%s(%s));" % (self.op(k, f, origin="begin"), k, ref))

    def run(self, n, out, refs, depth=0):
        r = self.r
        f = None
        for _ in range(n):
            if f is None or r.random() < .25:
                f = r.choice(list(refs))
            x = r.random()
            if x < .05 and not depth:
                # a procedure with a file object of its own, closed when it returns
                lf, d, sub = self.nobj, [], []
                decl = None
                if r.random() < .6:
                    if not self.openop(lf, [], "lf", declared=d): continue
                self.run(r.randint(1, 8), sub, {lf: "lf"}, 1)
                p = "p%d" % len(self.procs)
                self.procs.append("procedure %s is file lf : ft%s; variable st : file_open_status; begin\n%s\nend procedure;\n" % (p, d[0] if d else "", "\n".join(sub)))
                self.op("close", lf)
                self.o[lf] = None
                out.append("%s;" % p)
                self.feats["local object"] += 1
            elif x < .12:
                # operations through a file parameter
                sub = []
                self.run2(r.randint(1, 4), sub, f, "pf")
                p = "p%d" % len(self.procs)
                self.procs.append("procedure %s(file pf : ft) is variable st : file_open_status; begin\n%s\nend procedure;\n" % (p, "\n".join(sub)))
                out.append("%s(%s);" % (p, refs[f]))
                self.feats["file parameter"] += 1
            else:
                self.step(f, out, refs[f])
    def run2(self, n, out, f, ref):
        for _ in range(n):
            self.step(f, out, ref)

    def program(self):
        r = self.r
        decls = []
        shared = r.random() < .6
        for f in range(self.nobj):
            d = []
            if r.random() < .3:
                self.openop(f, [], "", declared=d); self.feats["opened by declaration"] += 1
            decls.append("file fo%d : ft%s;" % (f, d[0] if d else ""))
        refs = {f: "fo%d" % f for f in range(self.nobj)}
        nproc = r.randint(1, 3) if shared else 1
        bodies = [[] for _ in range(nproc)]
        times = [0] * nproc
        t = 0
        if self.many:
            self.feats["many files"] += 1
            for f in range(self.nobj):
                if self.o[f] is None:
                    self.openop(f, bodies[0], refs[f])
                self.step(f, bodies[0], refs[f])
        for _ in range(r.randint(1, 6)):
            t += 1
            p = r.randrange(nproc)
            bodies[p].append("wait for %d ns;" % (t - times[p]))
            times[p] = t
            self.run(r.randint(1, 12), bodies[p], refs)
        helpers = self.decl + "\ntype ft is file of %s;\n" % self.sub if not self.text else "alias ft is text;\n"
        helpers += IM.get(self.ty, "") + "\n" + LOGS + (LOGS19 if self.std == 2019 else "")
        if self.stream:
            helpers += '''procedure rdarr(id : integer; file f : ft; n : natural) is variable v : %s(1 to n); variable l : natural; variable o : line; begin
read(f, v, l); write(o, string'("L ")); write(o, id); write(o, ' '); write(o, l);
for i in 1 to l loop write(o, ' '); write(o, integer'(%s)); end loop;
report o.all; deallocate(o); end procedure;\n''' % (self.sub, "character'pos(v(i))" if self.ty == "str" else "v(i)")
        elif self.text:
            helpers += '''procedure rd(id : integer; file f : ft) is variable l, o : line; begin
readline(f, l); write(o, string'("L ")); write(o, id);
for i in l'range loop write(o, ' '); write(o, integer'(character'pos(l(i)))); end loop;
report o.all; deallocate(o); deallocate(l); end procedure;
procedure wr(file f : ft; s : string) is variable l : line; begin write(l, s); writeline(f, l); end procedure;\n'''
        else:
            helpers += '''procedure rd(id : integer; file f : ft) is variable v : %s; begin read(f, v); report "L " & integer'image(id) & " " & %s; end procedure;
procedure wrp(file f : ft; v : %s) is begin write(f, v); end procedure;\n''' % (self.sub, self.img % "v", self.sub)
        if shared:
            a = helpers + "\n".join(decls) + "\n" + "".join(self.procs)
            ps = ["process variable st : file_open_status; begin\n%s\nwait;\nend process;\n" % "\n".join(b) for b in bodies]
        else:
            a = helpers + "".join(self.procs)
            ps = ["process %s variable st : file_open_status; begin\n%s\nwait;\nend process;\n" % ("\n".join(decls), "\n".join(bodies[0]))]
        vhdl = "use std.textio.all;\nentity t is end entity;\narchitecture a of t is\n%s\nbegin\n%send architecture;\n" % (a, "".join(ps))
        case = {"ops": self.ops, "nobj": self.nobj + 1, "nname": self.nname, "pre": [int(p) for p in self.pre], "predata": self.predata,
                "stream": self.stream, "size": self.size or 1}
        return case, vhdl

ERR = [("closed", r"called on closed file|to closed file|from closed file|closed file"), ("open", "already associated"),
       ("name", "failed to open|empty file name"), ("mode", "write to file failed|read from file failed"), ("end", "end of file")]

def observe(g, vhdl, mode):
    import subprocess
    def prepare(d):
        for i, p in enumerate(g.pre):
            if p:
                with open(os.path.join(d, g.names[i]), "wb") as f:
                    for v in g.predata[i]:
                        f.write(encode(g, v))
    d = nvc.scratch()
    try:
        prepare(d)
        with open(os.path.join(d, "t.vhd"), "w") as f:
            f.write(vhdl)
        jit = mode != "aot"
        args = ["--std=%d" % g.std, "--messages=compact", "-a", "t.vhd", "-e"] + (["--jit", "--no-save"] if jit else []) + ["t", "-r", "t"]
        r = nvc.cmd(args, d, 60, {"NVC_JIT_THRESHOLD": "1", "NVC_JIT_ASYNC": "0"} if mode == "jit1" else None)
        log, err, odd = [], "", []
        for m in nvc.messages(r.out):
            t = m["text"]
            if m["sev"] == "note" and t.startswith("L "):
                log.append([int(x) for x in t.split()[1:]])
            elif m["sev"] in ("error", "fatal"):
                e = [k for k, p in ERR if re.search(p, t)]
                err = err or (e[0] if e else t)
            elif m["sev"] == "warning":
                odd.append(t)
        if r.rc and not err:
            err = "status %d" % r.rc
        disk = []
        for n in g.names if g.dec or g.text else []:
            p = os.path.join(d, n)
            if not os.path.exists(p):
                disk.append([0, []]); continue
            b = open(p, "rb").read()
            if g.text:
                ls = b.decode("latin1").split("\n")
                if ls[-1] != "": ls.append("<no newline>")
                disk.append([1, [[ord(c) for c in l] for l in ls[:-1]]])
            else:
                vs = [g.dec(b[i:i + g.size]) for i in range(0, len(b) // g.size * g.size, g.size)]
                if len(b) % g.size: vs.append([-12345])
                disk.append([1, vs])
        return log, err, disk, odd, r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def encode(g, v):
    if g.size == 1: return bytes(v)
    if g.ty in ("int", "ints", "arr2"): return b"".join(struct.pack("<q" if g.std == 2019 else "<i", x) for x in v)
    if g.ty == "time": return struct.pack("<q", v[0])
    return bytes(v)

def body(c):
    n = c.n(900, 20000)
    feat = collections.Counter()
    done = 0
    while done < n and c.left() > 0 and len(c.violations) < 3:
        k = min(300, n - done)
        gs = [G(c.rng) for _ in range(k)]
        progs = [g.program() for g in gs]
        modes = [c.rng.choice(["jit", "jit", "jit1", "aot"] if c.thorough else ["jit", "jit", "jit", "jit1", "aot"]) for _ in range(k)]
        res = list(c.pool.map(lambda i: observe(gs[i], progs[i][1], modes[i]), range(k)))
        cases = [dict(progs[i][0], log=res[i][0], err=res[i][1], disk=res[i][2]) for i in range(k)]
        v, tr = tlc.validate("File", cases)
        c.count(tr)
        c.traces += k
        done += k
        for i in range(k):
            feat.update(gs[i].feats)
            feat["engine " + modes[i]] += 1
            why = v[i]
            if res[i][4].crashed:
                why = "crashed"
            if why and len(c.violations) < 3:
                print("  rejected (%s, %s): %s" % (gs[i].ty, modes[i], str(why)[:600]))
                c.violation("case%d" % len(c.violations), {"why": why, "vhdl": progs[i][1], "std": gs[i].std, "type": gs[i].ty, "mode": modes[i],
                            "case": cases[i], "output": res[i][4].out[-3000:], "rc": res[i][4].rc})
        c.sample({"type": gs[0].ty, "ops": [[o["op"], o["f"], o["mode"]] for o in gs[0].ops][:12], "log": cases[0]["log"][:12], "err": cases[0]["err"]}, 2)
    c.cover["features"] = dict(feat)
    known.texts(c, lambda t: nvc.simulate(t, mode="jit").out)
    c.assumptions += ["a file that is open for writing is opened through another object only for reading and after a flush",
                      "files of unconstrained arrays other than TEXT are streams of elements (known finding array-lengths)",
                      "reading a value when endfile is true, truncation of files opened for reading and positions after truncation relative to the end are not generated"]

if __name__ == "__main__":
    check.main("C09", body, targets=("libs", "libs19"))
