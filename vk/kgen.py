"""Random designs for the kernel specification (Kernel.tla): builds, side by side, the case
record the specification interprets and the VHDL text nvc simulates."""
import re
from . import nvc

STD = "UX01ZWLH-"
T4 = ["A0", "A1", "A2", "A3"]
RES_TYPES = {"int": {"none": "integer", "sum": "rsum", "max": "rmax"},
             "std": {"none": "std_ulogic", "std": "std_logic"},
             "enum": {"none": "t4", "enum": "rt4"},
             "real": {"none": "real"}}
VEC_TYPES = {"int": {"none": "ivec", "sum": "rsum_vec", "max": "rmax_vec"},
             "std": {"none": "std_ulogic_vector", "std": "std_logic_vector"},
             "enum": {"none": "t4v", "enum": "rt4_vec"},
             "real": {"none": "real_vector"}}
BASE = {"real": "real", "int": "integer", "std": "std_ulogic", "enum": "t4"}

PACKAGE = """
library ieee; use ieee.std_logic_1164.all;
package p is
  type ivec is array (natural range <>) of integer;
  function res_sum(x : ivec) return integer;
  function res_max(x : ivec) return integer;
  subtype rsum is res_sum integer;
  subtype rmax is res_max integer;
  subtype rsum_vec is (res_sum) ivec;
  subtype rmax_vec is (res_max) ivec;
  type t4 is (A0, A1, A2, A3);
  type t4v is array (natural range <>) of t4;
  function res_t4(x : t4v) return t4;
  subtype rt4 is res_t4 t4;
  subtype rt4_vec is (res_t4) t4v;
  function L(x : integer) return string;
  function L(x : boolean) return string;
  function L(x : std_ulogic) return string;
  function L(x : t4) return string;
  function L(x : time) return string;
  function L(x : real) return string;
  function L(x : bit) return string;
  function cv_id(x : integer) return integer;
  function cv_inv(x : integer) return integer;
  function cv_dbl(x : integer) return integer;
  function cv_half(x : integer) return integer;
  function cv_not(x : std_ulogic) return std_ulogic;
  function cv_rot(x : t4) return t4;
  function cv_unrot(x : t4) return t4;
  function cvv_id(x : ivec) return ivec;
  function cvv_inv(x : ivec) return ivec;
  function cvv_dbl(x : ivec) return ivec;
  function cvv_half(x : ivec) return ivec;
  function cvv_not(x : std_ulogic_vector) return std_ulogic_vector;
  function cvv_rot(x : t4v) return t4v;
  function cvv_unrot(x : t4v) return t4v;
end package;
package body p is
  function res_sum(x : ivec) return integer is
    variable r : integer := 0;
  begin
    for i in x'range loop r := r + x(i); end loop;
    return r + 100 * x'length;
  end;
  function res_max(x : ivec) return integer is
    variable r : integer := -1000000;
  begin
    if x'length = 0 then return 50; end if;
    for i in x'range loop if x(i) > r then r := x(i); end if; end loop;
    return r;
  end;
  function res_t4(x : t4v) return t4 is
  begin
    if x'length = 0 then return A3; end if;
    for i in x'range loop if x(i) /= x(x'left) then return A0; end if; end loop;
    return x(x'left);
  end;
  function L(x : integer) return string is begin return " " & integer'image(x); end;
  function L(x : boolean) return string is begin return L(boolean'pos(x)); end;
  function L(x : std_ulogic) return string is begin return L(std_ulogic'pos(x)); end;
  function L(x : t4) return string is begin return L(t4'pos(x)); end;
  -- reals are half-integers, numbered 0.5 => 0, 1.5 => 1, ...
  function L(x : real) return string is begin return L(integer(2.0 * x - 1.0) / 2); end;
  function L(x : bit) return string is begin return L(bit'pos(x)); end;
  function L(x : time) return string is
  begin
    if x > 1 sec then return L(integer'(-1)); end if;
    return L(x / 1 ns);
  end;
  function cv_id(x : integer) return integer is begin return x; end;
  function cv_inv(x : integer) return integer is begin return 100 - x; end;
  function cv_dbl(x : integer) return integer is begin return 2 * x; end;
  function cv_half(x : integer) return integer is begin
    if x < 0 then return (x - 1) / 2; else return x / 2; end if; end;
  function cv_not(x : std_ulogic) return std_ulogic is begin return not x; end;
  function cv_rot(x : t4) return t4 is begin return t4'val((t4'pos(x) + 1) mod 4); end;
  function cv_unrot(x : t4) return t4 is begin return t4'val((t4'pos(x) + 3) mod 4); end;
  function cvv_id(x : ivec) return ivec is variable r : ivec(x'range); begin for i in x'range loop r(i) := cv_id(x(i)); end loop; return r; end;
  function cvv_inv(x : ivec) return ivec is variable r : ivec(x'range); begin for i in x'range loop r(i) := cv_inv(x(i)); end loop; return r; end;
  function cvv_dbl(x : ivec) return ivec is variable r : ivec(x'range); begin for i in x'range loop r(i) := cv_dbl(x(i)); end loop; return r; end;
  function cvv_half(x : ivec) return ivec is variable r : ivec(x'range); begin for i in x'range loop r(i) := cv_half(x(i)); end loop; return r; end;
  function cvv_not(x : std_ulogic_vector) return std_ulogic_vector is variable r : std_ulogic_vector(x'range); begin for i in x'range loop r(i) := cv_not(x(i)); end loop; return r; end;
  function cvv_rot(x : t4v) return t4v is variable r : t4v(x'range); begin for i in x'range loop r(i) := cv_rot(x(i)); end loop; return r; end;
  function cvv_unrot(x : t4v) return t4v is variable r : t4v(x'range); begin for i in x'range loop r(i) := cv_unrot(x(i)); end loop; return r; end;
end package body;
"""

def lit(ty, v):
    if ty == "int":
        return str(v) if v >= 0 else "integer'(%d)" % v
    if ty == "std":
        return "std_ulogic'('%s')" % STD[v]
    if ty == "enum":
        return T4[v]
    if ty == "real":
        return "real'(%d.5)" % v if v >= 0 else "real'(-%d.5)" % (-v - 1)
    if ty == "bool":
        return "true" if v else "false"

class Sig:
    """A signal: scalar (width 0) or array."""
    def __init__(self, b, name, ty, res="none", width=0, kind="none", downto=False, init=None):
        self.b, self.name, self.ty, self.res, self.width, self.kind = b, name, ty, res, width, kind
        self.downto = downto
        n = width or 1
        self.init = init if init is not None else [b.rval(ty) for _ in range(n)]
        self.nets = [b.net(self.init[i], res, kind) for i in range(n)]
    def index(self, k):
        """VHDL index of the k-th element (left to right)."""
        return self.width - 1 - k if self.downto else k
    def elem(self, k):
        return "%s(%d)" % (self.name, self.index(k)) if self.width else self.name
    def type_name(self):
        if not self.width:
            return RES_TYPES[self.ty][self.res]
        return "%s(%s)" % (VEC_TYPES[self.ty][self.res],
                           "%d downto 0" % (self.width - 1) if self.downto else "0 to %d" % (self.width - 1))
    def init_text(self):
        if not self.width:
            return lit(self.ty, self.init[0])
        return "(" + ", ".join("%d => %s" % (self.index(k), lit(self.ty, v)) for k, v in enumerate(self.init)) + ")"
    def decl(self):
        k = " " + self.kind if self.kind != "none" else ""
        return "signal %s : %s%s := %s;" % (self.name, self.type_name(), k, self.init_text())

class Builder:
    def __init__(self, rng):
        self.r = rng
        self.nets, self.drivers, self.procs, self.imps = [], [], [], []
        self.sigs = []
        self.impkey = {}
        self.features = set()
    # -- nets ------------------------------------------------------------
    def rval(self, ty):
        return self.r.choice({"int": range(-2, 6), "real": range(-2, 6), "std": range(9), "enum": range(4), "bool": range(2)}[ty])
    def net(self, init, res="none", kind="none"):
        self.nets.append({"init": init, "src": [], "res": res, "kind": kind, "up": {"i": 0, "f": "id"}})
        return len(self.nets)
    def signal(self, *a, **k):
        s = Sig(self, "s%d" % (len(self.sigs) + 1), *a, **k)
        self.sigs.append(s)
        return s
    def driver(self, p, net, init=None):
        for d in self.drivers:
            if d["p"] == p and d["n"] == net:
                return
        self.drivers.append({"p": p, "n": net, "init": self.nets[net - 1]["init"] if init is None else init})
        self.nets[net - 1]["src"].append({"k": "d", "i": len(self.drivers), "f": "id"})
    def imp(self, kind, nets, t):
        key = (kind, tuple(nets), t)
        if key not in self.impkey:
            self.imps.append({"kind": kind, "nets": list(nets), "t": t})
            self.impkey[key] = len(self.imps)
        return self.impkey[key]
    # -- case ------------------------------------------------------------
    def case(self, tend):
        order = self.drive_order()
        return {"nets": self.nets, "drivers": self.drivers, "imps": self.imps, "tend": tend,
                "procs": [{"code": p.code, "post": p.post, "nv": p.nv} for p in self.procs],
                "dord": order, "eord": list(reversed(order))}
    def drive_order(self):
        done, order = set(), []
        def visit(n):
            if n in done:
                return
            done.add(n)
            for s in self.nets[n - 1]["src"]:
                if s["k"] == "n":
                    for x in s.get("g", [s["i"]]):
                        visit(x)
            order.append(n)
        for n in range(1, len(self.nets) + 1):
            visit(n)
        # the effective order must visit an actual before the formals that follow it
        eff, seen = [], set()
        def up(n):
            if n in seen:
                return
            seen.add(n)
            u = self.nets[n - 1]["up"]
            if u["i"]:
                for x in u.get("g", [u["i"]]):
                    up(x)
            eff.append(n)
        for n in range(1, len(self.nets) + 1):
            up(n)
        self.eff = eff
        return order
    def final(self, tend):
        c = self.case(tend)
        c["eord"] = self.eff
        return c

class Proc:
    """Generates one process: VHDL text and instruction sequence in step."""
    def __init__(self, b, post=False, name=None):
        self.b, self.r, self.post = b, b.r, post
        b.procs.append(self)
        self.id = len(b.procs)
        self.name = name or "pr%d" % self.id
        self.code, self.text, self.nv, self.ind = [], [], 0, 2
        self.logs = 0
        self.decls = []
        self.sens = ""
    def out(self, s):
        self.text.append("  " * self.ind + s)
    def emit(self, *ins):
        self.code.append(list(ins))
        return len(self.code)
    def here(self):
        return len(self.code) + 1
    def var(self, init=None):
        self.nv += 1
        self.decls.append("variable v%d : integer := 0;" % self.nv)
        return self.nv
    # -- statements --------------------------------------------------------
    def log(self, exprs):
        """exprs: list of (type, ast, text)."""
        self.logs += 1
        self.emit("log", self.logs, [e[1] for e in exprs])
        self.out('report "@%d %d"%s;' % (self.id, self.logs, "".join(" & L(%s)" % e[2] for e in exprs)))
    def assign(self, sig, mech, rej, elems, k=None, dyn=None):
        """elems: list of (value, delay expr); value None for null, a list for an aggregate, else an
        expression.  k: element index; dyn: (ast, text) run-time element index."""
        if dyn is not None or k is None:
            nets = sig.nets
        else:
            nets = [sig.nets[k]]
        for n in nets:
            self.b.driver(self.id, n)
        wf, tx = [], []
        for v, d in elems:
            if v is None:
                a, t = ["null"], "null"
            elif isinstance(v, list):
                a = ["agg", [x[1] for x in v]]
                t = "(" + ", ".join("%d => %s" % (sig.index(i), x[2]) for i, x in enumerate(v)) + ")"
            else:
                a, t = v[1], v[2]
            wf.append([a, d[1]])
            tx.append("%s after %s" % (t, self.dtext(d)))
        m = {"transport": "transport ", "inertial": ("inertial " if self.r.random() < .2 else ""),
             "reject": "reject %s inertial " % self.dtext(rej) if rej else ""}[mech]
        if len(elems) == 1 and elems[0][1][1] == ["c", 0] and self.r.random() < .7:
            tx = [tx[0].replace(" after 0 ns", "")]
        if dyn is not None:
            # array elements are numbered from the left; the text must give the matching index
            target = "%s(%s)" % (sig.name, dyn[2] if not sig.downto else "%d - (%s)" % (sig.width - 1, dyn[2]))
            self.emit("sigd", nets, mech, rej[1] if rej else ["c", 0], wf, dyn[1])
        else:
            target = sig.elem(k) if k is not None else sig.name
            self.emit("sig", nets, mech, rej[1] if rej else ["c", 0], wf)
        self.out("%s <= %s%s;" % (target, m, ", ".join(tx)))
    def dtext(self, d):
        return "%s ns" % d[2] if d[1][0] == "c" else "(%s) * 1 ns" % d[2]
    def wait(self, sigs=(), imps=(), cond=None, timeout=None, sens=None, auto=False):
        """sigs: list of (nets, text); imps: (index, text); cond: expression; auto: sensitivity comes
        from the condition (sens = its nets)."""
        nets = [n for s in sigs for n in s[0]] if not auto else sens
        self.emit("wait", sorted(set(nets)), [i[0] for i in imps] if not auto else [i[0] for i in imps],
                  cond[1] if cond else [], timeout[1] if timeout else [])
        t = "wait"
        if not auto and (sigs or imps):
            t += " on " + ", ".join([s[1] for s in sigs] + [i[1] for i in imps])
        if cond:
            t += " until " + cond[2]
        if timeout:
            t += " for " + self.dtext(timeout)
        self.out(t + ";")
    def end(self):
        pc = self.here()
        self.emit("wait", [], [], [], [])
        self.emit("jmp", pc)
        self.out("wait;")
    def loop(self, n, body):
        v = self.var()
        self.emit("set", v, ["c", 0])
        self.out("v%d := 0;" % v)
        top = self.here()
        self.out("while v%d < %d loop" % (v, n))
        j = self.emit("jz", ["<", ["v", v], ["c", n]], 0)
        self.ind += 1
        body(v)
        self.out("v%d := v%d + 1;" % (v, v))
        self.emit("set", v, ["+", ["v", v], ["c", 1]])
        self.ind -= 1
        self.emit("jmp", top)
        self.out("end loop;")
        self.code[j - 1][2] = self.here()
    def forever(self):
        self.emit("jmp", 1)
    def sensitivity(self, sigs):
        """Make this a process with a sensitivity list; sigs as for wait."""
        self.emit("wait", sorted(set(n for s in sigs for n in s[0])), [], [], [])
        self.emit("jmp", 1)
        self.sens = " (" + ", ".join(s[1] for s in sigs) + ")"
    def branch(self, cond, then, els=None):
        j = self.emit("jz", cond[1], 0)
        self.out("if %s then" % cond[2])
        self.ind += 1
        then()
        self.ind -= 1
        if els:
            k = self.emit("jmp", 0)
            self.code[j - 1][2] = self.here()
            self.out("else")
            self.ind += 1
            els()
            self.ind -= 1
            self.code[k - 1][1] = self.here()
        else:
            self.code[j - 1][2] = self.here()
        self.out("end if;")
    def set(self, v, e):
        self.emit("set", v, e[1])
        self.out("v%d := %s;" % (v, e[2]))
    def concurrent(self, target, source, mech, rej, d, tk=None, sk=None):
        """The concurrent assignment target <= mech source after d; tk, sk: element numbers."""
        m = {"transport": "transport ", "inertial": "", "reject": "reject %s ns inertial " % rej}[mech]
        tx = "%s <= %s%s%s;" % (target.name if tk is None else target.elem(tk), m,
                                source.name if sk is None else source.elem(sk), " after %d ns" % d if d or self.r.random() < .3 else "")
        tn = target.nets if tk is None else [target.nets[tk]]
        sn = source.nets if sk is None else [source.nets[sk]]
        for n in tn:
            self.b.driver(self.id, n)
        val = ["s", sn[0]] if len(sn) == 1 else ["agg", [["s", n] for n in sn]]
        self.emit("sig", tn, mech, ["c", rej or 0], [[val, ["c", d]]])
        self.emit("wait", sorted(sn), [], [], [])
        self.emit("jmp", 1)
        self.conc = tx
    def vhdl(self):
        if getattr(self, "conc", None):
            return ["  " + self.conc]
        return ["  %s: %sprocess%s" % (self.name, "postponed " if self.post else "", self.sens)] + \
               ["    " + d for d in self.decls] + ["  begin"] + self.text + ["  end process;"]

# -- expressions: (type, ast, text) ---------------------------------------------
def const(ty, v):
    return (ty, ["c", v], lit(ty, v))
def sread(sig, k=0):
    return (sig.ty, ["s", sig.nets[k]], sig.elem(k))
def sread_dyn(sig, e):
    idx = "%s" % e[2] if not sig.downto else "%d - (%s)" % (sig.width - 1, e[2])
    return (sig.ty, ["sd", sig.nets, e[1]], "%s(%s)" % (sig.name, idx))
def var(v):
    return ("int", ["v", v], "v%d" % v)
def op(o, a, b=None):
    if o == "not":
        return ("bool", ["not", a[1]], "(not %s)" % a[2])
    ty = "bool" if o in ("=", "<", "and", "or") else "int"
    return (ty, [o, a[1], b[1]], "(%s %s %s)" % (a[2], o, b[2]))
def attr(name, nets, text, ty="bool"):
    return (ty, [name, nets], "%s'%s" % (text, name))

def architecture(b, extra_decl=(), extra_stmt=(), entity="t", ports=""):
    t = ["library ieee; use ieee.std_logic_1164.all; use work.p.all;",
         "entity %s is %s end entity;" % (entity, ports), "architecture a of %s is" % entity]
    t += ["  " + s.decl() for s in b.sigs] + ["  " + x for x in extra_decl] + ["begin"]
    for p in b.procs:
        t += p.vhdl()
    t += ["  " + x for x in extra_stmt] + ["end architecture;"]
    return PACKAGE + "\n".join(t) + "\n"

def parse_log(out, nprocs):
    """Per-process logs from nvc's output; None if something other than our reports is in it."""
    logs = [[] for _ in range(nprocs)]
    bad = []
    for m in nvc.messages(out):
        if m["sev"] == "note" and m["text"].startswith("@"):
            f = m["text"][1:].split()
            if m["time"] is None or m["time"] % 10**6:
                bad.append(m["text"])
                continue
            logs[int(f[0]) - 1].append([m["time"] // 10**6, m["delta"]] + [int(x) for x in f[1:]])
        elif m["sev"] == "warning" and ("--shuffle" in m["text"] or "and no driver" in m["text"]):
            pass
        else:
            bad.append(m["text"])
    return logs, bad
