#!/usr/bin/env python3
"""C08: access values and heap objects survive garbage collection."""
import collections, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vk import adt, build, check, nvc, tlc

# object 1: the variables of a process
ROOTS = [("p1", "cell"), ("p2", "cell"), ("p3", "cell"), ("p4", "cell"), ("ar(1)", "cell"), ("ar(2)", "cell"), ("rc.c", "cell"),
         ("v1", "vec"), ("v2", "vec"), ("rc.d", "vec"), ("pp1", "ptr"), ("pp2", "ptr"), ("st", "stack")]
FIELDS = {"cell": [("v", "int"), ("a", "cell"), ("b", "cell"), ("w", "vec")], "ptr": [("all", "cell")]}

PKG = """package pk is
  subtype val is integer range -5 to 100000;
  type cell;
  type cptr is access cell;
  type ivec is array (natural range <>) of val;
  type vptr is access ivec;
  type cell is record v : val; a, b : cptr; w : vptr; end record;
  type pptr is access cptr;
  type carr is array (1 to 2) of cptr;
  type rec is record k : integer; c : cptr; d : vptr; end record;
  type stack is protected
    procedure push (n : integer);
    procedure pop (n : out integer);
  end protected;
  impure function mk (n : integer) return cptr;
  procedure swap (x, y : inout cptr);
  procedure build (head : inout cptr; n, b : integer);
  procedure copy (x : inout cptr; variable y : in cptr; d : integer);
  procedure churn (n, k : integer);
  procedure walk (tag : string; variable c : in cptr; n : integer);
  procedure vecall (tag : string; variable v : in vptr);
  procedure vecsum (tag : string; variable v : in vptr);
  procedure say (tag : string; n : integer);
  impure function big (n, m : integer) return ivec;
end package;
use std.textio.all;
package body pk is
  type stack is protected body
    variable head : cptr;
    procedure push (n : integer) is begin head := new cell'(n, head, null, null); end;
    procedure pop (n : out integer) is begin n := head.v; head := head.a; end;
  end protected body;
  impure function mk (n : integer) return cptr is
    variable c : cptr := new cell;
  begin c.v := n; return c; end;
  procedure swap (x, y : inout cptr) is
    variable t : cptr := x;
  begin churn(3, 20); x := y; y := t; end;
  procedure build (head : inout cptr; n, b : integer) is
  begin
    for i in 0 to n - 1 loop
      head := new cell'(b + i, head, null, null);
    end loop;
  end;
  procedure copy (x : inout cptr; variable y : in cptr; d : integer) is
    variable l, m, p, q : cptr;
  begin
    if y = null or d = 0 then x := null; return; end if;
    p := y.a; q := y.b;
    copy(l, p, d - 1);
    churn(2, 10);
    copy(m, q, d - 1);
    x := new cell'(y.v, l, m, null);
  end;
  procedure churn (n, k : integer) is
    variable c : cptr; variable v : vptr; variable l : line;
  begin
    for i in 1 to n loop
      c := new cell'(7, c, null, v);
      v := new ivec(1 to k);
      v(k) := 9;
      if i mod 8 = 0 then c := null; end if;
      if i mod 5 = 0 then write(l, integer'image(i)); deallocate(v); end if;
    end loop;
  end;
  procedure walk (tag : string; variable c : in cptr; n : integer) is
    variable l : line; variable p : cptr := c;
  begin
    write(l, tag);
    for i in 1 to n loop
      exit when p = null;
      write(l, string'(" ")); write(l, p.v);
      p := p.a;
    end loop;
    report l.all;
  end;
  procedure vecall (tag : string; variable v : in vptr) is
    variable l : line;
  begin
    write(l, tag);
    for i in v'range loop write(l, string'(" ")); write(l, v(i)); end loop;
    report l.all;
    deallocate(l);
    assert l = null;
  end;
  procedure vecsum (tag : string; variable v : in vptr) is
    variable s : integer := 0;
  begin
    for i in v.all'range loop s := (s + v(i)) mod 10007; end loop;
    report tag & " " & integer'image(s) & " " & integer'image(v'length);
  end;
  procedure say (tag : string; n : integer) is begin report tag & " " & integer'image(n); end;
  impure function big (n, m : integer) return ivec is
    variable r : ivec(1 to n);
  begin
    for i in r'range loop r(i) := (m * i) mod 1009; end loop;
    churn(5, 30);
    return r;
  end;
end package body;
"""

class Dead(Exception):
    pass

class Proc:
    def __init__(self, r, k, errs):
        self.r, self.k, self.errs = r, k, errs
        self.h = [None, [0] * len(ROOTS)]
        self.dead = set()
        self.ops, self.text = [], []
        self.ended = False
        self.live = 0
    # shadow evaluation, to steer generation only
    def loc(self, p):
        l = (1, p[0])
        for f in p[1:]:
            x = self.h[l[0]][l[1] - 1]
            if x in self.dead:
                raise Dead()
            if x == 0:
                return None
            l = (x, f)
        return l
    def get(self, p):
        l = self.loc(p)
        return self.h[l[0]][l[1] - 1]
    def ref(self, p):
        x = self.get(p)
        if x in self.dead:
            raise Dead()
        return x
    def put(self, p, v):
        l = self.loc(p)
        self.h[l[0]][l[1] - 1] = v
    def new(self, o):
        self.h.append(list(o))
        return len(self.h) - 1
    def path(self, ty, nonnull=False, tries=40):
        r = self.r
        for _ in range(tries):
            i = r.randrange(len(ROOTS))
            n, t = ROOTS[i]
            p = [i + 1]
            try:
                while True:
                    if t == ty and (t == "int" or r.random() < .5):
                        if t != "int" and self.get(p) in self.dead:
                            break
                        if nonnull and self.get(p) == 0:
                            break
                        return p
                    if t not in FIELDS:
                        break
                    x = self.get(p)
                    if x in self.dead or x == 0 and not (self.errs and r.random() < .05):
                        break
                    f = r.randrange(len(FIELDS[t]))
                    if t == "cell" and ty == "cell" and r.random() < .7:
                        f = r.choice([1, 2])
                    p.append(f + 1)
                    t = FIELDS[t][f][1]
                    if x == 0:
                        return p if t == ty else None
            except Dead:
                pass
        return None
    def txt(self, p):
        n, t = ROOTS[p[0] - 1]
        for f in p[1:]:
            fn, ft = FIELDS[t][f - 1]
            n += "." + fn if t == "ptr" else self.r.choice([".", ".", ".all."]) + fn
            t = ft
        return n
    def val(self):
        return self.r.randint(0, 999)
    def emit(self, op, text, **kw):
        self.ops.append(dict({"op": op, "p": [1], "q": [1], "r": [1], "n": 0, "m": 1, "v": [], "f": []}, **kw))
        self.text.append(text)
    def tag(self):
        return '"L %d %d"' % (self.k, len(self.ops) + 1)
    def check_ok(self, *paths, deref=()):
        """False (and the program ends) if a null access value would be dereferenced"""
        for p in paths:
            if self.loc(p) is None:
                self.ended = True
        for p in deref:
            if self.loc(p) is None or self.get(p) == 0:
                self.ended = True
        return not self.ended
    def step(self):
        r = self.r
        op = r.choices(["set", "null", "free", "int", "new", "newvec", "newcopy", "copyall", "cat", "swap", "list", "copy", "vecset", "push", "pop",
                        "log", "isnull", "eq", "walk", "vecall", "vecsum", "vecget", "churn", "wait", "newpp", "bigvec"],
                       [8, 2, 3, 4, 9, 4, 3, 2, 3, 4, 4, 2, 4, 3, 2, 7, 2, 3, 6, 3, 3, 2, 7, 4, 2, 1])[0]
        nn = not self.errs or r.random() < .9
        P = self.path
        T = self.txt
        if op in ("set", "null", "free", "isnull"):
            ty = r.choice(["cell", "cell", "cell", "vec", "ptr"])
            p = P(ty)
            if not p:
                return
            if op == "set":
                q = P(ty)
                if not q:
                    return
                self.emit("set", "%s := %s;" % (T(p), T(q)), p=p, q=q)
                if self.check_ok(p, q):
                    self.put(p, self.ref(q))
            elif op == "null":
                self.emit("null", "%s := null;" % T(p), p=p)
                if self.check_ok(p):
                    self.put(p, 0)
            elif op == "free":
                self.emit("free", "deallocate(%s);" % T(p), p=p)
                if self.check_ok(p):
                    x = self.get(p)
                    if x:
                        self.dead.add(x)
                    self.put(p, 0)
            else:
                self.emit("isnull", "say(%s, boolean'pos(%s = null));" % (self.tag(), T(p)), p=p)
                self.check_ok(p)
        elif op == "eq":
            ty = r.choice(["cell", "cell", "vec"])
            p, q = P(ty), P(ty)
            if p and q:
                self.emit("eq", "say(%s, boolean'pos(%s = %s));" % (self.tag(), T(p), T(q)), p=p, q=q)
                self.check_ok(p, q)
        elif op == "int":
            p = P("int")
            if p:
                n = self.val()
                self.emit("int", "%s := %d;" % (T(p), n), p=p, n=n)
                if self.check_ok(p):
                    self.put(p, n)
        elif op == "log":
            p = P("int")
            if p:
                self.emit("log", "say(%s, %s);" % (self.tag(), T(p)), p=p)
                self.check_ok(p)
        elif op == "new":
            p = P("cell")
            if not p:
                return
            n = self.val()
            k = r.randrange(5)
            if k == 4:     # no initial value
                f = [{"k": "int", "n": -5, "p": [1]}] + [{"k": "null", "n": 0, "p": [1]}] * 3
                self.emit("new", "%s := new cell;" % T(p), p=p, f=f)
                if self.check_ok(p):
                    self.put(p, self.new([-5, 0, 0, 0]))
                return
            if k == 0:
                f = [{"k": "int", "n": n, "p": [1]}] + [{"k": "null", "n": 0, "p": [1]}] * 3
                self.emit("new", "%s := mk(%d);" % (T(p), n), p=p, f=f)
                if self.check_ok(p):
                    self.put(p, self.new([n, 0, 0, 0]))
                return
            f, t, o, paths = [{"k": "int", "n": n, "p": [1]}], [str(n)], [n], []
            for ty in ("cell", "cell", "vec"):
                q = P(ty) if r.random() < .7 else None
                if q:
                    if self.loc(q) is None:
                        return
                    f.append({"k": "path", "n": 0, "p": q})
                    t.append(T(q))
                    o.append(self.ref(q))
                else:
                    f.append({"k": "null", "n": 0, "p": [1]})
                    t.append("null")
                    o.append(0)
            self.emit("new", "%s := new cell'(%s);" % (T(p), ", ".join(t)), p=p, f=f)
            if self.check_ok(p):
                self.put(p, self.new(o))
        elif op == "newpp":
            p, q = P("ptr"), P("cell")
            if p and r.random() < 0.3:
                self.emit("new", "%s := new cptr;" % T(p), p=p, f=[{"k": "null", "n": 0, "p": [1]}])
                if self.check_ok(p):
                    self.put(p, self.new([0]))
            elif p and q and self.loc(q) is not None:
                self.emit("new", "%s := new cptr'(%s);" % (T(p), T(q)), p=p, f=[{"k": "path", "n": 0, "p": q}])
                if self.check_ok(p):
                    self.put(p, self.new([self.ref(q)]))
        elif op == "newvec":
            p = P("vec")
            if not p:
                return
            n = r.choice([1, 2, 3, 7, 8, 9, 20])
            if r.random() < .3:
                v = [-5] * n
                t = "new ivec(1 to %d)" % n if r.random() < .5 else "new ivec(%d downto 3)" % (n + 2)
            else:
                v = [self.val() for _ in range(n)]
                t = "new ivec'(%s)" % (", ".join(map(str, v)) if n > 1 else "0 => %d" % v[0])
            self.emit("newvec", "%s := %s;" % (T(p), t), p=p, v=v)
            if self.check_ok(p):
                self.put(p, self.new(v))
        elif op == "bigvec":
            p = P("vec")
            if p:
                n, m = r.choice([200, 500, 1000, 3000]), r.randint(1, 1000)
                self.emit("bigvec", "%s := new ivec'(big(%d, %d));" % (T(p), n, m), p=p, n=n, m=m)
                if self.check_ok(p):
                    self.put(p, self.new([(m * i) % 1009 for i in range(1, n + 1)]))
        elif op == "newcopy":
            ty = r.choice(["cell", "vec"])
            p, q = P(ty), P(ty, nn)
            if p and q:
                self.emit("newcopy", "%s := new %s'(%s.all);" % (T(p), {"cell": "cell", "vec": "ivec"}[ty], T(q)), p=p, q=q)
                if self.check_ok(p, q, deref=[q]):
                    self.put(p, self.new(self.h[self.ref(q)]))
        elif op == "copyall":
            p, q = P("cell", nn), P("cell", nn)
            if p and q:
                self.emit("copyall", "%s.all := %s.all;" % (T(p), T(q)), p=p, q=q)
                if self.check_ok(p, q, deref=[p, q]):
                    self.h[self.ref(p)] = list(self.h[self.ref(q)])
        elif op == "cat":
            p, q, s = P("vec"), P("vec", nn), P("vec", nn)
            if p and q and s:
                if self.check_ok(p, q, s, deref=[q, s]):
                    if len(self.h[self.ref(q)]) + len(self.h[self.ref(s)]) > 200:
                        return
                    x = self.new(self.h[self.ref(q)] + self.h[self.ref(s)])
                self.emit("cat", "%s := new ivec'(%s.all & %s.all);" % (T(p), T(q), T(s)), p=p, q=q, r=s)
                if not self.ended:
                    self.put(p, x)
        elif op == "swap":
            p, q = P("cell"), P("cell")
            if p and q and self.loc(p) != self.loc(q):
                self.emit("swap", "swap(%s, %s);" % (T(p), T(q)), p=p, q=q)
                if self.check_ok(p, q):
                    a, b, x, y = self.loc(p), self.loc(q), self.ref(p), self.ref(q)
                    self.h[a[0]][a[1] - 1], self.h[b[0]][b[1] - 1] = y, x
        elif op == "list":
            p = P("cell")
            if p:
                n, b = r.randint(1, 8), self.val()
                self.emit("list", "build(%s, %d, %d);" % (T(p), n, b), p=p, n=n, m=b)
                if self.check_ok(p):
                    l = self.loc(p)
                    for i in range(n):
                        x = self.new([b + i, self.h[l[0]][l[1] - 1], 0, 0])
                        self.h[l[0]][l[1] - 1] = x
        elif op in ("copy", "walk"):
            q = P("cell")
            if not q:
                return
            d = r.randint(1, 5) if op == "copy" else r.randint(1, 30)
            if not self.check_ok(q):
                self.ended = False
                return
            def cp(x, d):
                if x in self.dead:
                    raise Dead()
                if x == 0 or d == 0:
                    return 0
                a = cp(self.h[x][1], d - 1)
                b = cp(self.h[x][2], d - 1) if op == "copy" else 0
                return self.new([self.h[x][0], a, b, 0])
            n = len(self.h)
            c = cp(self.ref(q), d)
            if op == "walk":
                del self.h[n:]
                self.emit("walk", "walk(%s, %s, %d);" % (self.tag(), T(q), d), p=q, n=d)
                return
            p = P("cell")
            if not p or self.loc(p) == self.loc(q) or self.loc(p) is None or self.loc(p)[0] >= n:
                del self.h[n:]
                return
            self.emit("copy", "copy(%s, %s, %d);" % (T(p), T(q), d), p=p, q=q, n=d)
            self.put(p, c)
        elif op in ("vecset", "vecget", "vecall", "vecsum"):
            p = P("vec", nn)
            if not p:
                return
            if not self.check_ok(p, deref=[p]):
                i = m = 1
                big = False
            else:
                o = self.h[self.ref(p)]
                m = r.randint(1, len(o))
                big = len(o) > 40
            idx = "%s(%s.all'left + %d)" % (T(p), T(p), m - 1) if True else ""
            x = T(p)
            idx = "%s(minimum(%s'left, %s'right) + %d)" % (x, x, x, m - 1)
            # elements of a descending vector are numbered from the left
            idx = "%s(%s'left + boolean'pos(%s'ascending) * %d - boolean'pos(not %s'ascending) * %d)" % (x, x, x, m - 1, x, m - 1)
            n = self.val()
            if op == "vecset":
                self.emit(op, "%s := %d;" % (idx, n), p=p, m=m, n=n)
                if not self.ended:
                    o[m - 1] = n
            elif op == "vecget":
                self.emit(op, "say(%s, %s);" % (self.tag(), idx), p=p, m=m)
            elif op == "vecall" and not big:
                self.emit(op, "vecall(%s, %s);" % (self.tag(), x), p=p)
            else:
                self.emit("vecsum", "vecsum(%s, %s);" % (self.tag(), x), p=p)
        elif op in ("push", "pop"):
            p = [len(ROOTS)]
            n = self.val()
            if op == "push":
                self.emit(op, "st.push(%d);" % n, p=p, n=n)
                self.put(p, self.new([n, self.get(p), 0, 0]))
            elif self.get(p) != 0 or self.errs:
                self.emit(op, "st.pop(i); say(%s, i);" % self.tag(), p=p)
                if self.check_ok(p, deref=[p]):
                    self.put(p, self.h[self.get(p)][1])
        elif op == "churn":
            self.emit(op, "churn(%d, %d);" % (r.choice([20, 300, 1500, 4000]), r.choice([1, 5, 60])))
        elif op == "wait":
            self.emit("churn", "wait for %d ns;" % r.randint(1, 3))
    def run(self, n):
        c = 0
        while len(self.ops) < n and not self.ended and c < 10 * n:
            c += 1
            k = len(self.ops)
            try:
                self.step()
            except Dead:
                del self.ops[k:], self.text[k:]
        return self
    def vhdl(self):
        return "  process\n    variable p1, p2, p3, p4 : cptr;\n    variable ar : carr;\n    variable rc : rec;\n    variable v1, v2 : vptr;\n" \
               "    variable pp1, pp2 : pptr;\n    variable st : stack;\n    variable i : integer;\n  begin\n" + \
               "".join("    %s\n" % t for t in self.text) + "    wait;\n  end process;\n"

def program(r):
    errs = r.random() < .12
    procs = [Proc(r, k + 1, errs).run(r.choice([20, 40, 60])) for k in range(1 if errs else r.choice([1, 2, 3]))]
    v = PKG + "use work.pk.all;\nentity t is end;\narchitecture a of t is\nbegin\n" + "".join(p.vhdl() for p in procs) + "end;\n"
    return procs, v

SMALL = ["-H", "320k"]
MODES = [("interp-small", dict(mode="jit", glob=SMALL, extra_env={"NVC_JIT_THRESHOLD": "0"})),
         ("llvm-small", dict(mode="jit", glob=SMALL, extra_env={"NVC_JIT_THRESHOLD": "1", "NVC_JIT_ASYNC": "0"})),
         ("aot-small", dict(mode="aot1", glob=SMALL)),
         ("async-small", dict(mode="jit", glob=SMALL, extra_env={"NVC_JIT_THRESHOLD": "5", "NVC_MAX_THREADS": "4"})),
         ("interp", dict(mode="jit", extra_env={"NVC_JIT_THRESHOLD": "0"}))]

def observe(v, nproc, nops, mode):
    r = nvc.simulate(v, timeout=120, **mode)
    obs = [[[] for _ in range(n)] for n in nops]
    err = ""
    for m in nvc.messages(r.out):
        if m["sev"] == "note" and m["text"].startswith("L "):
            x = [int(y) for y in m["text"][2:].split()]
            obs[x[0] - 1][x[1] - 1] = x[2:]
        elif m["sev"] in ("error", "fatal", "failure") and not err:
            err = "null" if "null access dereference" in m["text"] else m["text"]
    if r.rc != 0 and not err:
        err = "exit %d: %s" % (r.rc, r.out[-300:])
    return obs, err, r.out

def alloc_case(r):
    """Operations on the allocator: clusters of linked objects behind roots, dropped and rebuilt."""
    heap = r.choice([4096, 8192, 16384, 65536]) + r.choice([0, 0, 32, 40])
    total = (heap + 31) // 32 - 1
    lim = total // 10          # lines of a cluster
    ops, nid = [], 0
    cl = {}                    # root -> list of (id, size, nlinks, seed, links)
    def op(c, *a):
        ops.append({"f": "ms", "c": c, "a": list(a)})
    if r.random() < 0.1:
        heap = 262144
        total = heap // 32 - 1
        lim = total // 10
    sizes = r.choice([[1, 8, 24], [31, 32, 33], [8, 40, 100], [200, 500], [1, 24, 63, 64, 65, 300]])
    if heap == 262144:
        sizes = [1, 100, 2100, 5000, 9000]
    def new(k):
        nonlocal nid
        size = min(r.choice(sizes), (lim - 1) * 32)
        nl = min(size // 8, r.randrange(3))
        o = {"id": nid, "size": size, "nl": nl, "seed": r.randrange(200), "links": {}}
        op("alloc", nid, size); nid += 1
        op("fill", o["id"], nl, o["seed"])
        return o
    def reach(k):
        if k not in cl or cl[k]["root"] is None:
            return []
        seen, todo = {}, [cl[k]["root"]]
        while todo:
            x = todo.pop()
            if x["id"] not in seen:
                seen[x["id"]] = x
                todo += [y for y in x["links"].values()]
        return list(seen.values())
    inner = lambda o: r.choice([0, 0, o["size"], o["size"] - 1, r.randrange(o["size"] + 1)])
    n = r.choice([40, 120, 250])
    used = {}
    while len(ops) < n:
        k = r.randrange(4)
        live = reach(k)
        x = r.random()
        if x < 0.5:
            o = new(k)
            lines = lambda y: (y["size"] + 32) // 32
            slots = [(y, s) for y in live for s in range(y["nl"])]
            if not slots or sum(map(lines, live)) + lines(o) > lim or used.get(k, 0) + lines(o) > lim or r.random() < 0.1:
                used[k] = lines(o)           # a new cluster; it may take over the old one
                if o["nl"] and live and used[k] + sum(map(lines, live)) < lim and r.random() < 0.5:
                    y = r.choice(live)
                    op("link", o["id"], 0, y["id"], inner(y)); o["links"][0] = y
                    used[k] = used.get(k, 0) + sum(map(lines, live))
                op("root", k, o["id"], inner(o))
                cl[k] = {"root": o}
            else:
                y, s = r.choice(slots)
                op("link", y["id"], s, o["id"], inner(o)); y["links"][s] = o
                used[k] = used.get(k, 0) + lines(o)
        elif x < 0.6 and live:
            y = r.choice(live)
            if y["nl"]:
                s, z = r.randrange(y["nl"]), r.choice(live + [None])
                op("link", y["id"], s, z["id"] if z else -1, inner(z) if z else 0)
                if z: y["links"][s] = z
                else: y["links"].pop(s, None)
        elif x < 0.65:
            op("root", k, -1, 0)
            cl.pop(k, None)
        elif x < 0.72 and live:
            y = r.choice(live)
            op("find", y["id"], r.choice([0, y["size"], r.randrange(y["size"] + 1)]))
        elif x < 0.8:
            op("churn", r.choice([1, 20, total]), r.choice([1, 8, 31, 32, 100]))
        elif live:
            for y in live:
                op("check", y["id"], y["nl"], y["seed"])
    for k in range(4):
        for y in reach(k):
            op("check", y["id"], y["nl"], y["seed"])
            op("find", y["id"], y["size"])
    return heap, ops

def allocator(c, feat, n):
    cs = [alloc_case(c.rng) for _ in range(n)]
    res = list(c.pool.map(lambda h: adt.run(["ms_new %d" % h[0]] + ["ms_%s %s" % (o["c"], " ".join(map(str, o["a"]))) for o in h[1]], 60), cs))
    cases = [{"heap": (h[0] + 31) // 32 * 32, "ops": h[1][:len(o)], "obs": o[1:]} for h, (o, why) in zip(cs, res)]
    verdicts, r = tlc.validate("Mspace", cases)
    c.count(r)
    c.traces += n
    for h in cs:
        feat.update("allocator " + o["c"] for o in h[1])
    feat["allocator out of memory"] += sum(1 for o, _ in res for x in o if x == [-2])
    for j, why in sorted(verdicts.items()):
        if (why or res[j][1]) and len(c.violations) < 3:
            print("  allocator rejected:", str(why)[:500], res[j][1])
            c.violation("alloc%d" % len(c.violations), {"why": why, "status": res[j][1], "case": cases[j]})

def body(c):
    feat = collections.Counter()
    for _ in range(c.n(1, 40)):
        allocator(c, feat, 100)
    done, n = 0, c.n(180, 4000)
    while done < n and c.left() > 0 and len(c.violations) < 3:
        k = min(30, n - done)
        ps = [program(c.rng) for _ in range(k)]
        jobs = [(i, MODES[(done + i + j) % len(MODES)]) for i in range(k) for j in range(2)]
        res = list(c.pool.map(lambda j: observe(ps[j[0]][1], len(ps[j[0]][0]), [len(p.ops) for p in ps[j[0]][0]], j[1][1]), jobs))
        cases, who, seen = [], [], {}
        for (i, (mn, m)), (obs, err, out) in zip(jobs, res):
            feat["mode " + mn] += 1
            feat["error " + err[:30]] += 1
            c.traces += 1
            if repr((i, obs, err)) in seen:
                continue
            seen[repr((i, obs, err))] = 1
            for p, o in zip(ps[i][0], obs):
                cases.append({"ops": p.ops, "obs": o, "err": err, "init": [[0] * len(ROOTS)]})
                who.append((i, mn, m, out))
        for i in range(k):
            for p in ps[i][0]:
                feat.update("op " + o["op"] for o in p.ops)
        done += k
        verdicts, r = tlc.validate("HeapTrace", cases)
        c.count(r)
        for j, why in sorted(verdicts.items()):
            if why and len(c.violations) < 3:
                i, mn, m, out = who[j]
                print("  rejected (%s): %s" % (mn, str(why)[:500]))
                c.violation("case%d" % len(c.violations), {"mode": mn, "why": why, "vhdl": ps[i][1], "case": cases[j], "output": out[-3000:]})
            elif not why:
                c.sample({"mode": who[j][1], "ops": cases[j]["ops"][:4], "obs": cases[j]["obs"][:4]}, 2)
    c.cover["features"] = dict(feat)
    c.cover["programs"] = done

if __name__ == "__main__":
    check.main("C08", body, targets=("libs", "adt"))
