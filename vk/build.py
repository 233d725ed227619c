"""Builds nvc from /repo's current working tree into /verif/.build.

Own ninja file instead of the repository's autotools build: every C file below src/ is
compiled (a new file is picked up), the VHDL-2008 libraries are analysed by the resulting
binary, and harness programs link against all objects but nvc.o.  Sources are first copied
by content into .build/src, so that only files whose content changed get a new time stamp
and a copy of the sandbox with odd time stamps cannot lead to a stale object.
"""
import fcntl, os, shutil, subprocess, sys, hashlib, contextlib, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VK_REPO", "/repo")
B = os.environ.get("VK_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(B, "src")
OBJ = os.path.join(B, "obj")
NVC = os.path.join(B, "bin", "nvc")
LIB = os.path.join(B, "lib")

CFLAGS = ("-DHAVE_CONFIG_H -I{B}/gen -I{S} -I{S}/thirdparty -I{S}/src -w -mpopcnt -pthread "
          "-I/usr/include/capstone -I/usr/lib/llvm-18/include -D_GNU_SOURCE "
          "-D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "
          "-I/usr/include/tcl8.6 -O1 -g1")
LIBS = ("-lz -ldw -lelf -lffi -lcapstone -lzstd -ljansson -lLLVM-18 -ltcl8.6 -ltclstub8.6 "
        "-lm -lreadline")
GENERATED = {"src/lexer.c": "src/lexer.l", "src/vlog/vlog-pp.c": "src/vlog/vlog-pp.l"}

class BuildError(Exception):
    pass

def _sync():
    """Copy src, thirdparty, lib by content. Returns True if anything changed."""
    changed = False
    seen = set()
    for top in ("src", "thirdparty", "lib"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = [x for x in dirs if x not in (".deps", ".git")]
            rel = os.path.relpath(d, REPO)
            os.makedirs(os.path.join(SRC, rel), exist_ok=True)
            for f in files:
                r = os.path.join(rel, f)
                if r in GENERATED or f.endswith((".o", ".lo", ".swp", "~")):
                    continue
                seen.add(r)
                s, t = os.path.join(d, f), os.path.join(SRC, r)
                try:
                    a = open(s, "rb").read()
                except OSError:
                    continue
                try:
                    b = open(t, "rb").read()
                except OSError:
                    b = None
                if a != b:
                    with open(t, "wb") as fh:
                        fh.write(a)
                    changed = True
    for d, dirs, files in os.walk(SRC):
        for f in files:
            r = os.path.relpath(os.path.join(d, f), SRC)
            if r not in seen:
                os.unlink(os.path.join(SRC, r))
                changed = True
    return changed

def _write(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)

STD08 = [
    # (name, work, [bootstrap] files)
    ("std1", "std.08", "--bootstrap", ["lib/std.08/standard.vhd"], []),
    ("std2", "std.08", "", ["lib/std/standard-body.vhd"], ["std1"]),
    ("std3", "std.08", "", ["lib/std.08/textio.vhd", "lib/std.08/env.vhd", "lib/std.08/env-body.vhd"], ["std2"]),
    ("ieee1", "ieee.08", "", ["lib/ieee.08/std_logic_1164.vhdl", "lib/ieee.08/std_logic_1164-body.vhdl"], ["std3"]),
    ("nvc1", "nvc.08", "", ["lib/nvc.08/polyfill.vhd", "lib/nvc/text_util.vhd", "lib/nvc/text_util-body.vhd",
                            "lib/nvc/sim_pkg.vhd", "lib/nvc/sim_pkg-body.vhd"], ["ieee1"]),
    ("std4", "std.08", "", ["lib/std/textio-body.vhd"], ["nvc1"]),
    ("psl", "nvc.08", "", ["lib/nvc/psl_support.vhd", "lib/nvc/psl_support-body.vhd"], ["std4"]),
    ("nvc2", "nvc.08", "", ["lib/nvc/verilog.vhd", "lib/nvc/verilog-body.vhd",
                            "lib/nvc/cover_pkg.vhd", "lib/nvc/cover_pkg-body.vhd",
                            "lib/nvc/random.vhd", "lib/nvc/random-body.vhd"], ["preload"]),
    ("ieee2", "ieee.08", "", ["lib/ieee.08/numeric_bit.vhdl", "lib/ieee.08/numeric_bit-body.vhdl",
                              "lib/ieee.08/numeric_std.vhdl", "lib/ieee.08/numeric_std-body.vhdl",
                              "lib/ieee.08/numeric_std_unsigned.vhdl", "lib/ieee.08/numeric_std_unsigned-body.vhdl",
                              "lib/ieee/math_real.vhdl", "lib/ieee/math_real-body.vhdl",
                              "lib/ieee.08/std_logic_textio.vhdl"], ["preload"]),
]

# only what VHDL-2019 designs that use std.env need
STD19 = [
    ("std1_19", "std.19", "--bootstrap", ["lib/std.19/standard.vhd"], []),
    ("std2_19", "std.19", "", ["lib/std/standard-body.vhd"], ["std1_19"]),
    ("std3_19", "std.19", "", ["lib/std.19/textio.vhdl", "lib/std.19/env.vhdl"], ["std2_19"]),
    ("ieee1_19", "ieee.19", "", ["lib/ieee.08/std_logic_1164.vhdl", "lib/ieee.08/std_logic_1164-body.vhdl"], ["std3_19"]),
    ("nvc1_19", "nvc.19", "", ["lib/nvc.08/polyfill.vhd", "lib/nvc/text_util.vhd", "lib/nvc/text_util-body.vhd",
                               "lib/nvc/sim_pkg.vhd", "lib/nvc/sim_pkg-body.vhd"], ["ieee1_19"]),
    ("std4_19", "std.19", "", ["lib/std/textio-body.vhd", "lib/std.19/env-body.vhd"], ["nvc1_19"]),
    ("nvc2_19", "nvc.19", "", ["lib/nvc/psl_support.vhd", "lib/nvc/psl_support-body.vhd"], ["std4_19"]),
]

def _ninja(harnesses):
    cf = CFLAGS.format(B=B, S=SRC)
    out = ["cflags = " + cf, "libs = " + LIBS, "",
           "rule cc", "  command = gcc $cflags $extra -MMD -MF $out.d -c -o $out $in",
           "  depfile = $out.d", "  deps = gcc",
           "rule link", "  command = gcc -pthread -L/usr/lib/llvm-18/lib -o $out $in -Wl,--dynamic-list=%s/src/symbols.txt $libs" % SRC,
           "rule hlink", "  command = gcc -pthread -L/usr/lib/llvm-18/lib -o $out $in $libs",
           "rule ar", "  command = rm -f $out && gcc-ar rcs $out $in",
           "rule so", "  command = gcc $cflags -fPIC -shared -o $out $in",
           "rule flex", "  command = cd %s && flex $fl -o $out $in" % SRC,
           "rule vhd", "  command = cd %s && ./bin/nvc --std=$std $dashl --work=lib/$work -a $boot $in && touch $out" % B,
           "rule preload", "  command = cd %s && rm -f lib/preload08.so && ./bin/nvc --work=lib/std.08 -L lib/ --std=2008 --aotgen -O0 -o lib/preload08.so std ieee nvc && touch $out" % B,
           "rule preload19", "  command = cd %s && rm -f lib/preload19.so && ./bin/nvc --work=lib/std.19 -L lib/ --std=2019 --aotgen -O0 -o lib/preload19.so std ieee nvc && touch $out" % B,
           "rule cleanlib", "  command = rm -rf %s/std.08 %s/ieee.08 %s/nvc.08 %s/std.19 %s/ieee.19 %s/nvc.19 && touch $out" % ((LIB,) * 6),
           ""]
    objs = []
    for d, dirs, files in os.walk(os.path.join(SRC, "src")):
        dirs.sort()
        for f in sorted(files):
            r = os.path.relpath(os.path.join(d, f), SRC)
            if f.endswith(".c"):
                o = os.path.join(OBJ, r[:-2] + ".o")
                out.append("build %s: cc %s" % (o, os.path.join(SRC, r)))
                objs.append(o)
    for c, l in GENERATED.items():
        g = os.path.join(B, "gen", c)
        o = os.path.join(OBJ, c[:-2] + ".o")
        out.append("build %s: flex %s" % (g, os.path.join(SRC, l)))
        out.append("build %s: cc %s\n  extra = -I%s" % (o, g, os.path.dirname(os.path.join(SRC, c))))
        objs.append(o)
    for f in ("fstapi", "lz4", "fastlz", "cpustate", "sha1"):
        o = os.path.join(OBJ, "thirdparty", f + ".o")
        out.append("build %s: cc %s" % (o, os.path.join(SRC, "thirdparty", f + ".c")))
        objs.append(o)
    main = os.path.join(OBJ, "src/nvc.o")
    lib = os.path.join(B, "libnvc.a")
    out.append("build %s: ar %s" % (lib, " ".join(o for o in objs if o != main)))
    out.append("build %s: link %s %s" % (NVC, main, lib))
    st = os.path.join(B, "stamp")
    out.append("build %s/clean: cleanlib | %s" % (st, NVC))
    vh = []
    for d, _, files in os.walk(os.path.join(SRC, "lib")):
        vh += [os.path.join(d, f) for f in files if f.endswith((".vhd", ".vhdl"))]
    out[-1] += " " + " ".join(sorted(vh))
    for name, work, boot, files, deps in STD08 + STD19:
        ins = " ".join(os.path.join(SRC, f) for f in files)
        dep = " ".join("%s/%s" % (st, d) for d in deps) or "%s/clean" % st
        out.append("build %s/%s: vhd %s | %s\n  work = %s\n  boot = %s\n  dashl = %s\n  std = %s" %
                   (st, name, ins, dep, work, boot, "" if boot or name.startswith("std2") else "-L lib/",
                    "2019" if name.endswith("_19") else "2008"))
    # the preload library is generated when IEEE holds only std_logic_1164: the rest takes long and
    # ahead-of-time compiled cases do not use it
    out.append("build %s/preload: preload | %s/psl" % (st, st))
    out.append("build %s/preload19: preload19 | %s/nvc2_19" % (st, st))
    out.append("build libs19: phony %s/preload19" % st)
    out.append("build libs: phony %s/preload %s/nvc2 %s/ieee2" % (st, st, st))
    for h, (kind, src) in harnesses.items():
        p = os.path.join(VERIF, "harness", src)
        t = os.path.join(B, "bin", h)
        if kind == "exe":
            o = os.path.join(OBJ, "harness", h + ".o")
            out.append("build %s: cc %s" % (o, p))
            out.append("build %s: hlink %s %s" % (t, o, lib))
        else:
            out.append("build %s: so %s" % (t, p))
    return "\n".join(out) + "\n"

def harnesses():
    h = {}
    d = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith(".c"):
            if f.startswith("vhpi_"):
                h[f[:-2] + ".so"] = ("so", f)
            else:
                h[f[:-2]] = ("exe", f)
    return h

def build(targets=("libs",)):
    """Build `targets` ("nvc", "libs", or harness names); returns path of the nvc binary."""
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        fresh = not os.path.exists(NVC)
        _sync()
        for d in ("gen/src/vlog", "bin", "lib", "stamp", "obj"):
            os.makedirs(os.path.join(B, d), exist_ok=True)
        _write(os.path.join(B, "gen", "config.h"), open(os.path.join(VERIF, "vk", "config.h")).read())
        _write(os.path.join(B, "gen", "gitsha.h"), '#define GIT_SHA "verif"\n')
        hs = harnesses()
        _write(os.path.join(B, "build.ninja"), _ninja(hs))
        tg = []
        for t in targets:
            tg.append(NVC if t == "nvc" else t if t in ("libs", "libs19") else os.path.join(B, "bin", t))
        env = dict(os.environ)
        for k in ("NVC_LIBPATH", "CFLAGS", "LDFLAGS", "MAKEFLAGS"):
            env.pop(k, None)
        p = subprocess.run(["ninja", "-C", B, "-f", "build.ninja"] + tg, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=env, stdin=subprocess.DEVNULL)
        if p.returncode != 0:
            raise BuildError(p.stdout.decode(errors="replace")[-4000:])
    print("build: %s in %.1f s" % ("from scratch" if fresh else "incremental", time.time() - t0), flush=True)
    return NVC

if __name__ == "__main__":
    build(sys.argv[1:] or ("libs",))
