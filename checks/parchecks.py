"""C01-C04: parallel code under the controlled scheduler."""
import os
from vlib import VERIF, REPO, PRIMES

RT = f"{VERIF}/harness/rt"


WATCHED = ["memcpy", "memset", "memmove", "memcmp", "strlen", "strcpy", "strcat", "sprintf", "snprintf", "free"]


def rt_cmds(b, srcs, exe, defs="", opt="-O1", tsan=True, omp=True):
    """Objects of instrumented sources + the runtime. srcs: [path]"""
    l1 = [f"g++ -O2 -std=c++17 -c {RT}/mcrt.cpp -o {b.p('rt.o')}"]
    l2, objs = [], []
    for s in srcs:
        o = b.p(os.path.basename(s).replace(".cpp", f"_{os.path.basename(exe)}.o"))
        l1.append(f"g++ {opt} -g -std=c++17 -w -U_FORTIFY_SOURCE {"-fopenmp -DUSE_OPENMP" if omp else "-ftrivial-auto-var-init=pattern"} {"-fsanitize=thread" if tsan else ""} {defs} -I{VERIF}/lib -I{RT} -I{VERIF}/harness/par -I{VERIF}/harness/alg -I{REPO}/c -c {s} -o {o}")
        l2.append("objcopy " + " ".join(f"--redefine-sym {f}=mcrt_{f}" for f in WATCHED) + f" {o}")
        objs.append(o)
    return l1, l2, f"g++ {' '.join(objs)} {b.p('rt.o')} -o {exe} -lpthread -lgmp"


def build(b, srcs, name, defs="", opt="-O1", tsan=True, objs="", omp=True):
    exe = b.p(name)
    l1, l2, l3 = rt_cmds(b, srcs, exe, defs, opt, tsan, omp)
    b.par(l1)
    b.par(l2)
    b.cmd(l3 + " -Wl,-z,noexecstack " + objs)
    return exe


SCHED = ["the explored executions are sequentially consistent; a happens-before race detector reports any pair of accesses for which that would not be enough"]


def c01(c):
    exe = build(c.b, [f"{VERIF}/harness/par/pool.cpp"], "pool")
    c.run(exe, ["split"])
    c.assumptions = ["the pieces run under the controlled scheduler's default schedule (C02 covers the schedules)"]


def c02(c):
    exe = build(c.b, [f"{VERIF}/harness/par/pool.cpp"], "pool")
    c.run(exe, ["sched"])
    c.assumptions = SCHED


LIB = [f"{REPO}/c/naf.cpp", f"{REPO}/c/misc.cpp", f"{REPO}/c/splitparstr.cpp"]
DATA = ["the pieces of one call run under the controlled scheduler's default schedule and its reverse (C03 covers the schedules)"]


def m01(c):
    exe = build(c.b, [f"{VERIF}/harness/par/sums.cpp"] + LIB, "sums", opt="-O2", tsan=False)
    c.run(exe, ["multiexp"])
    exe = build(c.b, [f"{VERIF}/harness/par/sums.cpp"] + LIB, "sumsnoomp", opt="-O2", tsan=False, omp=False)
    c.run(exe, ["noomp"])
    c.assumptions = DATA + ["scalars of at least 8 bytes", "curves with b != 0"]


def m02(c):
    exe = build(c.b, [f"{VERIF}/harness/par/sums.cpp"] + LIB, "sums", opt="-O2", tsan=False)
    c.run(exe, ["msm"])
    exe = build(c.b, [f"{VERIF}/harness/par/sums.cpp"] + LIB, "sumsw", opt="-O2", tsan=False, defs="-DMSM_BITS_PER_CHUNK=gWindow")
    c.run(exe, ["window"])
    c.assumptions = DATA + ["scalars of at least 8 bytes", "curves with b != 0"]


def t01(c):
    F = {"Fq": PRIMES["bn128q"], "Fr": PRIMES["bn128r"], "Gl": PRIMES["gl"]}
    c.b.gen(F)
    objs = []
    for n in F:
        cm, o = c.b.field_cmds(n, "x86")
        c.b.par(cm)
        objs += o
    exe = build(c.b, [f"{VERIF}/harness/par/fft.cpp"], "fft", opt="-O2", tsan=False, defs=f"-I{c.b.p('gen')} -DWITH_FIELDS -DUSE_ASM -DARCH_X86_64", objs=" ".join(objs))
    c.run(exe, [])
    c.assumptions = DATA


def c03(c):
    exe = build(c.b, [f"{VERIF}/harness/par/races.cpp"] + LIB, "races")
    c.run(exe, ["races"])
    c.assumptions = SCHED


def c04(c):
    exe = build(c.b, [f"{VERIF}/harness/par/races.cpp"] + LIB, "limits", opt="-O2", tsan=False)
    c.run(exe, ["limits"])
    c.assumptions = ["team sizes as requested from the OpenMP runtime (stand-in runtime that grants them)"]


def gmp_watch(b):
    """Stand-ins for the GMP functions that report what they read and write, then call the real ones."""
    import re
    h = open("/usr/include/x86_64-linux-gnu/gmp.h").read()
    out, names = ['#include <gmp.h>', 'extern "C" { void __tsan_read_range(void *, unsigned long); void __tsan_write_range(void *, unsigned long);',
                  'static void zr(mpz_srcptr z) { __tsan_read_range((void *)z, sizeof *z); if (z->_mp_size) __tsan_read_range(z->_mp_d, 8ul * (z->_mp_size < 0 ? -z->_mp_size : z->_mp_size)); }',
                  'static void zw(mpz_ptr z) { __tsan_write_range(z, sizeof *z); }'], []
    defs = dict(re.findall(r"#define (mp[zn]_\w+) (__gmp[zn]_\w+)", h))
    defs.update((a, "__gmpn_" + m) for a, m in re.findall(r"#define (mpn_\w+) __MPN\((\w+)\)", h))
    for ret, name, args in re.findall(r"__GMP_DECLSPEC ([\w ]+?\*?) ?(mp[zn]_\w+) \(([^()]*)\)", h):
        if name not in defs or "..." in args or "(" in args or name.endswith(("_get_d", "_out_str", "_inp_str", "out_raw", "inp_raw")) or "FILE" in args:
            continue
        types = [a.strip() for a in args.split(",")] if args.strip() != "void" else []
        if any("*" in t and "size_t" not in t and "char" not in t and "void" not in t and "int" not in t for t in types) or "gmp_randstate" in args:
            continue
        pars = ", ".join(f"{re.sub(r'[[].*', '*', t) if '[' in t else t} a{i}" for i, t in enumerate(types))
        body = []
        n = next((f"a{i}" for i, t in enumerate(types) if t == "mp_size_t"), "0")
        for i, t in enumerate(types):
            if t == "mpz_srcptr": body.append(f"zr(a{i});")
            elif t == "mpz_ptr": body.append(f"zw(a{i});")
            elif t == "mp_srcptr" and name.startswith("mpn"): body.append(f"__tsan_read_range((void *)a{i}, 8ul * ({n}));")
            elif t == "mp_ptr" and name.startswith("mpn"): body.append(f"__tsan_write_range(a{i}, 8ul * ({'2 * ' if name in ('mpn_mul_n', 'mpn_sqr') else ''}({n})));")
            elif t in ("void *", "const void *") and name in ("mpz_import", "mpz_export"): pass
        real = defs[name]
        call = f"real_{real}({', '.join(f'a{i}' for i in range(len(types)))})"
        out.append(f"extern {ret} real_{real}({pars}) __asm__(\"{real}\");\n{ret} watch{real}({pars}) {{ {' '.join(body)} {'return ' if ret.strip() != 'void' else ''}{call}; }}")
        names.append(real)
    out.append("}")
    open(b.p("gmpwatch.cpp"), "w").write("\n".join(out) + "\n")
    return b.p("gmpwatch.cpp"), names


def c05(c):
    b = c.b
    io = f"{VERIF}/harness/io/standin"
    src, names = gmp_watch(b)
    redef = " ".join(f"--redefine-sym {f}=mcrt_{f}" for f in WATCHED) + " " + " ".join(f"--redefine-sym {n}=watch{n}" for n in names)
    lib = [f"{REPO}/c/{f}.cpp" for f in ("alt_bn128", "naf", "splitparstr", "misc", "binfile_utils", "wtns_utils", "zkey_utils")]
    l1 = [f"g++ -O2 -std=c++17 -c {RT}/mcrt.cpp -o {b.p('rt.o')}", f"g++ -O1 -w -c {src} -o {b.p('gmpwatch.o')}"]
    l2, l3, runs = [], [], []
    stem = lambda f: os.path.basename(f)[:-4]
    # the curve library with its own fields; fields of other shapes (one word, no spare bits, more words)
    for v, q, own in (("bn128", "bn128q", lib), ("gl", "gl", []), ("secp", "secpq", []), ("bls", "bls381q", [])):
        g = b.gen({"Fq": PRIMES[q], "Fr": PRIMES["bn128r"]}, "gen_" + v)
        cc = f"g++ -O1 -g -std=c++17 -w -U_FORTIFY_SOURCE -D_GLIBCXX_EXTERN_TEMPLATE=0 -fopenmp -include omp.h -include stdexcept -include cassert -DVARIANT='\"{v}\"' {'-DWITH_CURVES' if own else ''} -I{g} -I{io} -I{VERIF}/lib -I{RT} -I{VERIF}/harness/field -I{VERIF}/harness/par -I{REPO}/c"
        files = [f"{g}/{f}{s}.cpp" for f in ("fq", "fr") for s in ("", "_generic", "_raw_generic")] + own
        impl = f"{VERIF}/harness/field/impl_tu.cpp -DFNAME=Fq '-DFHDR=\"fq.hpp\"' '-DFLABEL=\"field\"'"
        for tag, fl in (("t", "-fsanitize=thread"), ("a", "-DUSE_ASM -DARCH_X86_64")):
            objs = []
            for name, s in [("share", f"{VERIF}/harness/par/share.cpp"), ("impl", impl)] + [(stem(f), f) for f in files]:
                if tag == "a" and "generic" in name:
                    continue
                o = b.p(f"{v}_{tag}_{name}.o")
                objs.append(o)
                l1.append(f"{cc} {fl} -c {s} -o {o}")
                if tag == "t":
                    l2.append(f"objcopy {redef} {o}")
            if tag == "a":
                for f in ("fq", "fr"):
                    o = b.p(f"{v}_{f}_asm.o")
                    objs.append(o)
                    l1.append(f"nasm -felf64 {g}/{f}.asm -o {o}")
                    ro = "alloc,load,readonly,data,contents"
                    l2.append(f"objcopy --rename-section .data=.rodata.asmdata,{ro} --rename-section .bss=.rodata.asmbss,{ro} {o}")
            exe = b.p(f"share_{v}_{tag}")
            l3.append(f"g++ {' '.join(objs)} {b.p('gmpwatch.o') if tag == 't' else ''} {b.p('rt.o')} -lpthread -lgmp -Wl,-z,noexecstack -o {exe}")
            runs.append((exe, "pairs" if tag == "t" else "readonly"))
    b.par(l1)
    b.par(l2)
    b.par(l3)
    clients = build(b, [f"{VERIF}/harness/par/races.cpp"] + LIB, "clients")
    for exe, mode in runs:
        c.run(exe, [mode])
    c.run(clients, ["clients"])
    c.assumptions = SCHED + ["the assembled x86-64 code is not instrumented: its data section and its operands are write-protected instead",
                             "two threads at a time; two uses of the library from a cold start"]


def r01(c):
    b = c.b
    lib = [f"{REPO}/c/{f}.cpp" for f in ("alt_bn128", "naf", "splitparstr", "misc", "binfile_utils", "wtns_utils", "zkey_utils")]
    l1, l2, runs = [], [], []
    for v, q, own in (("bn128", "bn128q", lib), ("gl", "gl", []), ("secp", "secpq", []), ("bls", "bls381q", [])):
        g = b.gen({"Fq": PRIMES[q], "Fr": PRIMES["bn128r"]}, "gen_" + v)
        for tag, fl in (("generic", ""), ("x86", "-DUSE_ASM -DARCH_X86_64")):
            cc = f"g++ -O1 -g -std=c++17 -w -fopenmp -DUSE_OPENMP -include omp.h -include stdexcept -include cassert -DVARIANT='\"{v}-{tag}\"' {'-DWITH_CURVES' if own else ''} {fl} -I{g} -I{VERIF}/harness/io/standin -I{VERIF}/lib -I{VERIF}/harness/field -I{VERIF}/harness/par -I{REPO}/c"
            files = [("res", f"{VERIF}/harness/res/res.cpp"), ("impl", f"{VERIF}/harness/field/impl_tu.cpp -DFNAME=Fq '-DFHDR=\"fq.hpp\"' '-DFLABEL=\"field\"'")]
            files += [(os.path.basename(f)[:-4], f) for f in [f"{g}/{f}{s}.cpp" for f in ("fq", "fr") for s in (("",) if tag == "x86" else ("", "_generic", "_raw_generic"))] + (own or [f"{REPO}/c/misc.cpp"])]
            objs = []
            for name, s in files:
                objs.append(b.p(f"{v}_{tag}_{name}.o"))
                l1.append(f"{cc} -c {s} -o {objs[-1]}")
            if tag == "x86":
                for f in ("fq", "fr"):
                    objs.append(b.p(f"{v}_{f}_asm.o"))
                    l1.append(f"nasm -felf64 {g}/{f}.asm -o {objs[-1]}")
            exe = b.p(f"res_{v}_{tag}")
            l2.append(f"g++ {' '.join(objs)} -fopenmp -lpthread -lgmp -Wl,-z,noexecstack -o {exe}")
            runs.append(exe)
    b.par(l1)
    b.par(l2)
    for exe in runs:
        c.run(exe, [])
    c.assumptions = ["an operation that keeps something from its first use on, without growing further, does not leak",
                     "errors thrown as pointers are deleted by whoever catches them", "threads are scheduled by the system (C02 covers the schedules of the pool)"]


CHECKS = {"R01": r01, "C05": c05, "C01": c01, "C02": c02, "M01": m01, "M02": m02, "T01": t01, "C03": c03, "C04": c04}
