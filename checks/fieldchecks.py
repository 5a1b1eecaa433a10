"""F..: the generated field library."""
from vlib import *

REAL = ["bn128q", "bn128r", "bls381q", "bls381r", "secpq", "secpr", "mnt6q", "gl", "ed25519", "p521", "p224", "p256", "p384", "m61", "m127", "m31", "pallas"]
SHAPES = [f"{t}{k}" for k in range(1, 14) for t in ("max", "odd", "opt", "min", "top") if f"{t}{k}" in PRIMES]
TINY_Q = ["t3", "t5", "t7", "t11", "t13", "t17", "t19", "t23", "t31", "t37", "t61", "t67", "t97", "t127", "t257"]


def build_impls(c, primes, kinds, harness, exe, san="", also={}):
    b = c.b
    specs = {}
    for k in kinds:
        for p in primes:
            specs[{"x86": "X", "generic": "G", "arm64": "A"}[k] + p] = PRIMES[p]
    try:
        b.gen(specs)
    except BuildError as e:
        raise GeneratedCodeError(str(e))
    cmds, objs = [], []
    arms = []
    for n in specs:
        k = {"X": "x86", "G": "generic", "A": "arm64"}[n[0]]
        if k == "arm64":
            arms.append(n)
        cm, ob = b.field_cmds(n, k, impl=True, opt="-O1", san=san if k == "generic" else "")
        cmds += cm
        objs += ob
    if arms:
        try:
            b.parcalls(b.arm_stub, [(n, specs[n]) for n in arms])
        except BuildError as e:
            raise GeneratedCodeError(str(e))
        cmds.append(f"g++ -O2 -std=c++17 -c {VERIF}/harness/field/arm64emu.cpp -o {b.p('arm64emu.o')}")
        objs.append(b.p("arm64emu.o"))
    cmds.append(f"g++ -O2 -std=c++17 -I{VERIF}/lib -I{VERIF}/harness/field -c {VERIF}/harness/field/{harness} -o {b.p('h.o')}")
    for e, src in also.items():
        cmds.append(f"g++ -O2 -std=c++17 -I{VERIF}/lib -I{VERIF}/harness/field -c {VERIF}/harness/field/{src} -o {b.p('h-' + e + '.o')}")
    genc = [x for x in cmds if "/harness/field/" not in x.split(" -c ")[-1]]
    try:
        b.par(genc)
    except BuildError as e:
        raise GeneratedCodeError(str(e))
    b.par([x for x in cmds if x not in genc])
    with open(b.p("objs.rsp"), "w") as f:
        f.write("\n".join(objs))
    b.cmd(f"g++ {san} {b.p('h.o')} @{b.p('objs.rsp')} -Wl,-z,noexecstack -o {b.p(exe)} -lgmp")
    b.par([f"g++ {san} {b.p('h-' + e + '.o')} @{b.p('objs.rsp')} -Wl,-z,noexecstack -o {b.p(e)} -lgmp" for e in also])
    return b.p(exe), [f"{n}={q}" for n, q in specs.items()]


def raw_primes(c):
    if c.thorough():
        return [p for p in PRIMES]
    return REAL + [p for p in PRIMES if p.startswith("pi")] + [s for s in SHAPES if int(s[3:]) <= 8] + ["max12", "odd12", "min12"] + TINY_Q + ["b33", "b48", "b62"]


def F01(c):
    exe, names = build_impls(c, raw_primes(c), ["x86", "generic"], "raw.cpp", "raw")
    c.run(exe, ["arith"] + names)


def F02(c):
    exe, names = build_impls(c, raw_primes(c), ["x86", "generic"], "raw.cpp", "raw")
    c.run(exe, ["conv"] + names)


def tagged_primes(c):
    base = ["bn128q", "bn128r", "bls381q", "bls381r", "secpq", "secpr", "gl", "mnt6q", "ed25519", "p256", "m127", "p521"]
    shapes = [s for s in SHAPES if int(s[3:]) <= (12 if c.thorough() else 6)]
    more = [p for p in PRIMES if p.startswith("pi")] if c.thorough() else ["pi65", "pi129", "pi192", "pi257", "pi448"]
    return base + shapes + more


def tagged(group):
    def f(c):
        exe, names = build_impls(c, tagged_primes(c), ["x86", "generic"], "tagged.cpp", "tagged")
        c.run(exe, [group] + names)
    return f


ARM_TAGGED = ["gl", "m127", "bn128r", "secpq", "bls381q", "p521", "pi65", "pi192", "pi257", "pi448", "mnt6q"]


def arm_primes(c):
    wide = [f"{t}{k}" for k in (9, 10, 11, 12) for t in ("max", "odd", "opt") if f"{t}{k}" in PRIMES]
    return list(dict.fromkeys(raw_primes(c) + wide))


def F08(c):
    exe, names = build_impls(c, arm_primes(c), ["arm64"], "raw.cpp", "raw", also={"armraw": "armraw.cpp", "tagged": "tagged.cpp"})
    c.run(c.b.p("armraw"), names)
    c.run(exe, ["arith"] + names)
    c.run(exe, ["conv"] + names)
    few = [f"A{p}={PRIMES[p]}" for p in (tagged_primes(c) if c.thorough() else ARM_TAGGED)]
    for g in ("cmp", "bits", "conv", "seq", "arith"):
        c.run(c.b.p("tagged"), [g] + few)
    c.assumptions = ["the emulator's semantics of the A64 integer instructions (every routine's result is compared with GMP, so an error in them shows as an alarm)"]


CHECKS = {"F08": F08, "F01": F01, "F02": F02, "F03": tagged("arith"), "F04": tagged("cmp"), "F05": tagged("bits"), "F06": tagged("conv"), "F07": tagged("seq")}
