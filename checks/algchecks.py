"""E01-E03, G01-G03, K01: extension towers, curves and the production engine."""
from vlib import VERIF, REPO, PRIMES

BN = {"Fq": PRIMES["bn128q"], "Fr": PRIMES["bn128r"]}


def alg(b, src, exe, bn=False, opt="-O1", extra=(), defs="", cxx="-ftrivial-auto-var-init=pattern", objs=""):
    """Builds a harness of harness/alg with the sources of /repo it needs, optionally with the generated fields."""
    inc = f"-I{VERIF}/lib -I{VERIF}/harness/alg -I{REPO}/c"
    if bn:
        b.gen(BN)
        cmds = []
        for n in BN:
            c, o = b.field_cmds(n, "x86")
            cmds += c
            objs += " " + " ".join(o)
        b.par(cmds)
        inc += f" -I{b.p('gen')} -DWITH_BN -DUSE_ASM -DARCH_X86_64"
    l = []
    for s in [f"{VERIF}/harness/alg/{src}.cpp"] + [f"{REPO}/c/{e}.cpp" for e in extra]:
        o = b.p(s.replace("/", "_").strip("_") + f".{exe}.o")
        l.append(f"g++ {opt} -g -std=c++17 -w {cxx} {defs} {inc} -c {s} -o {o}")
        objs += " " + o
    b.par(l)
    b.cmd(f"g++ {objs} -o {b.p(exe)} -lgmp -lpthread -Wl,-z,noexecstack")
    return b.p(exe)


def e01(c):
    c.run(alg(c.b, "f2", "f2", bn=True, extra=["splitparstr"]))


def e02(c):
    c.run(alg(c.b, "f612", "f612", bn=True, extra=["splitparstr"]), ["ring"])


def e03(c):
    c.run(alg(c.b, "f612", "f612", bn=True, extra=["splitparstr"]), ["frob"])


def curve(group):
    def f(c):
        c.run(alg(c.b, "curve", "curve", opt="-O2", extra=["splitparstr", "naf", "misc"]), [group])
        c.assumptions = ["curves with b != 0 (the affine form (0,0) stands for infinity)", "infinity in projective form has both scaling coordinates zero"]
    return f


def k01(c):
    c.run(alg(c.b, "engine", "engine", bn=True, opt="-O2", extra=["alt_bn128", "splitparstr", "naf", "misc"]))
    c.assumptions = ["the published definition: BN curve with parameter 4965661367192848881, y^2=x^3+3, twist by 9+u"]


CHECKS = {"K01": k01, "E01": e01, "E02": e02, "E03": e03, "G01": curve("law"), "G02": curve("scalar"), "G03": curve("eq")}
