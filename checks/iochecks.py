"""N01, S01, L01, B01, B02, W01, Z01: recoding, text splitting, logarithm, binary files."""
from vlib import VERIF, REPO

IO = f"{VERIF}/harness/io"


def plain(b, src, extra, exe, libs="-lgmp -lpthread", defs=""):
    l, objs = [], []
    for s in [src] + [f"{REPO}/c/{e}.cpp" for e in extra]:
        o = b.p(s.replace("/", "_").strip("_") + ".o")
        l.append(f"g++ -O2 -g -std=c++17 -w {defs} -I{VERIF}/lib -I{VERIF}/harness/alg -I{REPO}/c -c {s} -o {o}")
        objs.append(o)
    b.par(l)
    b.cmd(f"g++ {' '.join(objs)} -o {b.p(exe)} {libs}")
    return b.p(exe)


def binary(b, src):
    l, l2, objs = [], [], []
    for s in ("binfile_utils", "wtns_utils", "zkey_utils"):
        o = b.p(s + ".o")
        l.append(f"g++ -O1 -g -std=c++17 -w -fopenmp -include stdexcept -I{IO}/standin -I{REPO}/c -c {REPO}/c/{s}.cpp -o {o}")
        l2.append(f"objcopy --redefine-sym malloc=guard_malloc --redefine-sym free=guard_free --redefine-sym mmap=guard_mmap {o}")
        objs.append(o)
    o = b.p(src + ".o")
    l.append(f"g++ -O1 -g -std=c++17 -w -I{VERIF}/lib -I{IO}/standin -I{REPO}/c -c {IO}/{src}.cpp -o {o}")
    b.par(l)
    b.par(l2)
    b.cmd(f"g++ {o} {' '.join(objs)} -o {b.p(src)} -lgmpxx -lgmp -fopenmp" + (" -Wl,--wrap=__gmpz_import" if src == "headers" else ""))
    return b.p(src)


def n01(c):
    c.run(plain(c.b, f"{VERIF}/harness/alg/naf.cpp", ["naf"], "naf"))


def s01(c):
    c.run(plain(c.b, f"{IO}/split.cpp", ["splitparstr"], "split"))


def l01(c):
    c.run(plain(c.b, f"{IO}/log2.cpp", ["misc"], "log2"))


BINASM = ["the copy helper parcpy, which the repository takes from its users, copies the bytes (a stand-in does)"]


def b01(c):
    c.run(binary(c.b, "binread"))
    c.assumptions = BINASM


def b02(c):
    c.run(binary(c.b, "binmal"))
    c.assumptions = BINASM + ["an access outside the data meets an inaccessible page or a pointer test (reads before the data within its first page are only seen through returned pointers)"]


def w01(c):
    c.run(binary(c.b, "headers"), ["wtns"])
    c.assumptions = BINASM


def z01(c):
    c.run(binary(c.b, "headers"), ["zkey"])
    c.assumptions = BINASM


CHECKS = {"N01": n01, "S01": s01, "L01": l01, "B01": b01, "B02": b02, "W01": w01, "Z01": z01}
