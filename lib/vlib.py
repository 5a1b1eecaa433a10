"""Driver library of the checks: build from /repo's working tree, run the explorers, judge, write evidence."""
import json, os, re, shlex, shutil, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FFIASM", "/repo")
PRIMES = json.load(open(os.path.join(VERIF, "lib", "primes.json")))
NPROC = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 8)
T0 = time.time()
BUDGET = {"quick": 780.0, "thorough": 6 * 3600.0}


def left(tier):
    return max(20.0, BUDGET[tier] - (time.time() - T0))


class BuildError(Exception):
    pass


class GeneratedCodeError(BuildError):
    """The repository's generator failed, or what it generated does not assemble or compile."""


class Builder:
    """Runs build commands in dependency layers, in parallel, in a scratch directory of /verif/build."""

    def __init__(self, prop):
        self.dir = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.pool = ThreadPoolExecutor(NPROC)
        self.ncmd = 0

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def cmd(self, c, env=None, timeout=600):
        if isinstance(c, str):
            c = shlex.split(c)
        self.ncmd += 1
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(c, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise BuildError("timed out: " + " ".join(c))
        if r.returncode != 0:
            raise BuildError(" ".join(c) + "\n" + r.stdout[-3000:])
        return r.stdout

    def par(self, cmds, timeout=600):
        fs = [self.pool.submit(self.cmd, c, timeout=timeout) for c in cmds]
        err = None
        for f in fs:
            try:
                f.result()
            except BuildError as x:
                err = err or x
        if err:
            raise err

    def parcalls(self, fn, items):
        fs = [self.pool.submit(fn, *a) for a in items]
        for f in fs:
            f.result()

    # ---- generated fields -------------------------------------------------------------
    def gen(self, specs, sub="gen"):
        """specs: {Name: prime}; renders every field with the repository's generator."""
        items = sorted(specs.items())
        chunks = [items[i::NPROC] for i in range(NPROC)]
        self.par([["node", os.path.join(VERIF, "lib", "gen.js"), self.p(sub)] + [f"{n}={q}" for n, q in ch] for ch in chunks if ch], timeout=300)
        return self.p(sub)

    ARM_SIG = {"rawAdd": "wrr", "rawAddLS": "wrv", "rawSub": "wrr", "rawSubRegular": "wrr", "rawNeg": "wr", "rawNegLS": "wrv", "rawSubSL": "wvr", "rawSubLS": "wrv",
               "rawMMul": "wrr", "rawMMul1": "wrv", "rawFromMontgomery": "wr", "rawCopy": "wr", "rawSwap": "xx", "rawIsEq": "rr", "rawIsZero": "r", "rawCopyS2L": "wv",
               "rawCmp": "rr", "rawAnd": "wrr", "rawOr": "wrr", "rawXor": "wrr", "rawShr": "wrv", "rawShl": "wrv", "rawNot": "wr"}

    def arm_stub(self, name, q, sub="gen"):
        """Assembles the ARM64 text and writes entry points that execute it in the emulator."""
        g, n = self.p(sub), name.lower()
        self.cmd(["clang", "--target=aarch64-linux-gnu", "-c", f"{g}/{n}_raw_arm64.s", "-o", f"{g}/{n}_arm64.bin"])
        t = ['#include "armreg.hpp"', f'asm(".section .rodata\\n{n}_b0:\\n.incbin \\"{g}/{n}_arm64.bin\\"\\n{n}_b1:\\n.previous");',
             f'extern "C" const unsigned char {n}_b0[], {n}_b1[];',
             f'static ArmImage *im() {{ static ArmImage *i = armLoad({n}_b0, {n}_b1 - {n}_b0, "{q}"); return i; }}',
             f'static ArmReg reg = {{"{name}", im}}; static ArmRegister registered(&reg);']
        for r, sig in self.ARM_SIG.items():
            ret = "int" if r in ("rawIsEq", "rawIsZero", "rawCmp") else "void"
            pars = ", ".join(f"uint64_t {'abc'[i]}" for i in range(len(sig)))
            t.append(f'extern "C" {ret} {name}_{r}({pars}) {{ static int e = armEntry(im(), "{name}_{r}"); {"return (int)" if ret == "int" else ""}armCall(im(), e, "{r}", "{sig}", {(int(q).bit_length() - 1) // 64 + 1}, {", ".join("abc"[:len(sig)])}); }}')
        with open(f"{g}/{n}_stub.cpp", "w") as f:
            f.write("\n".join(t) + "\n")

    def field_cmds(self, name, kind, sub="gen", opt="-O2", san="", impl=False, cxx="g++"):
        """Commands and objects for one generated field. kind: x86 | generic | arm64"""
        g = self.p(sub)
        n = name.lower()
        inc = f"-I{g} -I{VERIF}/harness/field -I{VERIF}/lib -w {opt}"
        d = {"x86": "-DUSE_ASM -DARCH_X86_64", "generic": "", "arm64": "-DUSE_ASM -DARCH_ARM64"}[kind]
        cmds, objs = [], []

        def cc(src, o, extra="", comp=None):
            cmds.append(f"{comp or cxx} {inc} {d} {extra} -c {src} -o {g}/{o}")
            objs.append(f"{g}/{o}")
        if kind == "x86":
            cmds.append(f"nasm -felf64 {g}/{n}.asm -o {g}/{n}_asm.o")
            objs.append(f"{g}/{n}_asm.o")
            cc(f"{g}/{n}.cpp", f"{n}.o", san)
        elif kind == "generic":
            cc(f"{g}/{n}.cpp", f"{n}.o", san)
            cc(f"{g}/{n}_generic.cpp", f"{n}_generic.o", san)
            cc(f"{g}/{n}_raw_generic.cpp", f"{n}_raw.o", san)
        else:
            cc(f"{g}/{n}.cpp", f"{n}.o", san)
            cc(f"{g}/{n}_generic.cpp", f"{n}_generic.o", san)
            cc(f"{g}/{n}_raw_generic.cpp", f"{n}_raw.o", san)
            cc(f"{g}/{n}_stub.cpp", f"{n}_stub.o")
        if impl:
            cc(f"{VERIF}/harness/field/impl_tu.cpp", f"{n}_impl.o", f"-DFNAME={name} '-DFHDR=\"{n}.hpp\"' '-DFLABEL=\"{kind}\"'")
        return cmds, objs


def run_harness(exe, args, tier, env=None, replay_timeout=None):
    """Runs an explorer, returns (findings, jobs, samples, complete). findings: [(job, key, text)]"""
    cmd = [exe] + args + (["--thorough"] if tier == "thorough" else []) + ["--procs", str(NPROC)]
    e = dict(os.environ)
    e.update(env or {})
    finds, jobs, samples, done = [], [], [], False
    pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, start_new_session=True)
    killer = threading.Timer(left(tier), lambda: os.killpg(pr.pid, 9))
    killer.start()
    err = []
    th = threading.Thread(target=lambda: err.append(pr.stderr.read()))
    th.start()
    for line in pr.stdout:
        f = line.rstrip("\n").split("\t")
        if f[0] == "VIOL":
            finds.append((f[1], f[2], f[3] if len(f) > 3 else ""))
        elif f[0] in ("CRASH", "HANG"):
            finds.append((f[1], f"{f[0].lower()}:{f[2]}", f[3] if len(f) > 3 else ""))
        elif f[0] == "SLOW":
            jobs.append((f[1], {"capped": 1}))
        elif f[0] == "SAMPLE":
            samples.append(f[2])
        elif f[0] == "JOB":
            kv = {}
            for t in f[2].split():
                k, v = t.split("=")
                kv[k] = float(v) if k == "wall" else int(v)
            jobs.append((f[1], kv))
        elif f[0] == "ALLDONE":
            done = True
    pr.wait()
    killer.cancel()
    th.join()
    if not done and pr.returncode in (-4, -6, -7, -8, -11):
        # the explorer itself died: code under test that runs before the jobs (static objects, operands)
        done = "died"
    return finds, jobs, samples, done, (err[0] if err else "")


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.b = Builder(prop)
        self.cov = {"states": 0, "transitions": 0, "evaluations": 0, "distinct_nontrivial": 0, "traces_validated_against_impl": 0}
        self.samples, self.finds, self.assumptions, self.jobs = [], [], [], []
        self.notes = {}
        self.exhaustive = True
        self.capped = []

    def thorough(self):
        return self.tier == "thorough"

    def run(self, exe, args=(), env=None, confirm=True):
        args = [str(a) for a in args]
        finds, jobs, samples, done, err = run_harness(exe, args, self.tier, env)
        if done == "died":
            f2, j2, s2, again, e2 = run_harness(exe, args, self.tier, env)
            if again == "died":
                lines = [l for l in e2.splitlines() if l.strip()][-3:]
                self.violation("crash:start", f"{os.path.basename(exe)}: the process dies before the exploration starts, or outside of it, both times: " + " | ".join(lines)[:600], exe)
                done = True
            else:
                finds, jobs, samples, done, err = f2, j2, s2, again, e2
        if not done:
            # killed by the budget: what finished counts, the rest is reported as not covered
            if time.time() - T0 > BUDGET[self.tier] - 25:
                self.exhaustive = False
                self.capped.append(os.path.basename(exe) + ": time budget reached")
            else:
                print(err[-2000:], file=sys.stderr)
                raise BuildError(f"explorer {exe} ended early: {err[-300:]}")
        for n, kv in jobs:
            self.jobs.append((n, kv))
            if kv.get("capped"):
                self.exhaustive = False
                self.capped.append(f"{n}: job time cap")
            self.cov["states"] += kv.get("states", 0)
            self.cov["transitions"] += kv.get("transitions", 0)
            self.cov["evaluations"] += kv.get("evals", 0)
            self.cov["distinct_nontrivial"] += kv.get("nontrivial", 0)
        self.samples += samples[:6]
        # replay before report: the same job again, alone
        confirmed = []
        again = {}
        known = load_known(self.prop)
        tried = {}
        for job, key, text in finds:
            if confirm:
                # one replay per class of violation (two more jobs if the first does not reproduce)
                if any(k[3] == key for k in confirmed) or tried.get(key, 0) >= 3 or len(again) >= 24:
                    continue
                if job not in again:
                    f2, *_ = run_harness(exe, list(args) + ["--job", job], self.tier, env)
                    again[job] = {k for _, k, _ in f2}
                tried[key] = tried.get(key, 0) + 1
                if key not in again[job] and not (key.startswith("crash") and any(k.startswith("crash") for k in again[job])):
                    print(f"note: not reproduced on replay, ignored: {job} {key} {text}", file=sys.stderr)
                    self.notes.setdefault("unreproduced", []).append(f"{job} {key}")
                    continue
            confirmed.append((exe, args, job, key, text))
        self.finds += confirmed
        return finds, jobs

    def violation(self, key, text, replay_cmd=""):
        self.finds.append((replay_cmd, [], "-", key, text))

    def finish(self):
        known = load_known(self.prop)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen_known, out = set(), []
        reported = set()
        for exe, args, job, key, text in self.finds:
            k = next((k for k in known if re.fullmatch(k[0], key)), None)
            if k:
                if k[0] not in seen_known:
                    seen_known.add(k[0])
                    out.append(f"KNOWN-FINDING: property={self.prop} {k[1]}")
                continue
            if (key) in reported:
                continue
            reported.add(key)
        bad = [f for f in self.finds if f[3] in reported]
        viols = 0
        done = set()
        for exe, args, job, key, text in bad:
            if key in done:
                continue
            done.add(key)
            viols += 1
            if viols > 12:
                continue
            path = os.path.join(rdir, f"{self.prop}-{viols}.txt")
            with open(path, "w") as fh:
                fh.write(f"property: {self.prop}\nclass: {key}\njob: {job}\ncase: {text}\nreplay: {shlex.join([exe] + list(args) + ['--job', job]) if exe else '-'}\n")
            out.append(f"VIOLATION property={self.prop} replay={path}")
            print(f"  {key}: [{job}] {text}"[:600])
        cov = dict(self.cov)
        if not cov["traces_validated_against_impl"]:
            cov["traces_validated_against_impl"] = cov["evaluations"]
        cov["samples"] = self.samples[:12]
        cov["exhaustive"] = bool(self.exhaustive)
        cov["jobs"] = len(self.jobs)
        if self.capped:
            cov["capped"] = self.capped
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": viols}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for l in out:
            print(l)
        print(f"{self.prop} {self.tier}: jobs={len(self.jobs)} states={cov['states']} transitions={cov['transitions']} evaluations={cov['evaluations']} "
              f"exhaustive={cov['exhaustive']} violations={viols} wall={ev['wall_s']}s")
        return 1 if viols else 0


def load_known(prop):
    res = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3).strip()))
    return res
