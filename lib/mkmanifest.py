"""Writes MANIFEST.json from the registry of checks. usage: python3 lib/mkmanifest.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ENUM = "explicit-state exhaustive enumeration of the real code against an independent oracle"
NOTES = {
 "F01": ("bounded-exhaustive exploration of operand pairs on the generated x86 and C++ code, GMP oracle", "Every pair of a boundary-digit alphabet for every modulus of the families (all residues for tiny moduli), every routine and aliasing. Trusts GMP, nasm, gcc, the JS template engine stand-in (mini-ejs)."),
 "F02": ("bounded-exhaustive exploration of conversions on the generated code, GMP oracle", "Every alphabet element, route, radix and buffer size for every modulus of the families. Trusts GMP and the build chain."),
 "F03": ("bounded-exhaustive exploration of operand and representation pairs, GMP oracle", "All operand pairs of the alphabet in all representation pairs; moduli of 64 bits or more; destination distinct from the operands."),
 "F04": ("bounded-exhaustive exploration of operand and representation pairs, GMP oracle", "All operand pairs of the alphabet (with the values around q/2) in all representation pairs."),
 "F05": ("bounded-exhaustive exploration of operand and representation pairs, GMP oracle", "All operand pairs and shift amounts of the alphabet in all representation pairs."),
 "F06": ("bounded-exhaustive exploration of conversions from every representation, GMP oracle", "All alphabet elements in all representations, all conversions, several radices."),
 "F07": ("breadth-first explicit-state model checking of operation sequences on both implementations in lockstep with an integer model", "Reachable element states up to the depth bound; both implementations and the integer model compared on every transition."),
 "F08": ("bounded-exhaustive exploration of the generated ARM64 machine code on a watched A64 instruction emulator, GMP oracle", "Same alphabet as F01 over the generated ARM64 assembly; trusts the emulator's semantics of the integer instructions used (every result is compared with GMP) and clang's assembler."),
 "C01": ("exhaustive enumeration of ranges and pool sizes on the real pool; schedules explored by the controlled scheduler", "All counts and pool sizes up to the bound."),
 "C02": ("stateless model checking of the real thread pool: all interleavings up to a preemption bound under a controlled scheduler with a vector-clock race detector", "All schedules up to the preemption bound, spurious wake-ups included; sequentially consistent memory plus happens-before race detection."),
 "C03": ("stateless model checking of the real parallel algorithms under a controlled scheduler with happens-before race detection", "All schedules up to the preemption bound for the listed sizes and thread counts; a run free of races makes finer interleavings equivalent."),
 "C04": ("exhaustive enumeration of limit histories on the real code under a recording OpenMP runtime", "All nestings to the depth bound, all early-return paths."),
 "C05": ("stateless model checking of pairs of library operations in two threads on shared objects, from a cold start, under a controlled scheduler with a vector-clock race detector (GMP calls included); parallel algorithms sharing one pool; assembled code run with its data write-protected", "Every pair of operations, all schedules up to one preemption; algorithms up to the preemption or deviation bound. The assembled code is covered by write protection, not by instrumentation."),
 "R01": ("exhaustive enumeration of operations, ordered pairs of operations, refused inputs, failing system calls and reader-call sequences on the real code, with a monitor of the heap, descriptors, mappings and threads held", "All cases within the stated bounds, each repeated; a case is a leak when one of the counts rises through every doubling of the repetitions."),
 "B01": ("explicit-state exploration of all reading-call sequences on the real reader in lockstep with a reference model", "All call sequences up to the depth bound on every file of the family."),
 "A01": ("explicit-state exploration of the real generator: all build histories up to a depth and all interleavings of concurrent builds under a controlled delivery order, compared with builds in fresh processes", "All histories, delivery orders and command lines within the stated bounds; the template engine and argument parser are stand-ins (neither package is installed)."),
 "B02": ("exhaustive fault enumeration (every truncation, every field corruption of an alphabet) on the real reader between guard pages", "Every truncation point and every single and paired field corruption of the alphabet; guard pages and the address sanitizer report any access outside the data."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        t, n = NOTES.get(i, (ENUM, "All cases within the stated bounds; see DESIGN.md."))
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough", "technique": "model checking: " + t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "the explorer for this property is not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
