#!/usr/bin/env python3
"""check.py PROPERTY   (tier from VERIF_TIER: quick or thorough)"""
import importlib, os, sys, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import vlib


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        missing = [t for t in ("node", "nasm", "g++", "gcc", "ar", "objcopy") if not shutil.which(t)]
        print("tools missing: " + " ".join(missing) if missing else "tools present")
        sys.exit(1 if missing else 0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import registry
    try:
        c = vlib.Check(prop, tier)
        try:
            registry.CHECKS[prop](c)
        except vlib.GeneratedCodeError as e:
            c.violation("build", "the generated code cannot be built: " + str(e)[:1500])
        rc = c.finish()
    except vlib.BuildError as e:
        print(f"ERROR: {prop}: {e}", file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
