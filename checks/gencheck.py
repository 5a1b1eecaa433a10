"""A01: the code generator."""
from vlib import VERIF


def a01(c):
    c.run("node", ["--stack-size=4000", f"{VERIF}/harness/gen/genmc.js"])


CHECKS = {"A01": a01}
