"""C09: equivalence operations, decided by the harness."""
from build import *


def run(ctx):
    ctx.harness(build_program("C09"))
    ctx.extra["exhaustive"] = True
    ctx.check(ctx.states > 1000 or ctx.viol, "vacuous", "hardly anything was explored")
