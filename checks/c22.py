"""C22: the brute-force finders (harness)."""
from build import *


def run(ctx):
    ctx.harness(build_program("C22"))
    ctx.extra["exhaustive"] = True
