"""C13: validity predicates (harness)."""
from build import *


def run(ctx):
    ctx.harness(build_program("C13"))
    ctx.extra["exhaustive"] = True
