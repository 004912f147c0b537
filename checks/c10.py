"""C10: canonical forms and reductions (harness)."""
from build import *


def run(ctx):
    ctx.harness(build_program("C10"))
    ctx.extra["exhaustive"] = True
