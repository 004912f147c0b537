"""C11: symmetry groups and classes (harness)."""
from build import *


def run(ctx):
    ctx.harness(build_program("C11"))
    ctx.extra["exhaustive"] = True
