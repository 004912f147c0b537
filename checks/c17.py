"""C17: Hadamard and quaternionic Hadamard matrices (harness)."""
from build import *


def run(ctx):
    ctx.harness(build_program("C17"))
    ctx.extra["exhaustive"] = True
