"""C20: products of perfect sequences and of matrix sequences (harness)."""
from build import *


def run(ctx):
    ctx.harness(build_program("C20"))
    ctx.extra["exhaustive"] = True
