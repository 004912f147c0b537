"""C14: correlations by Fourier transforms (harness)."""
from build import *


def run(ctx):
    ctx.harness(build_program("C14"))
    ctx.extra["exhaustive"] = True
