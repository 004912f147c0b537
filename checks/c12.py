"""C12: encodings (harness)."""
from build import *


def run(ctx):
    ctx.harness(build_program("C12"))
    ctx.extra["exhaustive"] = True
