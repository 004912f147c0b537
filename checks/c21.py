"""C21: operators, measurements and unitaries (harness)."""
from build import *


def run(ctx):
    ctx.harness(build_program("C21"))
    ctx.extra["exhaustive"] = True
