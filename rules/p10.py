"""Fixed-size buffers are never overrun."""
from rules.enginerule import select
def run(ctx):
    return select(ctx, ["buffer"], lambda f: True, 5000)
