"""Every assertion is implied by the checks before it."""
from rules.enginerule import select
def run(ctx):
    return select(ctx, ["assert"], lambda f: True, 50)
