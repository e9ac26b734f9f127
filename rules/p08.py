"""Divisors are non-zero and INT_MIN is never divided by -1."""
from rules.enginerule import select
def run(ctx):
    return select(ctx, ["div"], lambda f: True, 20)
