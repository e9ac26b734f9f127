"""Indexed accesses lie within the current length."""
from rules.enginerule import select
def run(ctx):
    return select(ctx, ["index", "heapbuf"], lambda f: f["builtin"] or f["form"], 5000)
