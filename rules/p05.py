"""Builtins: null and payload obligations of every builtin procedure."""
from rules.enginerule import select
def run(ctx):
    return select(ctx, ["null", "kind", "ret", "inv"], lambda f: f["builtin"], 50000)
