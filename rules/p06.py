"""Special forms and the evaluator: null and payload obligations of the parts of a form."""
from rules.enginerule import select
def run(ctx):
    return select(ctx, ["null", "kind", "ret"], lambda f: f["form"], 50000)
