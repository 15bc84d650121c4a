"""P02: memory and reads are bounded by what is present."""
from rules import flow, flow2


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("every read and every sized allocation reachable from the public API is found; its amount is compared, as a linear form under the path's conditions, with constants and the lengths of data at hand")
    flow2.bound_rule(ctx, F)
