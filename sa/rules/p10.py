"""P10: in-memory parsing shares the payload."""
from rules import flow, flow2


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("dataflow of the payload from the source to the returned iterator: only moves, reference-counted shares and sub-views")
    flow2.memory_rule(ctx, F)
