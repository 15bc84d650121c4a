"""P04: async parsing is sync parsing."""
from rules import flow, flow2, p06


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("canonical traces (sub-parser calls, closures compared by behaviour, conditions, result) of every path of the sync and async entry points and of the functions between them and the format parsers are compared; the two parse loops, fill and source primitives are checked against one specification")
    flow2.async_rule(ctx, F)
    p06.driver(ctx, F)
    flow.fill_rule(ctx, F, {"bytes", "errors"})
    flow.source_rule(ctx, F, {"bytes", "skip", "errors", "probe"})
