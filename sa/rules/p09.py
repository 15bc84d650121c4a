"""P09: a parser can be reused."""
from rules import flow, flow2


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("every path of every public method is analysed with an arbitrary left-over parser state: what sub-parsers see, the decisions, the result and the state left behind must not contain it")
    flow2.reuse_rule(ctx, F)
