"""P22: each source is parsed as what it is."""
from rules import flow, flow2


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("every path of the public methods per detected format: which parser runs, and what the result is")
    flow2.kind_rule(ctx, F)
