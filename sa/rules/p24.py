"""P24: one-shot helpers follow their documented steps."""
from rules import flow, flow2


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("every path of every helper: the source it opens, the parser and method it uses, the result it returns")
    flow2.helper_rule(ctx, F)
