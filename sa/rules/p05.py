"""P05: in-memory input is a stream that has delivered everything."""
from rules import flow, flow2


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("canonical traces of every path of the public methods are compared between an in-memory source and a stream whose reads succeed; code outside the analysed functions must not read the delivery mode")
    flow2.mode_rule(ctx, F)
