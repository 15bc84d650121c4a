"""P08: I/O errors are reported."""
from rules import flow, flow2, p06


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = ("on every path of the public methods, constructors, fill, skip and parse loop, the first failing read, seek or sub-parser call must be the last one and its error the result")
    flow2.errors_rule(ctx, F)
    flow.fill_rule(ctx, F, {"errors"})
    flow.source_rule(ctx, F, {"errors", "skip"})
    p06.driver(ctx, F)
