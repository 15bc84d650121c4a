"""P15: track tag names round-trip."""
from table import Tab
from rules import common as C


def run(ctx):
    F = ctx.facts("all")
    ctx.rule = "decision tables of TrackInfoTag::{name,from_str,fmt} extracted from MIR are mutually inverse"
    C.tag_tables(ctx, F, Tab(F), "video::TrackInfoTag", floor=9, codes=False)
