"""D02: optional calls capture failures and required calls raise them."""
from props import dyns

W = {"load": 1, "unload": .7, "src": 1.5, "call": 12, "compile": .2, "define": .2, "loc": .4, "opt": 1, "new": .7}


def run(ctx):
    dyns.run(ctx, [("stickyopt", "cycle"), ("recordall", "cycle"), ("shared", "two")], W, 300)
