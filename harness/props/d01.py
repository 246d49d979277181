"""D01: a dynamic function's life cycle follows its declared states."""
from props import dyns

W = {"load": 4, "unload": 3, "src": 4, "call": 5, "compile": 1, "define": 1, "loc": 1, "opt": .5, "new": 1}


def run(ctx):
    dyns.run(ctx, [("keepflags", "cycle"), ("oldsource", "cycle")], W, 300)
