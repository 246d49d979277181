"""T02: a tracker's log file is valid after every dump, pause and failure."""
from props import tracks

W = {"track": 3, "set": 1, "clear": .8, "pause": 1, "dump": 6, "new": .6}


def run(ctx):
    tracks.run(ctx, ["rewrite", "touchfirst"], W, 90, [10, 16, 24])
