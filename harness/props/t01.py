"""T01: a tracker keeps exactly what was tracked, in order."""
from props import tracks

W = {"track": 8, "set": 3, "clear": .5, "pause": .5, "dump": 1, "new": .6}


def run(ctx):
    tracks.run(ctx, ["keepcount"], W, 90, [10, 20, 40])
