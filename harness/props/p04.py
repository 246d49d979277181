"""P04: editing a pipeline has exactly the declared effect."""
from props import pipes

W = {"ops": {"exec": 5, "add_insert": 1.5, "add_send": 1.5, "add_step": 3, "reindex": 1.5, "track": 1,
             "itnew": .6, "itnext": 1.5, "new": .2, "add_capture": .7, "add_captures": .7},
     "ins": 0.3, "snd": 0.3, "trk": 0.4, "opt": 0.1, "partial": 0.2, "fault": 0.08, "len": 16}


def run(ctx):
    pipes.run(ctx, "edits", 3, 1, W, [("doubletrack", "edits")], 1200, 400, (4, 2))
