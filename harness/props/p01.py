"""P01: a pipeline computes its steps in order with its inserts."""
from props import pipes

W = {"ops": {"exec": 6, "add_insert": 3, "add_send": .5, "add_step": .7, "reindex": .3,
             "itnew": .6, "itnext": 2, "new": .6, "add_capture": .2},
     "ins": 0.6, "snd": 0.15, "trk": 0.1, "opt": 0.1, "partial": 0.45, "fault": 0.03, "len": 12}


def run(ctx):
    pipes.run(ctx, "args", 2, 2, W, [("altered", "sends")], 600, 500, (3, 2))
