"""P02: sends deliver each step's output, in order, exactly once."""
from props import pipes

W = {"ops": {"exec": 6, "add_insert": .6, "add_send": 4, "add_step": .7, "reindex": .2,
             "itnew": .6, "itnext": 2, "new": .3, "add_capture": 1, "add_captures": .5},
     "ins": 0.2, "snd": 0.6, "trk": 0.15, "opt": 0.1, "partial": 0.15, "fault": 0.05, "len": 14}


def run(ctx):
    pipes.run(ctx, "sends", 2, 2, W, [("altered", "sends")], 600, 500, (3, 2))
