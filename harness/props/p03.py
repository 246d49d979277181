"""P03: pipeline failures stop, report and propagate as configured."""
from props import pipes

W = {"ops": {"exec": 7, "add_insert": .6, "add_send": 2, "add_step": .7, "reindex": .2, "track": .4,
             "itnew": .6, "itnext": 2, "new": .5, "add_capture": .5, "add_captures": .3},
     "ins": 0.3, "snd": 0.5, "trk": 0.5, "opt": 0.4, "partial": 0.2, "fault": 0.55, "long": 0.08, "len": 12}


def run(ctx):
    pipes.run(ctx, "faults", 2, 2, W, [("resumed", "faults")], 704, 500, (3, 2))
