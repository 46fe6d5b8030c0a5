"""V02: with versioning on, calls unaffected by a change, and calls under restored
code, are not executed again. All histories of edits (cosmetic, declared non-semantic,
reverted, unrelated, relevant to some calls only) and calls; executions and questions
are counted against an oracle that tracks what every call used."""
from ..vers import VWorld
from .. import projects

LEVEL = "model_checking"
BOUNDS = "all histories of edits, decisions, synchronizations and calls up to the depth given per part; at every state all calls are also made in a new session"
ASSUMPTIONS = ["code does not change while a block is open", "helper functions are decorated with @track, as the documentation requires",
               "a change declared non-semantic does not hide a dependency (the caveat in the documentation)"]


def run(ctx):
    E = lambda *ps, m="va": tuple((m, p, v) for p, vs in ps for v in vs)
    warm = (("C", "f", (0,), "y"), ("C", "f", (1,), "y"))
    ctx.bfs("cosmetic edits", VWorld, ctx.pick(4, 6), dict(project="chain", start=warm, answers="ny", calls=(("f", (1,)),), probe=(("f", (0,)), ("f", (1,)), ("g", (0,))), inspect=False,
        edits=E(("leaf", (0, 2)), ("f", (0, 2)), ("mid", (0, 1)))))
    ctx.bfs("edits and reverts", VWorld, ctx.pick(5, 8), dict(project="chain", answers="y", sync=False, reopen=True, calls=(("f", (0,)), ("f", (1,))), probe=(("f", (1,)), ("f", (0,))), inspect=False,
        edits=E(("G", (0, 1, 2)), ("mid", (0, 1)))))
    # the same call under more and more versions
    many = tuple(x for g in (0, 1, 2) for x in (("E", "va", "G", g), ("C", "f", (0,), "y")))
    ctx.bfs("many versions", VWorld, ctx.pick(3, 5), dict(project="chain", start=many, answers="y", sync=False, reopen=True, calls=(("f", (0,)),), probe=(("f", (0,)), ("f", (1,))), inspect=False,
        edits=E(("G", (0, 1, 2)), ("leaf", (0, 1)), ("mid", (0, 1)))))
    ctx.bfs("per call", VWorld, ctx.pick(4, 6), dict(project="nested", start=(("C", "p", (0,), "y"), ("C", "p", (1,), "y")), answers="yn", sync=False, inspect=False,
        calls=(("p", (1,)), ("f", (0,))), probe=(("p", (1,)), ("p", (0,)), ("f", (1,)), ("f", (0,)), ("q", (1,))), edits=E(("q", (0, 1, 2)), ("f", (0, 1)), ("H", (0, 1)))))
    ctx.bfs("unrelated edits", VWorld, ctx.pick(3, 4), dict(project="noise", start=warm + (("C", "other", (1,), "y"),), answers="y", sync=False, reopen=True, inspect=False,
        calls=(("f", (1,)), ("other", (1,))), probe=(("f", (0,)), ("f", (1,)), ("other", (1,))),
        edits=E(("pad", (0, 1, 2, 3)), ("unused", (0, 1, 2)), ("W", (0, 1, 2)), ("helper", (0, 1)), m="vb") + E(("pad", (0, 1, 2)), ("other", (0, 1)), ("f", (0, 1)))))
    ctx.bfs("two modules", VWorld, ctx.pick(2, 4), dict(project="two", answers="n", sync=False, calls=(("f", (1,)), ("f", (3,))), probe=tuple(("f", (i,)) for i in range(5)), inspect=False,
        edits=tuple(("vb", p, v) for p, vs in (("away", (0, 1)), ("K", (0, 1, 2)), ("KI", (0, 1))) for v in vs) + E(("M", (0, 1))), start=tuple(("C", "f", (i,), "y") for i in range(5))))
