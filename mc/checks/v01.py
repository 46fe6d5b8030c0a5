"""V01: with versioning on, a result of an outdated version is never returned. All
histories of edits, answers and calls on small projects, against an oracle that runs
the current code and remembers results under the code they were computed with."""
from ..vers import VWorld
from .. import projects

LEVEL = "model_checking"
BOUNDS = "all histories of edits, decisions, synchronizations and calls up to the depth given per part; at every state all calls are also made in a new session"
ASSUMPTIONS = ["code does not change while a block is open", "helper functions are decorated with @track, as the documentation requires",
               "a change declared non-semantic does not hide a dependency (the caveat in the documentation)"]


def run(ctx):
    E = lambda *ps: tuple(("va", p, v) for p, vs in ps for v in vs)
    ctx.bfs("chain", VWorld, ctx.pick(5, 6), dict(project="chain", calls=(("f", (0,)), ("f", (1,)))[ctx.quick:], probe=(("f", (0,)), ("f", (1,)), ("g", (0,))),
        edits=E(("leaf", (0, 1, 3)), ("G", (0, 1)), ("mid", (0, 1)))))
    ctx.bfs("nested ops", VWorld, ctx.pick(4, 6), dict(project="nested", calls=(("f", (1,)), ("q", (1,))), probe=(("p", (1,)), ("f", (1,)), ("f", (0,)), ("q", (1,))),
        edits=E(("leaf", (0, 1)), ("q", (0, 1)), ("G", (0, 1)))))
    ctx.bfs("two modules", VWorld, ctx.pick(3, 5), dict(project="two", answers="y", calls=(("f", (1,)), ("f", (3,))), probe=tuple(("f", (i,)) for i in range(5)),
        edits=tuple(("vb", p, v) for p, vs in (("W", (0, 1, 2)), ("away", (0, 1)), ("K", (0, 1, 2)), ("KI", (0, 1))) for v in vs) + E(("M", (0, 1))), start=tuple(("C", "f", (i,), "y") for i in range(5))))
    ctx.bfs("parts come and go", VWorld, ctx.pick(5, 7), dict(project="moves", answers="y", calls=(("f", (1,)),),
        edits=(("va", "f", 0), ("va", "f", 1), ("va", "f", 2), ("va", "mid", 1), ("va", "mid", 2), ("va", "leaf", 0), ("va", "leaf", 2), ("va", "G", 0), ("va", "G", 2))))
    ctx.bfs("names bound to other functions", VWorld, ctx.pick(4, 6), dict(project="alias", answers="y", calls=(("f", (0,)), ("f", (1,)), ("f", (2,)))[ctx.quick:], probe=(("f", (0,)), ("f", (1,)), ("f", (2,))),
        edits=tuple(("va", p, v) for p in ("imp", "imq", "al") for v in (0, 1)) + (("vb", "W", 1), ("vb", "one", 1))))
    ctx.bfs("an op used twice", VWorld, ctx.pick(4, 6), dict(project="twice", answers="y", calls=(("f", (0,)), ("f", (1,)), ("p", (0,))), probe=(("f", (0,)), ("f", (1,)), ("p", (0,)), ("p", (1,)), ("q", (0,)), ("q", (1,))),
        edits=E(("h0", (0, 1)), ("h1", (0, 1)))))
