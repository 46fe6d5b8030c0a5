"""M10: moving large values to files is unobservable."""
from .m09 import CleanWorld as StoreWorld      # after a cleanup, exactly what is used is stored
from mandala.utils import serialize

LEVEL = "model_checking"
BOUNDS = "all event histories up to the depth given per part"
R0, R1, R2 = ("r", 0), ("r", 1), ("r", 2)
BIG = "b" * 2000 + "0"


def run(ctx):
    exact = len(serialize(serialize(BIG))) / 1024 / 1024      # exactly the size of a large value
    calls = [("big", 0), ("big", 1), ("size", R0), ("size", R1), ("inc", 0), ("big", R0), ("mk", 0), ("tot", R0)]
    ev = [("block",), ("clear",), ("reopen",), ("preload", "full"), ("cleanup",), ("detach",)]
    for name, t in (("all in files", 0), ("large in files", 0.001), ("at the threshold", exact), ("none in files", 50)):
        ctx.bfs(name, StoreWorld, ctx.pick(3, 4), dict(file=True, overflow=t, deep=not ctx.quick, events=ev + [("drop", 0, True)], calls=calls[:6]))
    start = (("call", "big", 0), ("call", "size", R0), ("call", "big", R0), ("call", "inc", 0), ("block",))
    for name, t in (("all in files", 0), ("large in files", 0.001)):
        ctx.bfs(f"saved history, {name}", StoreWorld, ctx.pick(3, 4), dict(file=True, overflow=t, start=start, refs=4, events=[
            ("rethreshold", 0), ("rethreshold", 0.001), ("rethreshold", 50), ("cleanup",), ("clear",), ("preload", "full"), ("drop", 0, False), ("drop", 1, True), ("detach",)],
            calls=[("big", 0), ("size", R2), ("big", 1)]))
    # one value both in a file and in the database
    for name, a, b in (("file first", 0, 50), ("database first", 50, 0)):
        start = (("call", "big", 0), ("block",), ("rethreshold", b), ("call", "large", 0), ("block",))
        ctx.bfs(f"in two places, {name}", StoreWorld, ctx.pick(3, 4), dict(file=True, overflow=a, start=start, refs=4, events=[
            ("rethreshold", a), ("rethreshold", b), ("cleanup",), ("clear",), ("preload", "full"), ("drop", 0, False), ("drop", (0, 1), False), ("detach",)],
            calls=[("big", 0), ("large", 0), ("size", R0)]))
    ctx.bfs("collections in files", StoreWorld, ctx.pick(3, 4), dict(file=True, overflow=0, deep=False, events=ev[:3],
            calls=[("mk", 0), ("tot", R0), ("mkd", 0), ("totd", R0), ("inc", ("e", 0, 1)), ("nest", 0)]))
    ctx.bfs("in memory", StoreWorld, ctx.pick(3, 4), dict(file=False, overflow=0.001, events=ev, calls=calls[:5]))
    # other kinds of values
    for name, t in (("all in files", 0), ("large in files", 0.001), ("none in files", 50)):
        ctx.bfs(f"kinds of values, {name}", StoreWorld, ctx.pick(3, 4), dict(file=True, overflow=t, deep=False, events=ev[:5] + [("rethreshold", 0), ("rethreshold", 50)],
                calls=[("arr", 1), ("asum", R0), ("half", R0), ("table", 1), ("rows", R0), ("pack", 1)]))
    start = (("call", "arr", 1), ("call", "half", R0), ("call", "asum", R0), ("call", "table", 1), ("call", "pack", 1), ("block",))
    ctx.bfs("saved history of other values", StoreWorld, ctx.pick(2, 3), dict(file=True, overflow=0, start=start, refs=5, events=[
            ("rethreshold", 0.001), ("rethreshold", 50), ("cleanup",), ("clear",), ("preload", "full"), ("drop", 0, True), ("detach",), ("attach",)],
            calls=[("arr", 1), ("half", R2), ("asum", ("r", 3)), ("rows", R1)]))
