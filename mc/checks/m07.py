"""M07: cache operations and session boundaries are unobservable. Every history with
cache events is compared with the reference model, which has no caches."""
from ..store import StoreWorld
from ..world import check
from ..core import Violation

LEVEL = "model_checking"
BOUNDS = "all event histories up to the depth given per part"
R0, R1, R2 = ("r", 0), ("r", 1), ("r", 2)
PRE_IN = [("preload_in", "lazy"), ("preload_in", "full")]
PRE = [("preload", k) for k in ("calls", "shapes", "ops", "atoms", "lazy", "full")]


def run(ctx):
    old = (("call", "two", 0, 1), ("call", "inc", R0), ("call", "mk", R1), ("call", "tot", R0))
    ev = [("clear",), ("reopen",), ("commit",), ("clear_in",), ("forget",), ("detach",), ("attach",), ("block",)] + PRE
    ctx.bfs("saved history", StoreWorld, ctx.pick(2, 3), dict(file=True, frames=True, start=old + (("reopen",),), refs=4, events=ev + PRE_IN, calls=[
        ("inc", R1), ("two", 0, 1), ("mk", R2), ("tot", ("L", 0, 1)), ("par", R0)]))
    ctx.bfs("cache events", StoreWorld, ctx.pick(4, 5), dict(file=True, deep=False, start=old[:2], events=ev[:5] + PRE[-2:] + PRE_IN[1:] + [("attach",), ("detach",)], calls=[
        ("inc", R0), ("par", R1), ("inc", 1)]))
    ctx.bfs("in memory", StoreWorld, ctx.pick(4, 5), dict(file=False, deep=False, start=old[:2], events=ev + PRE_IN, calls=[
        ("inc", R0), ("mk", R0), ("tot", R0)]))
    # cache events between deletions
    ctx.bfs("with deletions", StoreWorld, ctx.pick(3, 4), dict(file=True, deep=True, frames=True, start=old[:2], refs=2,
        events=[PRE_IN[1], ("clear",), ("preload", "calls"), ("preload", "full"), ("drop", 0, False), ("drop", 1, True), ("reopen",)], calls=[
        ("inc", R0), ("two", 0, 1)]))
