"""M01: memoization is transparent and nothing is computed twice (explicit-state
search over histories of calls and session events on the real storage)."""
from ..store import StoreWorld

LEVEL = "model_checking"
BOUNDS = "all event histories up to the depth given per part (states merged when model state and storage state agree)"

R0, R1, R2, R3 = ("r", 0), ("r", 1), ("r", 2), ("r", 3)
SESSION = [("block",), ("clear",), ("reopen",), ("preload", "lazy"), ("preload", "full")]


def parts(ctx):
    base = dict(file=True, deep=False)
    # contents collide: values in {0,1,2}, raw and computed, several histories of one content
    yield "contents", ctx.pick(4, 5), dict(base, events=SESSION, calls=[
        ("inc", 0), ("inc", 1), ("inc", R0), ("inc", R1), ("par", R0), ("par", 2), ("add", R0, R1), ("two", R1, 1)])
    # several outputs, defaults given or omitted, unwrapped values passed again
    yield "outputs", ctx.pick(3, 4), dict(base, events=SESSION[:3], calls=[
        ("two", 0, 1), ("two", 1, 0), ("two", R0, R1), ("two", R1, R0), ("trip", R0, 0, R1), ("trip", 0, R0, 1),
        ("wide", 0), ("wide", R0), ("inc", R0), ("inc", ("u", 0)), ("add", 1), ("add", 1, 1), ("add", R0), ("add", R1, R0)])
    # collections as inputs and outputs
    yield "collections", ctx.pick(3, 4), dict(base, events=SESSION[:4], calls=[
        ("mk", 0), ("mk", R0), ("tot", R0), ("tot", ("L", 0, 1)), ("tot", ("L", R0, 1)), ("tot", ("L", ("e", 0, 1), ("e", 0, 0))),
        ("mkd", 0), ("totd", R0), ("totd", ("D", ("p", 0), ("q", 1))), ("totd", ("D", ("q", 1), ("p", 0))),
        ("nest", 0), ("tot", ("e", 0, 1)), ("inc", ("e", 0, 0)), ("inc", 0)])
    # starting from a saved history seen by a new session, nothing cached
    old = (("call", "inc", 0), ("call", "par", R0), ("call", "two", R0, R1), ("call", "mk", R1), ("call", "tot", R0), ("reopen",))
    yield "later session", ctx.pick(3, 4), dict(base, start=old, refs=4, events=SESSION, calls=[
        ("inc", 0), ("inc", R0), ("par", 1), ("par", R1), ("two", R0, R1), ("two", 1, 1), ("mk", R0), ("tot", ("L", 1, 2))])
    # a database in memory
    yield "in memory", ctx.pick(4, 5), dict(base, file=False, events=[("block",), ("clear",), ("preload", "lazy"), ("commit",)], calls=[
        ("inc", 0), ("inc", R0), ("par", R0), ("par", 1), ("add", R0, R1), ("tot", ("L", R0, R1))])
    # new calls switched off and on
    yield "new calls off", ctx.pick(3, 4), dict(base, start=old[:-1], refs=4, events=[("freeze", True), ("freeze", False), ("block",), ("clear",), ("reopen",)], calls=[
        ("inc", 0), ("inc", R0), ("par", R1), ("two", 1, 1), ("mk", R3), ("tot", ("L", 1, 2)), ("tot", ("L", R0, 1)), ("nest", 0)])


def run(ctx):
    for name, depth, params in parts(ctx):
        ctx.bfs(name, StoreWorld, depth, params, what=f"histories of depth {depth}")
