"""V03: the dependencies recorded for a call are exactly the code it used. All bodies
with at most the stated number of fragments, for an op and the functions under it, are
run on a real versioned storage; an oracle with instrumentation of its own gives the
dependencies of every call."""
import itertools, io, contextlib
from ..core import rearm
from ..vers import VRun, Project
from ..world import check

LEVEL = "model_checking"
BOUNDS = "all combinations of body fragments up to the stated numbers for the op, two functions and an inner op; calls on several inputs in one block, inner calls new or saved"
ASSUMPTIONS = ["code does not change while a block is open", "helper functions are decorated with @track, as the documentation requires"]

# fragment -> text in a body with argument x and accumulator r
FRAG = {
    "G": "r += G",
    "g": "if x > 1: r += G2",
    "a": "if x > 0: r += a(x - 1)",
    "b": "if x > 0: r += b(x - 1)",
    "v": "r += away(x)",
    "V": "r += away2(x, 1)",
    "t": "try: r += e(x)\n    except probe.Err: r += 1",
    "R": "raise probe.Err()",
    "E": "r += e(x)",
    "q": "r += probe.val(q(x))",
    "Q": "try: r += probe.val(qe(x))\n    except probe.Err: r += 1",
    "n": "with probe.noop(): r += probe.val(q(x))",
    "l": "r += (lambda y: y + L)(x)",
    "c": "r += sum([y + C for y in range(2)]) + sum(h(y) for y in range(2))",
    "y": "r += sum(gen(x))",
    "Y": "it = gen(x); r += next(it)",
    "k": "r += apply(lambda y: y + M, x)",
    "i": "def inner(y):\n        return y + I\n    r += inner(x)",
    "m": "r += KI.m(x)",
    "s": "r += KI.s(x)",
    "S": "r += KI.c(x)",
    "z": "r += len(repr(KI))",
    "o": "r += KO(x)",
    "I": "r += IG([x, 2])",
    "L": "G3 = 5; r += G3",
    "D": "r += T['k'] + (A2 if x else 0)",
}


def body(frags):
    return "".join("    " + FRAG[f] + "\n" for f in frags) or "    pass\n"


def fn(name, frags, deco, hit=True):
    return (f"{deco}\ndef {name}(x):\n    r = 0\n" + (f"    probe.hit('{name}', x)\n" if hit else "")
            + body(frags) + "    return r\n")


def project(f, a, b, q):
    vb = ("vb", "", [("W", ["W = 7"]), ("W2", ["W2 = [8]"]), ("YY", ["YY = 9"]),
          ("away", ["@track\ndef away(x):\n    return x + W\n"]),
          ("away2", ["@track\ndef away2(x, d):\n    return away(x) + W2[0] + (away2(x, d - 1) if d else 0)\n"]),
          ("gen", ["@track\ndef gen(x):\n    yield x\n    yield YY\n"]),
          ("apply", ["@track\ndef apply(fn, x):\n    return fn(x)\n"]),
          ])
    va = ("va", "from vb import away, away2, gen, apply\n", [
        (n, [f"{n} = {v}"]) for n, v in (("G", 1), ("G2", 2), ("L", 3), ("C", 4), ("M", 5), ("I", 6), ("E0", 7), ("N", 8), ("Q0", 9), ("H0", 11), ("A2", 12), ("G3", 14), ("T", "{'k': 13}"))] + [
        ("K", ["@track\nclass K:\n    def __init__(self, n):\n        self.n = n\n    def m(self, x):\n        return self.n + x + N\n"
               "    @staticmethod\n    def s(x):\n        return x + N\n    @classmethod\n    def c(cls, x):\n        return x + N\n"
               "    def __repr__(self):\n        return 'K' + str(self.n)\n"]),
        ("KI", ["KI = K(3)"]),
        ("J", ["@track\nclass J:\n    def __init__(self, n):\n        self.n = n\n    def __call__(self, x):\n        return self.n + x + N\n"
               "    def __repr__(self):\n        return 'J' + str(self.n)\n"]),
        ("KO", ["KO = J(4)"]), ("IG", ["import operator\nIG = operator.itemgetter(1)"]),
        ("h", ["@track\ndef h(x):\n    return x + H0\n"]),
        ("e", ["@track\ndef e(x):\n    r = E0\n    raise probe.Err()\n"]),
        ("a", [fn("a", a, "@track")]),
        ("b", [fn("b", b, "@track")]),
        ("q", [fn("q", q, "@op")]),
        ("qe", ["@op\ndef qe(x):\n    probe.hit('qe', x)\n    return h(x) + e(x)\n"]),
        ("f", [fn("f", f, "@op")]),
        ("g", ["@track\n@op\ndef g(x):\n    probe.hit('g', x)\n    return h(x) + (b(x) if x else 0)\n"]),
    ])
    return Project(vb, va)


def words(letters, n):
    for k in range(n + 1):
        for w in itertools.product(letters, repeat=k):
            if "R" not in w[:-1]:
                yield "".join(w)


CALLS = [[("f", (2,)), ("g", (1,)), ("f", (0,))], [("q", (2,)), ("f", (2,)), ("f", (2,)), ("g", (0,))]]


def one(item):
    (f, a, b, q), which, strict = item
    r = VRun(project(f, a, b, q), **(dict(strict_tracing=True) if strict else {}))
    try:
        rearm()
        with contextlib.redirect_stdout(io.StringIO()):
            r.block(CALLS[which], "", inspect=True)
            r.block(CALLS[which], "", inspect=True)
        return {"outcome": r.m.canon(), "steps": 2}
    finally:
        r.close()


def mutual(item):
    return one(item)


PARTS = {"bodies": one, "functions": one, "nested ops": one, "strict": one}


def run(ctx):
    t = not ctx.quick
    al = "".join(FRAG)
    flat = "GgvVtRElcyYkimsSzoILD"
    items = []
    # the op's own body
    for f in words(al, 2):
        for w in (0, 1):
            if w == 0 or set(f) & set("qQn"):
                items.append(((f, "Gb", "v", "Gb"), w, False))
    if t:
        for f in words("GabvtqQncykmsz", 3):
            if len(f) == 3:
                items.append(((f, "Gb", "t", "va"), len(f) % 2, False))
    ctx.enumerate("bodies", one, items, 16, what="every body of the op up to 2 fragments" + (" (3 over a smaller set)" if t else ""))
    # functions below it
    items = []
    for f in ("a", "ab", "ta"):
        for a in words("GabvtREqQnyk" if not t else "GabvtREqQnykmslcD", 2):
            for b in ("", "a", "G", "t", "E", "q"):
                if "b" in a or b == "":
                    items.append(((f, a, b, "v"), 0, False))
    ctx.enumerate("functions", one, items, 16, what="every body of a function below, up to 2 fragments, with recursion")
    # inner ops
    items = []
    for f in ("q", "Qq", "qG", "nq", "qn", "aq"):
        for q in words("GabvtREQcykms", 2):
            for w in (0, 1):
                items.append(((f, "q" if "a" in f else "G", "t", q), w, False))
    ctx.enumerate("nested ops", one, items, 16, what="every body of an inner op up to 2 fragments, new or saved before")
    items = [((f, "Gb", "v", "G"), 0, True) for f in words("GabvVtQqnym" if not t else flat + "abqQn", 2) if "i" not in f and "l" not in f and "k" not in f]
    ctx.enumerate("strict", one, items, 16, what="with strict tracing")
