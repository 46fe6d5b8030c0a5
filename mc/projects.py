"""the versioned projects that the V checks explore"""
from .vers import Project, VWorld

T, O = "@track\n", "@op\n"


def f(deco, name, args, body, c=""):
    return f"{deco}def {name}({args}):{c}\n    {body}\n"


LEAF = ("leaf", [f(T, "leaf", "x", "return x + G"), f(T, "leaf", "x", "return x + G + 100"), f(T, "leaf", "x", "return x + G", "  # the same"),
                 f(T, "leaf", "x", "return x + 1000")])
CHAIN = Project(("va", "", [
    ("G", ["G = 1", "G = 2", "G = 3"]),
    LEAF,
    ("mid", [f(T, "mid", "x", "return leaf(x) * 2"), f(T, "mid", "x", "return leaf(x) * 3")]),
    ("f", [O + "def f(x):\n    probe.hit('f', x)\n    return mid(x) if x else leaf(x)\n",
           O + "def f(x):\n    probe.hit('f1', x)\n    return (mid(x) if x else leaf(x)) + 7\n",
           O + "def f(x):\n    # same\n    probe.hit('f', x)\n    return mid(x) if x else leaf(x)\n"]),
    ("g", [O + "def g(x):\n    probe.hit('g', x)\n    return 5\n"]),
]))
NESTED = Project(("va", "", [
    ("G", ["G = 1", "G = 2"]),
    ("H", ["H = [1]", "H = [1, 2]"]),
    LEAF,
    ("q", [O + "def q(x):\n    probe.hit('q', x)\n    return leaf(x)\n", O + "def q(x):\n    probe.hit('q', x)\n    return leaf(x) + 50\n",
           O + "def q(x):\n    # same\n    probe.hit('q', x)\n    return leaf(x)\n"]),
    ("f", [O + "def f(x):\n    probe.hit('f', x)\n    r = probe.val(q(x)) if x else 3\n    return r * 2 + len(H)\n",
           O + "def f(x):\n    probe.hit('f', x)\n    r = probe.val(q(x)) if x else 3\n    return r * 2 + len(H) + 9\n"]),
    ("p", [O + "def p(x):\n    probe.hit('p', x)\n    return f(x)\n"]),
]))
TWO = Project(
    ("vb", "", [
        ("W", ["W = 1", "W = {'a': 1}", "W = 1.0"]),
        ("away", [f(T, "away", "x", "return x + (W if isinstance(W, int) else 20)"), f(T, "away", "x", "return x - (W if isinstance(W, int) else 20)")]),
        ("gen", [T + "def gen(x):\n    yield x\n    yield W if isinstance(W, int) else 30\n"]),
        ("K", [T + "class K:\n    def __init__(self, n):\n        self.n = n\n    def m(self, x):\n        return self.n + x\n    @staticmethod\n    def s(x):\n        return x * 5\n",
               T + "class K:\n    def __init__(self, n):\n        self.n = n\n    def m(self, x):\n        return self.n - x\n    @staticmethod\n    def s(x):\n        return x * 5\n",
               T + "class K:\n    def __init__(self, n):\n        self.n = n\n    def m(self, x):\n        return self.n + x\n    @staticmethod\n    def s(x):\n        return x * 6\n"]),
        ("KI", ["KI = K(3)", "KI = K(4)"]),
        ("apply", [f(T, "apply", "fn, x", "return fn(x)")]),
    ]),
    ("va", "from vb import away, gen, apply, KI\n", [
        ("M", ["M = 5", "M = 6"]),
        ("f", [O + "def f(x):\n    probe.hit('f', x)\n    if x == 0: return sum(gen(x))\n    if x == 1: return KI.m(x)\n    if x == 2: return KI.s(x)\n    if x == 3: return apply(lambda y: y + M, x)\n    return away(x)\n"]),
    ]))
MOVES = Project(("va", "", [
    ("G", ["G = 1", None, "G = 2"]),
    ("leaf", [f(T, "leaf", "x", "return x + 1"), None, f(T, "leaf", "x", "return x + 2")]),
    ("mid", [None, f(T, "mid", "x", "return x + 1"), f(T, "mid", "x", "return x + 3")]),
    ("f", [O + "def f(x):\n    probe.hit('f', x)\n    return leaf(x) + G\n",
           O + "def f(x):\n    probe.hit('f', x)\n    return mid(x)\n",
           O + "def f(x):\n    probe.hit('f', x)\n    return x\n"]),
]))
ALIAS = Project(
    ("vb", "", [("W", ["W = 1", "W = 2"]),
        ("one", [f(T, "one", "x", "return x + W"), f(T, "one", "x", "return x + W + 50")]), ("two", [f(T, "two", "x", "return x + 20 + W")]),
        ("qa", [O + "def qa(x):\n    probe.hit('qa', x)\n    return x + 300\n"]), ("qb", [O + "def qb(x):\n    probe.hit('qb', x)\n    return x + 400\n"])]),
    ("va", "", [
        ("imp", ["from vb import one as impl", "from vb import two as impl"]),
        ("imq", ["from vb import qa as q", "from vb import qb as q"]),
        ("own", [f(T, "own", "x", "return x + 7")]),
        ("al", ["impl2 = impl", "impl2 = own"]),
        ("f", [O + "def f(x):\n    probe.hit('f', x)\n    return impl(x) if x == 0 else probe.val(q(x)) if x == 1 else impl2(x)\n"]),
    ]))
VWorld.projects.update(alias=ALIAS, chain=CHAIN, nested=NESTED, two=TWO, moves=MOVES)
NOISE = Project(
    ("vb", "", [
        ("pad", ["", "# a comment\n\n\n", "def unrelated(x):\n    return 3\n", "W0 = [4]\nimport math\n"]),
        ("unused", [f(T, "unused", "x", "return x"), f(T, "unused", "x", "return x + 1"), None]),
        ("W", ["W = {'b': [1], 'a': 2}", "W = {**{'b': [1]}, **{'a': 1 + 1}}", "W = {'b': [1], 'a': 3}"]),
        ("helper", [f(T, "helper", "x", "return x + W['a']"), f(T, "helper", "x", "return x + W['a'] + 30")]),
    ]),
    ("va", "from vb import helper\n", [
        ("pad", ["", "'''text'''\n\n", "V9 = 1\n"]),
        ("other", [O + "def other(x):\n    probe.hit('other', x)\n    return helper(x)\n", O + "def other(x):\n    probe.hit('other', x)\n    return helper(x) + 1\n"]),
        ("f", [O + "def f(x):\n    probe.hit('f', x)\n    return helper(x) if x else -1\n",
               O + "def f(x):\n    probe.hit('f', x)\n    return helper(x) if x else -1\n   \n\n"]),
    ]))
VWorld.projects.update(noise=NOISE)
LIFE = Project(("va", "", [
    ("G", ["G = 1", "G = 2"]),
    ("U", ["U = 5", "U = (i for i in ())", "U = 6"]),
    ("odd", ["", "import dataclasses\n@dataclasses.dataclass\nclass A:\n    x: int = 1\n", "exec('def made(x): return x')\n",
             "import collections, functools, enum\nNT = collections.namedtuple('NT', 'a b')\nlam = lambda x: x\n@functools.lru_cache\ndef cached(x): return x\nclass E(enum.Enum):\n    X = 1\npart = functools.partial(int, base=2)\n"]),
    LEAF,
    ("f", [O + "def f(x):\n    probe.hit('f', x)\n    return leaf(x) * 10\n"]),
    ("g", [O + "def g(y):\n    probe.hit('g', y)\n    return y + 1\n", O + "def g(y):\n    probe.hit('g', y)\n    return y + 2\n"]),
    ("p", [O + "def p(x):\n    probe.hit('p', x)\n    return probe.val(f(x)) + 3\n"]),
    ("u", [O + "def u(x):\n    probe.hit('u', x)\n    return x + (U if isinstance(U, int) else 100)\n"]),
    ("bad", [O + "def bad(x):\n    probe.hit('bad', x)\n    leaf(x)\n    raise probe.Err()\n"]),
]))
VWorld.projects.update(life=LIFE)
# one op used twice, each time along other code
TWICE = Project(("va", "", [
    ("h0", [f(T, "h0", "x", "return x + 1"), f(T, "h0", "x", "return x + 100")]),
    ("h1", [f(T, "h1", "x", "return x + 1"), f(T, "h1", "x", "return x + 200")]),
    ("q", [O + "def q(x):\n    probe.hit('q', x)\n    return h0(x) if x == 0 else h1(x) if x == 1 else x\n"]),
    ("f", [O + "def f(x):\n    probe.hit('f', x)\n    return probe.val(q(x)) + probe.val(q(1 - x)) * 1000\n"]),
    ("p", [O + "def p(x):\n    probe.hit('p', x)\n    return probe.val(q(2)) + probe.val(f(x))\n"]),
]))
VWorld.projects.update(twice=TWICE)
