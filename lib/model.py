"""Reference model of Ruby values: None/bool/int/float/str, Sym, list (Array), RHash, Rng."""


class Sym:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Sym) and o.n == self.n

    def __hash__(self):
        return hash(("sym", self.n))

    def __repr__(self):
        return ":" + self.n


class Rng:
    __slots__ = ("a", "b", "x")

    def __init__(self, a, b, x):
        self.a, self.b, self.x = a, b, x

    def ints(self):
        return range(self.a, self.b + (0 if self.x else 1))


class RErr(Exception):
    """A Ruby exception (class name)."""

    def __init__(self, cls="", msg=None):
        self.cls, self.msg = cls, msg


class RHash:
    def __init__(self, pairs=(), default=None):
        self.d = {}
        self.default = default
        self.defproc = None
        for k, v in pairs:
            self.set(k, v)

    def set(self, k, v):
        h = hk(k)
        if h in self.d:
            self.d[h] = (self.d[h][0], v)
        else:
            self.d[h] = (k, v)

    def has(self, k):
        return hk(k) in self.d

    def get(self, k, dflt=None):
        x = self.d.get(hk(k))
        return x[1] if x else dflt

    def delete(self, k):
        x = self.d.pop(hk(k), None)
        return x[1] if x else None

    def items(self):
        return list(self.d.values())

    def keys(self):
        return [k for k, _ in self.d.values()]

    def values(self):
        return [v for _, v in self.d.values()]

    def copy(self):
        r = RHash(self.items(), self.default)
        r.defproc = self.defproc
        return r

    def __len__(self):
        return len(self.d)


def hk(v):
    """A Python key with Ruby's eql? semantics."""
    if v is None:
        return ("nil",)
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, int):
        return ("i", v)
    if isinstance(v, float):
        return ("f", v if v != 0 else 0.0)
    if isinstance(v, str):
        return ("s", v)
    if isinstance(v, Sym):
        return ("y", v.n)
    if isinstance(v, list):
        return ("a",) + tuple(hk(x) for x in v)
    if isinstance(v, Rng):
        return ("r", hk(v.a), hk(v.b), v.x)
    if isinstance(v, RHash):
        return ("h", frozenset((h, hk(x[1])) for h, x in v.d.items()))
    return ("o", id(v))


def truthy(v):
    return v is not None and v is not False


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def eq(a, b):
    """Ruby =="""
    if isnum(a) and isnum(b):
        if type(a) is not type(b):
            a, b = float(a), float(b)   # ruruby converts the Integer (pinned by its tests)
        return a == b
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, RHash):
        return len(a) == len(b) and all(h in b.d and eq(x[1], b.d[h][1]) for h, x in a.d.items())
    if isinstance(a, Rng):
        return eq(a.a, b.a) and eq(a.b, b.b) and a.x == b.x
    return a == b


def eql(a, b):
    return hk(a) == hk(b)


def cmp(a, b):
    """Ruby <=>; None when not comparable."""
    if isnum(a) and isnum(b):
        if type(a) is not type(b):
            a, b = float(a), float(b)
        return (a > b) - (a < b)
    if isinstance(a, str) and isinstance(b, str):
        x, y = a.encode(), b.encode()
        return (x > y) - (x < y)
    if isinstance(a, Sym) and isinstance(b, Sym):
        return (a.n > b.n) - (a.n < b.n)
    if isinstance(a, list) and isinstance(b, list):
        for x, y in zip(a, b):
            c = cmp(x, y)
            if c != 0:
                return c
        return (len(a) > len(b)) - (len(a) < len(b))
    if eq(a, b):
        return 0
    return None


def lt(a, b):
    c = cmp(a, b)
    if c is None:
        raise RErr("ArgumentError")
    return c < 0


ESC = {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t", "\r": "\\r", "\x1b": "\\e", "\0": "\\0"}


def sinsp(s):
    o = '"'
    for i, c in enumerate(s):
        if c in ESC and c != "\0":
            o += ESC[c]
        elif c == "#" and s[i + 1:i + 2] in ("{", "$", "@"):
            o += "\\#"
        else:
            o += c
    return o + '"'


def fstr(f):
    if f != f:
        return "NaN"
    if f in (float("inf"), float("-inf")):
        return "inf" if f > 0 else "-inf"
    r = repr(f)
    if "e" in r:
        from decimal import Decimal
        if abs(f) >= 1:
            return str(int(f)) + ".0"
        return format(Decimal(r), "f")
    return r


def insp(v, seen=()):
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return fstr(v)
    if isinstance(v, str):
        return sinsp(v)
    if isinstance(v, Sym):
        return ":" + v.n
    if isinstance(v, list):
        return "[" + ", ".join(insp(x) for x in v) + "]"
    if isinstance(v, Rng):
        return insp(v.a) + ("..." if v.x else "..") + insp(v.b)
    if isinstance(v, RHash):
        if not v.d:
            return "{}"
        return "{" + ", ".join("%s=>%s" % (insp(k), insp(x)) for k, x in v.items()) + "}"
    raise AssertionError(v)


def tos(v):
    if v is None:
        return ""
    if isinstance(v, str):
        return v
    if isinstance(v, Sym):
        return v.n
    return insp(v)


def lit(v):
    """Ruby source of a value."""
    if isinstance(v, str):
        return sinsp(v)
    if isinstance(v, list):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    if isinstance(v, Rng):
        return "(%s%s%s)" % (lit(v.a), "..." if v.x else "..", lit(v.b))
    if isinstance(v, RHash):
        return "{" + ", ".join("%s => %s" % (lit(k), lit(x)) for k, x in v.items()) + "}"
    if isnum(v) and (v < 0 or (v == 0 and str(v)[0] == "-")):
        return "(%s)" % insp(v)
    return insp(v)


def copyv(v):
    if isinstance(v, list):
        return [copyv(x) for x in v]
    return v
