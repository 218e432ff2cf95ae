"""C01: Integer arithmetic is exact for all magnitudes, in every call form."""
from driver import Case
from gen import from_g
import math

ID = "C01"
EXAMPLES = dict(quick=3000, thorough=60000)
RULE = ("One evaluation = one integer expression (tree of 1-4 operators over values around 0, i32, fixnum, i64 and bignum boundaries) "
        "printed by ruruby and compared with Python's integers; operands appear as literals, variables, parameters, explicit calls, send and op-assign. "
        "Non-trivial: some operand or intermediate result is outside 31 bits, or the expression raises, or has 2+ operators.")

BOUND = [0, 1, 2, 3, 7, 10, 31, 32, 62, 63, 64, 255, 2**15, 2**30, 2**31, 2**32, 2**53, 2**60, 2**61, 2**62, 2**63, 2**64, 2**65, 2**93, 2**127, 2**128]


class ZeroDiv(Exception):
    pass


def value(g):
    k = g.int(0, 9)
    if k <= 2:
        v = g.int(0, 20)
    elif k <= 6:
        v = g.choice(BOUND) + g.int(-2, 2)
    elif k == 7:
        v = g.int(0, 2**62)
    elif k == 8:
        v = g.int(0, 2**64)
    else:
        v = g.int(0, 2**130)
    return -v if g.bool() else v


def fdiv(a, b):
    if b == 0:
        raise ZeroDiv
    return a // b


def fmod(a, b):
    if b == 0:
        raise ZeroDiv
    return a % b


def cmp(a, b):
    return (a > b) - (a < b)


BIN = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": fdiv, "%": fmod,
    "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
    "<=>": cmp, "==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
}
METH2 = {
    "div": fdiv, "gcd": math.gcd, "lcm": lambda a, b: abs(a // math.gcd(a, b) * b) if a and b else 0,
    "gcdlcm": lambda a, b: [math.gcd(a, b), (abs(a // math.gcd(a, b) * b) if a and b else 0)],
    "eql?": lambda a, b: a == b, "===": lambda a, b: a == b,
}
METH1 = {
    "abs": abs, "even?": lambda a: a % 2 == 0, "odd?": lambda a: a % 2 == 1, "succ": lambda a: a + 1, "next": lambda a: a + 1,
    "pred": lambda a: a - 1, "bit_length": lambda a: (a if a >= 0 else ~a).bit_length(), "to_s": str, "inspect": str,
    "to_i": lambda a: a, "to_int": lambda a: a, "floor": lambda a: a, "-@": lambda a: -a, "+@": lambda a: a,
    "digits": None,
}


def rb(v):
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, list):
        return "[" + ", ".join(rb(x) for x in v) + "]"
    return str(v)


def lit(g, v):
    """A literal denoting v."""
    a = abs(v)
    k = g.int(0, 5)
    if k == 1:
        s = hex(a)
    elif k == 2:
        s = bin(a)
    elif k == 3 and a >= 1000:
        s = "{:_}".format(a)
    else:
        s = str(a)
    return "(-" + s + ")" if v < 0 else s


class Big(Exception):
    pass


class E:
    """Builds an expression; statements before it go to self.pre."""

    def __init__(self, g, n):
        self.g, self.pre, self.n, self.k = g, [], n, 0
        self.nontriv = False
        self.ops = 0

    def var(self):
        self.k += 1
        return "v%d_%d" % (self.n, self.k)

    def leaf(self):
        v = value(self.g)
        if abs(v) >= 2**30:
            self.nontriv = True
        s = lit(self.g, v)
        if self.g.bool(1, 2):
            x = self.var()
            self.pre.append("%s = %s" % (x, s))
            s = x
        return s, v

    def form(self, op, a, b):
        g = self.g
        k = g.int(0, 6)
        if k <= 2:
            return "(%s %s %s)" % (a, op, b)
        if k == 3:
            return "%s.%s(%s)" % (a if a[0].isalpha() or a[0] == "(" else "(" + a + ")", op, b)
        if k == 4:
            return "%s.send(:%s, %s)" % (a if a[0].isalpha() or a[0] == "(" else "(" + a + ")", op, b)
        if k == 5 and op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"):
            x = self.var()
            return "(%s = %s; %s %s= %s; %s)" % (x, a, x, op, b, x)
        return "iop_%s(%s, %s)" % (NAMES[op], a, b)

    def expr(self, depth):
        g = self.g
        if depth == 0 or g.bool(1, 5):
            return self.leaf()
        self.ops += 1
        if self.ops >= 2:
            self.nontriv = True
        k = g.int(0, 13)
        a, av = self.expr(depth - 1)
        if k <= 6:
            op = g.choice(["+", "-", "*", "/", "%", "&", "|", "^"])
            b, bv = self.expr(depth - 1)
            return self.form(op, a, b), self.ck(BIN[op](av, bv))
        if k <= 9:
            op = g.choice(["<<", ">>"])
            n = g.weighted([(3, g.int(0, 8)), (3, g.choice([31, 32, 33, 61, 62, 63, 64, 65])), (1, g.int(0, 140))])
            if g.bool(1, 6):
                n = -n
            left = n if op == "<<" else -n
            if av.bit_length() + max(left, 0) > 700:
                raise Big
            r = av << left if left >= 0 else av >> -left
            return self.form(op, a, "(%d)" % n if n < 0 else str(n)), self.ck(r)
        if k == 10:
            n = g.int(0, 9)
            if av.bit_length() * n > 900:
                raise Big
            return self.form("**", a, str(n)), self.ck(av ** n)
        if k == 11:
            u = g.choice(["-", "~", "+"])
            if u == "~":
                return "(~%s)" % a, self.ck(~av)
            return "(%s(%s))" % (u, a), self.ck(-av if u == "-" else av)
        m = g.choice(["abs", "succ", "next", "pred", "to_i", "floor", "-@", "bit_length"])
        return "(%s).%s" % (a, m), self.ck(METH1[m](av))

    def ck(self, v):
        if isinstance(v, int) and abs(v) >= 2**30:
            self.nontriv = True
        if isinstance(v, int) and v.bit_length() > 1000:
            raise Big
        return v

    def top(self):
        g = self.g
        k = g.int(0, 9)
        a, av = self.expr(g.int(1, 3))
        if k <= 3:
            return a, av
        if k <= 5:
            op = g.choice(["<=>", "==", "!=", "<", "<=", ">", ">="])
            if g.bool(1, 3):
                bv = av + g.int(-1, 1)
                b = lit(g, bv)
            else:
                b, bv = self.expr(1)
            r = BIN[op](av, bv)
            if op != "<=>" and g.bool():
                return ("(if %s %s %s then true else false end)" if g.bool() else "(%s %s %s ? true : false)") % (a, op, b), r
            return self.form(op, a, b), r
        if k == 6:
            m = g.choice(sorted(METH2))
            b, bv = self.expr(1)
            return "(%s).%s(%s)" % (a, m, b), METH2[m](av, bv)
        if k == 7:
            m = g.choice(["even?", "odd?", "bit_length", "to_s", "inspect", "digits"])
            if m == "digits":
                av2 = abs(av)
                return "((%s).abs).digits" % a, [int(c) for c in reversed(str(av2))]
            return "(%s).%s" % (a, m), METH1[m](av)
        if k == 8:
            i = g.weighted([(3, g.int(0, 10)), (2, g.choice([61, 62, 63, 64, 65])), (1, g.int(0, 200))])
            return "(%s)[%d]" % (a, i), (av >> i) & 1
        # the canonical form of a result: same hash key, case label and equality as the literal
        return "[{(%s) => 1}[%s], %s.eql?(%s), (case %s\nwhen %s then 7 else 8 end), (%s) == %s]" % (
            a, lit(g, av), lit(g, av), a, a, str(av), a, lit(g, av)), [1, True, 7, True]


NAMES = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr",
         "**": "pow", "<=>": "cmp", "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
PRE = "".join("def iop_%s(a, b) a %s b end\n" % (n, o) for o, n in NAMES.items())


def case(g):
    lines, exp, units = [PRE], [], []
    cnt = [0]

    def one():
        i = cnt[0] = cnt[0] + 1
        e = E(g, i)
        try:
            s, v = e.top()
            out = rb(v)
        except ZeroDiv:
            out = None
        except Big:
            return
        if out is None:
            # re-create as a dedicated zero division case
            a = value(g)
            op = g.choice(["/", "%", "div"])
            x = "z%d" % i
            s = "%s = 0; %s" % (x, "(%s).div(%s)" % (lit(g, a), x) if op == "div" else "(%s) %s %s" % (lit(g, a), op, x))
            out = "!ZeroDivisionError"
            e.pre = []
            e.nontriv = True
        lines.append("begin\n%s\np((%s))\nrescue => e\nputs \"!#{e.class}\"\nend\n" % ("\n".join(e.pre), s))
        exp.append(out)
        units.append((s + repr(e.pre), e.nontriv or "!" in out))
    g.rep(1, 14, one)
    return Case("".join(lines), exp, units)


def strategy():
    return from_g(case)
