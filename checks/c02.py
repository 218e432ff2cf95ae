"""C02: Float arithmetic is IEEE double arithmetic; floats print and read back unchanged; mixed comparison is consistent."""
from driver import Case
from gen import from_g
import math, struct

ID = "C02"
EXAMPLES = dict(quick=3000, thorough=50000)
RULE = ("One evaluation = one expression over Float/Integer operands (dyadic, decimal, subnormal, huge, infinite, NaN, signed zero, fixnum/bignum) "
        "evaluated by ruruby in some call form and compared bit-for-bit with IEEE double arithmetic in Python (printed text is parsed back). "
        "Non-trivial: at least one operator and an operand that is not a small dyadic, or a special value.")
ASSUMPTIONS = ["Python's float is IEEE-754 binary64 with correct rounding", "** on floats is compared with relative tolerance 1e-13 (no correct rounding promised)",
               "Integer/Float comparison converts the Integer to the nearest double (the project's tests pin this)",
               "Float % 0 and div 0 raise ZeroDivisionError (pinned by the project's tests)"]


def norm(line):
    if line.startswith("f "):
        t = line[2:]
        if t.startswith('"'):
            t = t[1:-1]
        try:
            x = float(t.replace("Infinity", "inf"))
        except ValueError:
            return line
        if x != x:
            return "f nan"
        return "f " + x.hex()
    return line


def bits(u):
    return struct.unpack("<d", struct.pack("<Q", u))[0]


SPECIAL = [0.0, 1.0, 0.5, 2.0, 0.1, 0.3, 1.5, 3.14159, 1e15, 1e16, 1e17, 1e22, 1e23, 1e100, 1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308,
           1e-5, 1e-4, 1e-7, 1e-300, 4503599627370496.5, 9007199254740992.0, 9007199254740993.0, 4611686018427387904.0, 9223372036854775808.0, 1.8446744073709552e19,
           # the packed representation covers exponents around 1.0: values at both of its edges
           bits(0x3000000000000000), bits(0x2fffffffffffffff), bits(0x4fffffffffffffff), bits(0x5000000000000000), bits(0x37ffffffffffffff), bits(0x3800000000000000),
           bits(0x47ffffffffffffff), bits(0x4800000000000000), bits(0x3fffffffffffffff), bits(0x4000000000000001)]
INTS = [0, 1, 2, 3, 10, 255, 2**31, 2**53, 2**53 + 1, 2**61, 2**62 - 1, 2**62, 2**63, 2**64, 10**20, 2**100, 10**30]


class ZD(Exception):
    pass


def fval(g):
    k = g.int(0, 6)
    if k <= 1:
        v = g.choice(SPECIAL)
    elif k == 2:
        v = g.int(0, 4000) / g.choice([1, 2, 4, 8, 10, 100, 1000, 3])
    elif k == 3:
        v = bits(g.int(0, 0x7fefffffffffffff))
    elif k == 4:
        v = bits((g.int(0x3c0, 0x43f) << 52) | g.int(0, 2**52 - 1))
    elif k == 5:
        v = float(g.int(0, 10**g.int(1, 17))) * 10.0 ** g.int(-20, 20)
    else:
        v = math.ldexp(g.int(1, 2**53), g.int(-120, 120))
    return -v if g.bool(1, 3) else v


def ival(g):
    v = g.weighted([(3, g.int(0, 20)), (2, g.choice(INTS)), (1, g.choice(INTS) + g.int(-1, 1))])
    return -v if g.bool(1, 3) else v


def flit(g, v):
    """Ruby expression denoting v exactly."""
    if v != v:
        return "(0.0/0.0)"
    if math.isinf(v):
        return "(1.0/0.0)" if v > 0 else "(-1.0/0.0)"
    a = abs(v)
    r = repr(a)
    k = g.int(0, 2)
    if k == 1:
        r = "%.16e" % a
    elif k == 2 and "e" not in r:
        ip, fp = r.split(".")
        r = "{:_}.{}".format(int(ip), fp)
    if "e" in r:
        m, e = r.split("e")
        if "." not in m:
            m += ".0"
        r = m + "e" + str(int(e))
    neg = math.copysign(1.0, v) < 0
    return "(-" + r + ")" if neg else r


def to_f(x):
    try:
        return float(x)
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def div(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def mod(a, b):
    if b == 0:
        raise ZD
    if math.isinf(a) or a != a or b != b:
        return math.nan
    r = math.fmod(a, b)
    if r != 0 and (r < 0) != (b < 0):
        r += b
    return r


def arith(op, a, b):
    x, y = to_f(a), to_f(b)
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "/":
        return div(x, y)
    return mod(x, y)


class E:
    def __init__(self, g, n):
        self.g, self.n, self.k, self.pre, self.ops, self.nt = g, n, 0, [], 0, False

    def var(self, s):
        self.k += 1
        x = "v%d_%d" % (self.n, self.k)
        self.pre.append("%s = %s" % (x, s))
        return x

    def leaf(self, intp=False):
        g = self.g
        if intp:
            v = ival(g)
            s = "(%d)" % v if v < 0 else str(v)
            if abs(v) >= 2**31:
                self.nt = True
        else:
            v = fval(g)
            s = flit(g, v)
            if v * 8 != int(v * 8) if abs(v) < 1e6 else True:
                self.nt = True
        if g.bool():
            s = self.var(s)
        return s, v

    def expr(self, d):
        g = self.g
        if d == 0 or g.bool(1, 5):
            return self.leaf()
        self.ops += 1
        k = g.int(0, 8)
        if k == 8:
            a, av = self.expr(d - 1)
            m = g.choice(["-", "abs"])
            if m == "-":
                return "(-(%s))" % a, -av
            return "(%s).abs" % a, abs(av)
        op = g.choice(["+", "-", "*", "/", "%"])
        w = g.int(0, 3)
        a, av = self.leaf(True) if w == 1 else self.expr(d - 1)
        b, bv = self.leaf(True) if w == 2 else self.expr(d - 1)
        v = arith(op, av, bv)
        f = g.int(0, 6)
        if f == 0:
            x = self.var(a)
            self.pre.append("%s %s= %s" % (x, op, b))
            return x, v
        if f == 1:
            return "(%s).%s(%s)" % (a, op, b), v
        if f == 2:
            return "(%s).send(:%s, %s)" % (a, op, b), v
        if f == 3:
            return "fop(:%s, %s, %s)" % (op, a, b), v
        return "(%s %s %s)" % (a, op, b), v


PRE = """def fop(op, a, b)
case op
when :+ then a + b
when :- then a - b
when :* then a * b
when :/ then a / b
else a % b
end
end
"""


def top(e, g):
    """(ruby statement, expected line)"""
    k = g.int(0, 11)
    if k <= 4:
        s, v = e.expr(g.int(1, 3))
        form = g.choice(['puts "f " + (%s).inspect', 'print "f "; p((%s))', 'puts "f #{%s}"', 'puts "f " + (%s).to_s', 'x = (%s); y = eval(x.inspect.gsub("inf", "(1.0/0.0)").gsub("NaN", "(0.0/0.0)")); puts "f #{x == y || x != x ? y : [x, y].inspect}"'])
        return form % s, "f " + repr(v)
    if k <= 7:
        # comparisons
        w = g.int(0, 3)
        a, av = e.leaf(True) if w == 1 else e.expr(1)
        if g.bool(1, 3) and av == av and not math.isinf(av) if not isinstance(av, int) else g.bool(1, 3):
            # a nearby value of either type
            c = g.int(0, 3)
            if c == 0 or isinstance(av, int) and abs(av) > 2**1000:
                bv = av
            elif c == 1:
                bv = int(av) + g.int(-1, 1)
            elif c == 2:
                bv = math.nextafter(to_f(av), g.choice([math.inf, -math.inf]))
            else:
                bv = to_f(av)
            b = str(bv) if isinstance(bv, int) else flit(g, bv)
            if isinstance(bv, int) and bv < 0:
                b = "(%s)" % b
        else:
            b, bv = e.leaf(True) if w == 2 else e.expr(1)
        if isinstance(av, int) and isinstance(bv, int):
            x, y = av, bv
        else:
            x, y = to_f(av), to_f(bv)
        e.ops += 1
        nan = x != x or y != y
        tri = "nil" if nan else str((x > y) - (x < y))
        l = [("<", x < y), ("<=", x <= y), (">", x > y), (">=", x >= y), ("==", x == y), ("!=", x != y)]
        f = g.int(0, 2)
        xa, xb = e.var(a), e.var(b)
        parts = []
        for op, r in l:
            if f == 0:
                parts.append("(%s %s %s)" % (xa, op, xb))
            elif f == 1:
                parts.append("(if %s %s %s then true else false end)" % (xa, op, xb))
            else:
                parts.append("%s.send(:%s, %s)" % (xa, op, xb))
        same = isinstance(av, int) == isinstance(bv, int)
        eql = x == y and same
        return ("p [%s, (%s <=> %s), %s.eql?(%s)]" % (", ".join(parts), xa, xb, xa, xb),
                "[%s, %s, %s]" % (", ".join("true" if r else "false" for _, r in l), tri, "true" if eql else "false"))
    if k == 8:
        s, v = e.expr(1)
        m = g.choice(["to_i", "floor"])
        if v != v or math.isinf(v):
            return "begin; p((%s).%s); rescue => ex; puts :err; end" % (s, m), "err"
        return "p((%s).%s)" % (s, m), str(math.floor(v) if m == "floor" else int(v))
    if k == 9:
        a, av = e.expr(1)
        b, bv = e.expr(1)
        if g.bool(1, 4):
            b, bv = str(g.int(1, 9)), None
            bv = float(b)
        e.ops += 1
        if bv == 0:
            return "begin; p((%s).div(%s)); rescue => ex; puts ex.class; end" % (a, b), "ZeroDivisionError"
        q = div(av, bv)
        if q != q or math.isinf(q):
            return "begin; p((%s).div(%s)); rescue => ex; puts :err; end" % (a, b), "err"
        return "p((%s).div(%s))" % (a, b), str(math.floor(q))
    if k == 10:
        # hash key / array membership
        v = fval(g)
        w = fval(g) if g.bool() else v
        e.nt = True
        e.ops += 1
        if v != v or w != w:
            v = w = 1.5
        x = e.var(flit(g, v))
        y = e.var(flit(g, w))
        r = "true" if v == w else "false"
        return ("p [{%s => 1}[%s] == 1, [%s].include?(%s), [%s] == [%s], (case %s\nwhen %s then true else false end)]" % (x, y, x, y, x, y, x, y),
                "[%s, %s, %s, %s]" % (r, r, r, r))
    # exact conversions of integers, fdiv
    a = ival(g)
    e.nt = e.nt or abs(a) > 2**53
    e.ops += 1
    if g.bool():
        return 'puts "f #{(%d).to_f}"' % a, "f " + repr(float(a))
    b = g.choice([1, 2, 3, 7, 10, 1000, 0])
    x = to_f(a)
    return 'puts "f #{(%d).fdiv(%d)}"' % (a, b), "f " + repr(div(x, float(b)))


def case(g):
    lines, exp, units = [PRE], [], []
    cnt = [0]

    def one():
        cnt[0] += 1
        e = E(g, cnt[0])
        try:
            s, out = top(e, g)
        except ZD:
            a = flit(g, fval(g))
            s, out = "begin; p((%s) %% %s); rescue => ex; puts ex.class; end" % (a, g.choice(["0", "0.0", "(-0.0)"])), "ZeroDivisionError"
            e = E(g, cnt[0])
            e.nt, e.ops = True, 1
        lines.append("\n".join(e.pre + [s]))
        exp.append(out)
        units.append((lines[-1], e.nt and e.ops > 0))
    g.rep(1, 12, one)
    return Case("\n".join(lines), exp, units)


def strategy():
    return from_g(case)
