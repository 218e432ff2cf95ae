"""C06: control flow -- loops, blocks, lambdas, break/next/return, begin/rescue/else/ensure -- against a reference interpreter."""
from driver import Case
from gen import from_g

ID = "C06"
EXAMPLES = dict(quick=2600, thorough=60000)
RULE = ("One evaluation = one generated program (methods that yield/call/forward blocks, lambdas, procs, while/until/for/iterators, "
        "begin/rescue/else/ensure, break/next/return/raise with values) whose printed trace is compared with a reference interpreter written in Python. "
        "Non-trivial: at run time the program performed at least one non-local exit (break, next, return or raise) that left a block, loop, "
        "method or begin body.")
ASSUMPTIONS = ["the reference interpreter encodes Ruby 3 semantics of the generated subset", "bare `raise`, retry, redo, throw and orphan procs are not generated"]

ERRS = {"E0": "StandardError", "E1": "E0", "E2": "StandardError", "ZeroDivisionError": "StandardError", "StandardError": "Exception", "Exception": None,
        "EX": "Exception"}
PRELUDE = """class E0 < StandardError; end
class E1 < E0; end
class E2 < StandardError; end
class EX < Exception; end
def t(i, v)
  puts "#{i} #{v.inspect}"
  v
end
"""


def isa(c, d):
    while c:
        if c == d:
            return True
        c = ERRS[c]
    return False


class RErr(Exception):
    def __init__(self, cls, msg):
        self.cls, self.msg = cls, msg


class Jump(Exception):
    def __init__(self, tag, val):
        self.tag, self.val = tag, val


class Fuel(Exception):
    pass


class Scope:
    """Generation-time context."""

    def __init__(self, kind, parent=None, **k):
        self.kind = kind          # main / method / block / lambda / proc
        self.parent = parent
        self.ints = list(parent.ints) if parent and kind in ("block", "lambda", "proc") else []
        self.anys = list(parent.anys) if parent and kind in ("block", "lambda", "proc") else []
        self.loops = []           # lexical while/until/for loops of this scope: (counter, operand depth or None)
        self.opd = 0              # number of partially evaluated expressions around (known finding C06-loop-operand)
        self.can_return = kind in ("method", "lambda") or (kind in ("block", "proc") and parent.can_return)
        self.yields = k.get("yields", parent.yields if parent and kind in ("block", "proc", "lambda") else None)
        self.maxm = parent.maxm if parent else k["maxm"]
        self.lams = list(parent.lams) if parent and kind in ("block", "lambda", "proc") else []


class Gen:
    def __init__(self, g):
        self.g = g
        self.n = 0
        self.methods = []
        self.size = 0

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # --- expressions
    def int_(self, s, d=2):
        g = self.g
        if d == 0 or not g.bool():
            if s.ints and g.bool(2, 3):
                return ("var", g.choice(s.ints))
            return ("int", g.int(0, 9))
        k = g.int(0, 7)
        if k == 7:
            return ("div", ("int", g.int(0, 20)), self.int_(s, d - 1))
        return ("bin", g.choice("+-*"), self.int_(s, d - 1), self.int_(s, d - 1))

    def cond(self, s, d=2):
        g = self.g
        k = g.int(0, 9)
        if k <= 5 or d == 0:
            return ("cmp", g.choice(["==", "<", ">", "!=", "<=", ">="]), self.int_(s, 1), self.int_(s, 1))
        if k == 6:
            return ("not", self.cond(s, d - 1))
        if k == 7 and s.anys:
            return ("var", g.choice(s.anys))
        return (g.choice(["and", "or"]), self.cond(s, d - 1), self.cond(s, d - 1))

    def any_(self, s, d):
        g = self.g
        k = g.int(0, 11)
        if k <= 4 or d <= 0:
            return self.int_(s)
        if k == 5:
            return ("sym", g.choice(["a", "b", "c"]))
        if k == 6:
            return ("nil",)
        if k == 7 and s.anys:
            return ("var", g.choice(s.anys))
        if k == 8:
            return self.operand(s, lambda: ("arr", [self.any_(s, d - 2) for _ in range(g.int(1, 3))]))
        if k == 9:
            return self.cond(s, 1)
        return self.value(s, d - 1)

    def value(self, s, d):
        """A compound expression used for its value."""
        g = self.g
        if d <= 0:
            return self.int_(s)
        k = g.int(0, 8)
        if k <= 2:
            return self.begin(s, d)
        if k == 3:
            return ("if", self.cond(s), self.body(s, d - 1), self.body(s, d - 1) if g.bool() else None)
        if k == 4:
            return self.loop(s, d)
        if k == 5:
            return self.case(s, d)
        return self.call(s, d)

    # --- statements
    def body(self, s, d, lo=0, hi=3):
        ni, na, nl = len(s.ints), len(s.anys), len(s.lams)
        st = list(self.g.rep(lo, hi, lambda: self.stmt(s, d)))
        st.append(("val", self.any_(s, d - 1)))
        # variables first assigned in a conditional region stay out of later use
        del s.ints[ni:], s.anys[na:], s.lams[nl:]
        return st

    def operand(self, s, f):
        s.opd += 1
        r = f()
        s.opd -= 1
        return r

    def stmt(self, s, d):
        g = self.g
        self.size += 1
        if self.size > 60:
            d = 0
        k = g.int(0, 24)
        if d <= 0:
            k %= 12
        if k <= 2:
            return ("trace", self.name("t"), self.operand(s, lambda: self.any_(s, d)))
        if k <= 4:
            if s.ints and g.bool():
                return ("set", g.choice(s.ints), self.int_(s))
            v = self.name("v")
            e = self.int_(s)
            s.ints.append(v)
            return ("set", v, e)
        if k == 5:
            v = self.name("w")
            e = self.any_(s, d)
            s.anys.append(v)
            return ("set", v, e)
        if k in (6, 7, 8):
            return self.exit(s, d)
        if k == 9:
            return ("raise_if", self.cond(s), g.choice(["E0", "E1", "E2", "EX"]), self.name("m"))
        if k == 10 and s.yields:
            return ("trace", self.name("t"), self.yield_(s))
        if k in (10, 11):
            if s.lams:
                return ("trace", self.name("t"), ("lcall", g.choice(s.lams), self.int_(s), g.int(0, 2)))
            return ("trace", self.name("t"), self.int_(s))
        if k <= 14:
            return ("val", self.begin(s, d))
        if k <= 16:
            return ("val", self.loop(s, d))
        if k <= 19:
            return ("trace", self.name("t"), self.operand(s, lambda: self.call(s, d)))
        if k == 20:
            return ("val", ("if", self.cond(s), self.body(s, d - 1), self.body(s, d - 1) if g.bool() else None))
        if k == 21:
            return self.lam(s, d)
        if k == 22:
            return ("val", self.case(s, d))
        if k == 23:
            return ("for", self.for_(s, d))
        return ("trace", self.name("t"), self.operand(s, lambda: self.value(s, d)))

    def exit(self, s, d):
        g = self.g
        opts = []
        if s.can_return:
            opts.append("return")
        if s.loops:
            if True:
                opts += ["break", "next"]
        elif s.kind in ("block", "lambda"):
            opts += ["break", "next"]
        elif s.kind == "proc":
            opts += ["next"]
        if not opts:
            return ("raise_if", self.cond(s), g.choice(["E0", "E1", "E2", "EX"]), self.name("m"))
        k = g.choice(opts)
        val = self.any_(s, min(d, 1)) if g.bool(2, 3) else None
        if s.loops and k == "next":
            val = None
        tgt = ("loop", s.loops[-1][0]) if s.loops and k != "return" else ("blk",)
        return (k, tgt, val, self.cond(s) if g.bool(3, 4) else None)

    def begin(self, s, d):
        g = self.g
        body = self.body(s, d - 1, 1, 3)
        resc = []
        for _ in range(g.int(0, 2)):
            cl = g.choice([[], ["E0"], ["E1"], ["E2"], ["E1", "E2"], ["Exception"], ["ZeroDivisionError", "EX"], ["StandardError"]])
            resc.append((cl, self.name("e") if g.bool() else None, self.body(s, d - 1, 0, 2)))
        els = self.body(s, d - 1, 0, 2) if resc and g.bool(1, 4) else None
        ens = None
        if not resc or g.bool():
            ens = self.body(s, d - 2, 0, 2)
            ens = [("trace", self.name("z"), ("int", 0))] + ens
        return ("begin", body, resc, els, ens)

    def loop(self, s, d):
        g = self.g
        c = self.name("i")
        n = g.int(1, 3)
        kind = g.choice(["while", "until", "dowhile"])
        s.loops.append((c, s.opd))
        s.ints.append(c)
        b = self.body(s, d - 1, 1, 3)
        s.ints.remove(c)
        s.loops.pop()
        return ("while", kind, c, n, b)

    def for_(self, s, d):
        g = self.g
        c = self.name("i")
        a = g.int(0, 2)
        n = g.int(0, 3)
        s.loops.append((c, None))
        s.ints.append(c)
        b = self.body(s, d - 1, 1, 3)
        s.ints.remove(c)
        s.loops.pop()
        return (c, a, a + n, g.bool(), b)

    def case(self, s, d):
        g = self.g
        whens = []
        for _ in range(g.int(1, 3)):
            whens.append(([g.int(0, 9) for _ in range(g.int(1, 2))], self.body(s, d - 1, 0, 2)))
        return ("case", self.int_(s), whens, self.body(s, d - 1, 0, 2) if g.bool() else None)

    def yield_(self, s):
        return ("yield", self.int_(s), s.yields)

    def block(self, s, d, kind="block"):
        b = Scope(kind, s)
        p = self.name("x")
        b.ints.append(p)
        return (p, self.body(b, d - 1, 1, 3))

    def lam(self, s, d):
        g = self.g
        kind = g.choice(["arrow", "lambda", "proc"])
        v = self.name("l")
        blk = self.block(s, d, "proc" if kind == "proc" else "lambda")
        s.lams.append(v)
        return ("lam", v, kind, blk)

    def call(self, s, d):
        g = self.g
        k = g.int(0, 9)
        if k <= 5 and s.maxm > 0:
            m = g.int(0, s.maxm - 1)
            return ("call", m, self.int_(s), self.block(s, d))
        if k == 6:
            return ("times", g.int(0, 3), self.block(s, d))
        if k == 7:
            return ("map", [self.int_(s, 1) for _ in range(g.int(0, 3))], self.block(s, d))
        if k == 8:
            a = g.int(0, 3)
            return ("upto", a, a + g.int(0, 2), self.block(s, d))
        return ("each", [self.int_(s, 1) for _ in range(g.int(0, 3))], self.block(s, d))

    def method(self, i):
        g = self.g
        kind = g.choice(["yield", "bcall", "yield"])
        s = Scope("method", None, maxm=i, yields=kind)
        s.ints.append("a")
        d = 3
        body = []
        fwd = None
        if i > 0 and kind == "bcall" and g.bool(1, 3):
            fwd = g.int(0, i - 1)
        pre = list(g.rep(0, 2, lambda: self.stmt(s, d)))
        y = self.yield_(s)
        if fwd is not None:
            y = ("fwd", fwd, self.int_(s))
        w = g.int(0, 4)
        if w == 0:
            st = ("trace", self.name("t"), y)
        elif w == 1:
            st = ("trace", self.name("t"), ("begin", [("val", y)], [], None, [("trace", self.name("z"), ("int", 0))]))
        elif w == 2:
            c = self.name("i")
            st = ("val", ("while", "while", c, 2, [("trace", self.name("t"), y)]))
        elif w == 3:
            p = self.name("x")
            st = ("val", ("times", 2, (p, [("val", y)])))
        else:
            st = ("trace", self.name("t"), ("begin", [("val", y)], [(g.choice([[], ["E1"], ["E2"], ["Exception"]]), None, self.body(s, 1, 0, 1))], None, None))
        post = list(g.rep(0, 2, lambda: self.stmt(s, d)))
        body = pre + [st] + post + [("val", self.any_(s, 1))]
        return (kind, body)

    def program(self):
        nm = self.g.int(0, 3)
        for i in range(nm):
            self.methods.append(self.method(i))
        s = Scope("main", None, maxm=nm)
        main = []
        for _ in range(self.g.int(1, 3)):
            # a plain method without block gives `return` a home
            if self.g.bool():
                m = Scope("method", None, maxm=nm)
                main.append(("meth", self.name("q"), self.body(m, 4, 1, 4)))
            else:
                main.append(("top", self.body(s, 4, 1, 4)))
        return main


# ---------------------------------------------------------------- emission
class Emit:
    def __init__(self):
        self.out = []
        self.ind = 0

    def w(self, s):
        self.out.append("  " * self.ind + s)

    def body(self, b):
        self.ind += 1
        for st in b:
            self.stmt(st)
        self.ind -= 1

    def sub(self, f):
        """Emits compound code as a multi-line expression string."""
        o, self.out = self.out, []
        f()
        r, self.out = "\n".join(self.out), o
        return r.strip()

    def e(self, x):
        k = x[0]
        if k == "int":
            return str(x[1])
        if k == "var":
            return x[1]
        if k == "sym":
            return ":" + x[1]
        if k == "nil":
            return "nil"
        if k == "arr":
            return "[" + ", ".join(self.e(y) for y in x[1]) + "]"
        if k == "bin":
            return "(%s %s %s)" % (self.e(x[2]), x[1], self.e(x[3]))
        if k == "div":
            return "(%s / %s)" % (self.e(x[1]), self.e(x[2]))
        if k == "cmp":
            return "(%s %s %s)" % (self.e(x[2]), x[1], self.e(x[3]))
        if k == "not":
            return "(!%s)" % self.e(x[1])
        if k in ("and", "or"):
            return "(%s %s %s)" % (self.e(x[1]), {"and": "&&", "or": "||"}[k], self.e(x[2]))
        if k == "yield":
            return "(yield(%s))" % self.e(x[1]) if x[2] == "yield" else "(blk.call(%s))" % self.e(x[1])
        if k == "fwd":
            return "(m%d(%s, &blk))" % (x[1], self.e(x[2]))
        if k == "lcall":
            a = self.e(x[2])
            return "%s%s" % (x[1], [".call(%s)", ".(%s)", "[%s]"][x[3]] % a)
        if k in ("call", "times", "map", "each", "upto"):
            if k == "call":
                h, blk = "m%d(%s)" % (x[1], self.e(x[2])), x[3]
            elif k == "times":
                h, blk = "%d.times" % x[1], x[2]
            elif k == "upto":
                h, blk = "%d.upto(%d)" % (x[1], x[2]), x[3]
            else:
                h, blk = "[%s].%s" % (", ".join(self.e(y) for y in x[1]), k), x[2]

            def f():
                self.w("(%s do |%s|" % (h, blk[0]))
                self.body(blk[1])
                self.w("end)")
            return self.sub(f)
        if k == "if":
            def f():
                self.w("(if " + self.e(x[1]))
                self.body(x[2])
                if x[3]:
                    self.w("else")
                    self.body(x[3])
                self.w("end)")
            return self.sub(f)
        if k == "case":
            def f():
                self.w("(case " + self.e(x[1]))
                for vs, b in x[2]:
                    self.w("when " + ", ".join(map(str, vs)))
                    self.body(b)
                if x[3]:
                    self.w("else")
                    self.body(x[3])
                self.w("end)")
            return self.sub(f)
        if k == "begin":
            def f():
                self.w("(begin")
                self.body(x[1])
                for cl, v, b in x[2]:
                    self.w("rescue" + (" " + ", ".join(cl) if cl else "") + (" => " + v if v else ""))
                    self.ind += 1
                    if v:
                        self.w('puts "#{%s.class} #{%s.class == ZeroDivisionError ? 0 : %s.message}"' % (v, v, v))
                    self.ind -= 1
                    self.body(b)
                if x[3]:
                    self.w("else")
                    self.body(x[3])
                if x[4]:
                    self.w("ensure")
                    self.body(x[4])
                self.w("end)")
            return self.sub(f)
        if k == "while":
            _, kind, c, n, b = x

            def f():
                if kind == "dowhile":
                    self.w("(%s = 0; begin" % c)
                else:
                    self.w("(%s = 0; %s %s %s %d" % (c, kind, c, "<" if kind == "while" else ">=", n))
                self.ind += 1
                self.w("%s += 1" % c)
                self.ind -= 1
                self.body(b)
                self.w("end while %s < %d)" % (c, n) if kind == "dowhile" else "end)")
            return self.sub(f)
        raise AssertionError(k)

    def stmt(self, s):
        k = s[0]
        if k == "trace":
            self.w("t(:%s, %s)" % (s[1], self.e(s[2])))
        elif k == "set":
            self.w("%s = %s" % (s[1], self.e(s[2])))
        elif k == "val":
            self.w(self.e(s[1]))
        elif k == "raise_if":
            self.w("raise %s, \"%s\" if %s" % (s[2], s[3], self.e(s[1])))
        elif k in ("return", "break", "next"):
            self.w("%s%s%s" % (k, " " + self.e(s[2]) if s[2] else "", " if " + self.e(s[3]) if s[3] else ""))
        elif k == "lam":
            h = {"arrow": "->(%s) do", "lambda": "lambda do |%s|", "proc": "proc do |%s|"}[s[2]] % s[3][0]
            self.w("%s = %s" % (s[1], h))
            self.body(s[3][1])
            self.w("end")
        elif k == "for":
            c, a, b, excl, body = s[1]
            self.w("for %s in %d%s%d" % (c, a, "..." if excl else "..", b))
            self.body(body)
            self.w("end")
        else:
            raise AssertionError(k)


# ---------------------------------------------------------------- reference interpreter
class Env:
    def __init__(self, parent=None):
        self.v = {}
        self.parent = parent

    def find(self, n):
        e = self
        while e:
            if n in e.v:
                return e
            e = e.parent
        return None

    def get(self, n):
        e = self.find(n)
        return e.v[n] if e else None

    def set(self, n, x):
        (self.find(n) or self).v[n] = x


class Fr:
    """Execution context: env, return tag, block to yield to, tags for break/next of the innermost block."""
    __slots__ = ("env", "ret", "blk", "nxt", "brk")

    def __init__(self, env, ret, blk, nxt=None, brk=None):
        self.env, self.ret, self.blk, self.nxt, self.brk = env, ret, blk, nxt, brk


class Interp:
    def __init__(self, methods):
        self.methods = methods
        self.out = []
        self.fuel = 1500
        self.loops = []
        self.ev = set()
        self.pending = 0

    def truthy(self, v):
        return v is not None and v is not False

    def ins(self, v):
        if v is None:
            return "nil"
        if v is True:
            return "true"
        if v is False:
            return "false"
        if isinstance(v, list):
            return "[" + ", ".join(self.ins(x) for x in v) + "]"
        if isinstance(v, str):
            return ":" + v
        return str(v)

    def body(self, b, f):
        r = None
        for s in b:
            r = self.stmt(s, f)
        return r

    def callblk(self, blk, arg):
        """blk = (param, body, frame, break tag)"""
        p, body, f, brk = blk
        env = Env(f.env)
        env.v[p] = arg
        nxt = object()
        try:
            return self.body(body, Fr(env, f.ret, f.blk, nxt, brk))
        except Jump as j:
            if j.tag is nxt:
                self.ev.add("next-block")
                return j.val
            raise

    def callm(self, i, arg, blk):
        env = Env()
        env.v["a"] = arg
        ret = object()
        try:
            return self.body(self.methods[i][1], Fr(env, ret, blk))
        except Jump as j:
            if j.tag is ret:
                self.ev.add("return")
                return j.val
            raise

    def withblk(self, blk, f, g):
        tag = object()
        try:
            return g((blk[0], blk[1], f, tag))
        except Jump as j:
            if j.tag is tag:
                self.ev.add("break-block")
                return j.val
            raise

    def e(self, x, f):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = x[0]
        if k == "int":
            return x[1]
        if k == "var":
            return f.env.get(x[1])
        if k == "sym":
            return x[1]
        if k == "nil":
            return None
        if k == "arr":
            return [self.e(y, f) for y in x[1]]
        if k == "bin":
            a = self.e(x[2], f)
            b = self.e(x[3], f)
            r = a + b if x[1] == "+" else a - b if x[1] == "-" else a * b
            if abs(r) > 2**500:
                raise Fuel()
            return r
        if k == "div":
            a = self.e(x[1], f)
            b = self.e(x[2], f)
            if b == 0:
                raise RErr("ZeroDivisionError", "0")
            return a // b
        if k == "cmp":
            a = self.e(x[2], f)
            b = self.e(x[3], f)
            return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[x[1]]
        if k == "not":
            return not self.truthy(self.e(x[1], f))
        if k == "and":
            a = self.e(x[1], f)
            return self.e(x[2], f) if self.truthy(a) else a
        if k == "or":
            a = self.e(x[1], f)
            return a if self.truthy(a) else self.e(x[2], f)
        if k == "yield":
            return self.callblk(f.blk, self.e(x[1], f))
        if k == "fwd":
            return self.callm(x[1], self.e(x[2], f), f.blk)
        if k == "lcall":
            l = f.env.get(x[1])
            a = self.e(x[2], f)
            kind, (p, body), df = l
            env = Env(df.env)
            env.v[p] = a
            tag = object()
            try:
                if kind == "proc":
                    return self.body(body, Fr(env, df.ret, df.blk, tag, None))
                return self.body(body, Fr(env, tag, df.blk, tag, tag))
            except Jump as j:
                if j.tag is tag:
                    self.ev.add("exit-lambda")
                    return j.val
                raise
        if k == "call":
            a = self.e(x[2], f)
            return self.withblk(x[3], f, lambda b: self.callm(x[1], a, b))
        if k == "times":
            def go(b):
                for i in range(x[1]):
                    self.callblk(b, i)
                return x[1]
            return self.withblk(x[2], f, go)
        if k == "upto":
            def go(b):
                for i in range(x[1], x[2] + 1):
                    self.callblk(b, i)
                return x[1]
            return self.withblk(x[3], f, go)
        if k in ("map", "each"):
            a = [self.e(y, f) for y in x[1]]

            def go(b):
                r = []
                for i in a:
                    r.append(self.callblk(b, i))
                return r if k == "map" else a
            return self.withblk(x[2], f, go)
        if k == "if":
            if self.truthy(self.e(x[1], f)):
                return self.body(x[2], f)
            return self.body(x[3], f) if x[3] else None
        if k == "case":
            v = self.e(x[1], f)
            for vs, b in x[2]:
                if v in vs:
                    return self.body(b, f)
            return self.body(x[3], f) if x[3] else None
        if k == "begin":
            return self.begin(x, f)
        if k == "while":
            _, kind, c, n, b = x
            f.env.set(c, 0)
            bt, nt = ("b", c, object()), ("n", c, object())
            self.loops.append((c, bt, nt))
            try:
                first = kind == "dowhile"
                while first or f.env.get(c) < n:
                    first = False
                    f.env.set(c, f.env.get(c) + 1)
                    self.iter(b, f, nt)
                return None
            except Jump as j:
                if j.tag is bt:
                    self.ev.add("break-loop")
                    return j.val
                raise
            finally:
                self.loops.pop()
        raise AssertionError(k)

    def iter(self, b, f, nt):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        try:
            self.body(b, f)
        except Jump as j:
            if j.tag is not nt:
                raise
            self.ev.add("next-loop")

    def begin(self, x, f):
        _, body, resc, els, ens = x
        try:
            try:
                r = self.body(body, f)
            except RErr as ex:
                for cl, v, b in resc:
                    if any(isa(ex.cls, c) for c in (cl or ["StandardError"])):
                        self.ev.add("rescued")
                        if v:
                            self.out.append("%s %s" % (ex.cls, ex.msg))
                        r = self.body(b, f)
                        break
                else:
                    raise
            else:
                if els:
                    r = self.body(els, f)
        except (Jump, RErr):
            if ens:
                self.ev.add("ensure-exit")
                self.body(ens, f)
            raise
        if ens:
            self.body(ens, f)
        return r

    def stmt(self, s, f):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = s[0]
        if k == "trace":
            v = self.e(s[2], f)
            self.out.append("%s %s" % (s[1], self.ins(v)))
            return v
        if k == "set":
            v = self.e(s[2], f)
            f.env.set(s[1], v)
            return v
        if k == "val":
            return self.e(s[1], f)
        if k == "raise_if":
            if self.truthy(self.e(s[1], f)):
                raise RErr(s[2], s[3])
            return None
        if k in ("return", "break", "next"):
            if s[3] and not self.truthy(self.e(s[3], f)):
                return None
            v = self.e(s[2], f) if s[2] else None
            if k == "return":
                tag = f.ret
            elif s[1][0] == "loop":
                for c, bt, nt in reversed(self.loops):
                    if c == s[1][1]:
                        tag = bt if k == "break" else nt
                        break
            else:
                tag = f.brk if k == "break" else f.nxt
            raise Jump(tag, v)
        if k == "lam":
            f.env.set(s[1], (s[2], s[3], f))
            return None
        if k == "for":
            c, a, b, excl, body = s[1]
            bt, nt = ("b", c, object()), ("n", c, object())
            self.loops.append((c, bt, nt))
            try:
                for i in range(a, b if excl else b + 1):
                    f.env.set(c, i)
                    self.iter(body, f, nt)
            except Jump as j:
                if j.tag is not bt:
                    raise
                self.ev.add("break-loop")
            finally:
                self.loops.pop()
            return None
        raise AssertionError(k)


def build(g):
    G = Gen(g)
    main = G.program()
    em = Emit()
    it = Interp(G.methods)
    for i, (kind, body) in enumerate(G.methods):
        em.w("def m%d(a%s)" % (i, ", &blk" if kind == "bcall" else ""))
        em.body(body)
        em.w("end")
    ok = True
    for m in main:
        tag = object()
        if m[0] == "meth":
            em.w("def %s" % m[1])
            em.body(m[2])
            em.w("end")
            em.w("begin; t(:r, %s); rescue Exception => e; puts \"top #{e.class}\"; end" % m[1])
            b = m[2]
        else:
            em.w("begin")
            em.body(m[1])
            em.w("rescue Exception => e")
            em.w("  puts \"top #{e.class}\"")
            em.w("end")
            b = m[1]
        if not ok:
            continue
        try:
            f = Fr(Env(), tag, None)
            try:
                r = it.body(b, f)
            except Jump as j:
                assert j.tag is tag, j.tag
                it.ev.add("return")
                r = j.val
            if m[0] == "meth":
                it.out.append("r " + it.ins(r))
        except RErr as ex:
            it.ev.add("raised")
            it.out.append("top " + ex.cls)
        except Fuel:
            ok = False
    if not ok:
        return Case("puts 1", ["1"], [("fuel", False)], ["fuel"])
    src = PRELUDE + "\n".join(em.out) + "\n"
    return Case(src, it.out, [(src, bool(it.ev))], sorted(it.ev))


def strategy(part=None):
    return from_g(build)
