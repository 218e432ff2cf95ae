"""C13: Array against a model (Python lists with reference semantics), as histories of operations on shared arrays."""
from driver import Case
from gen import from_g
from model import *

ID = "C13"
EXAMPLES = dict(quick=1600, thorough=40000)
RULE = ("One evaluation = one Array operation in a history of 6-20 operations over three aliased/nested array variables, its result and the resulting "
        "contents of all variables compared with a Python list model. Non-trivial: the receiver was not empty and the operation took arguments, a block or "
        "changed the receiver.")
ASSUMPTIONS = ["only the Array methods ruruby implements are generated", "errors are compared as 'an exception was raised', not by class",
               "sort results are compared only where ties are indistinguishable"]

NAMES = ["a", "b", "c"]


class Brk(Exception):
    def __init__(self, v):
        self.v = v


def err():
    raise RErr("StandardError")


def aget(a, i):
    return a[i] if -len(a) <= i < len(a) else None


def span(a, s, l):
    """start, length -> slice bounds or None"""
    n = len(a)
    if s < 0:
        s += n
    if s < 0 or s > n or l < 0:
        return None
    return s, min(n, s + l)


def rspan(a, r):
    n = len(a)
    s, e = r.a, r.b
    if s < 0:
        s += n
    if e < 0:
        e += n
    if not r.x:
        e += 1
    return s, max(0, e - s)


def aslice(a, s, l):
    z = span(a, s, l)
    return None if z is None else a[z[0]:z[1]]


def aset(a, i, v):
    if i < 0:
        i += len(a)
        if i < 0:
            err()
    while len(a) <= i:
        a.append(None)
    a[i] = v


def splice(a, s, l, v):
    n = len(a)
    if l < 0:
        err()
    if s < 0:
        s += n
        if s < 0:
            err()
    v = list(v) if isinstance(v, list) else [v]
    while len(a) < s:
        a.append(None)
    a[s:s + l] = v


def flatten(a, lv):
    out = []
    ch = False
    for x in a:
        if isinstance(x, list) and lv != 0:
            ch = True
            r, _ = flatten(x, lv - 1 if lv is not None and lv > 0 else None if lv is None or lv < 0 else 0)
            out += r
        else:
            out.append(x)
    return out, ch


def join(a, sep):
    return sep.join(join(x, sep) if isinstance(x, list) else tos(x) for x in a)


def reaches(v, t):
    return v is t or isinstance(v, list) and any(reaches(x, t) for x in v)


def teq(p, v):
    if isinstance(p, str) and p.startswith("class:"):
        c = p[6:]
        return {"Integer": isinstance(v, int) and not isinstance(v, bool), "String": isinstance(v, str), "Symbol": isinstance(v, Sym),
                "Array": isinstance(v, list), "NilClass": v is None, "Float": isinstance(v, float), "Object": True,
                "Numeric": isnum(v)}[c]
    if isinstance(p, Rng):
        if not isnum(v):
            return False
        return p.a <= v and (v < p.b if p.x else v <= p.b)
    return eq(p, v)


class H:
    def __init__(self, g):
        self.g = g
        self.env = {}
        self.src = []
        self.out = []
        self.units = []
        self.labels = []
        self.fl = g.choice(["mixed", "ints", "strs", "nested", "mixed"])

    # --- values
    def scalar(self):
        g = self.g
        if self.fl == "ints":
            return g.int(-3, 9)
        if self.fl == "strs":
            return g.choice(["a", "b", "", "ab", "zz", "B"])
        return g.weighted([(4, 1), (2, 2), (2, 0), (2, None), (1, True), (1, False), (2, "a"), (1, ""), (1, "b,c"), (2, Sym("x")), (1, Sym("y")), (1, 1.0), (1, 2.5), (1, -1),
                           (1, 10**20), (1, 4611686018427387904)])

    def arr(self, d=1, hi=6):
        g = self.g
        return [self.val(d - 1) for _ in range(g.int(0, hi))]

    def val(self, d=1):
        if self.fl in ("nested", "mixed") and d > 0 and self.g.bool(1, 2 if self.fl == "nested" else 6):
            return self.arr(d, 3)
        return self.scalar()

    def near(self, a):
        """A value likely to be in `a`."""
        g = self.g
        fl = [x for x in a if not isinstance(x, list) or len(insp(x)) < 30]
        if fl and g.bool(2, 3):
            return copyv(g.choice(fl))
        return self.val()

    def idx(self, a):
        g = self.g
        n = len(a)
        return g.weighted([(6, g.int(0, max(n - 1, 0))), (2, n), (2, g.int(-n - 2, -1)), (2, g.int(-1, n + 3))])

    def ln(self, a):
        return self.g.weighted([(6, self.g.int(0, len(a) + 1)), (1, -1), (1, 100)])

    def rng(self, a):
        return Rng(self.idx(a), self.idx(a), self.g.bool(1, 3))

    def arg(self, me, v=None):
        """An argument: literal, or another variable (shared reference). Returns (src, value)."""
        g = self.g
        if self.fl in ("nested", "mixed") and g.bool(1, 6):
            n = g.choice(NAMES)
            if not reaches(self.env[n], me):
                return n, self.env[n]
        v = self.val() if v is None else v
        return lit(v), v

    def arrarg(self, me):
        g = self.g
        if g.bool(1, 3):
            n = g.choice(NAMES)
            return n, self.env[n]
        v = self.arr(hi=4)
        return lit(v), v

    def pat(self, a):
        g = self.g
        k = g.int(0, 3)
        if k == 0:
            c = g.choice(["Integer", "String", "Symbol", "Array", "NilClass", "Float", "Object", "Numeric"])
            return c, "class:" + c
        if k == 1 and all(isnum(x) for x in a):
            r = Rng(g.int(-2, 4), g.int(0, 9), g.bool())
            return lit(r), r
        v = self.near(a)
        if isinstance(v, list):
            v = 1
        return lit(v), v

    # --- blocks: (source of the body with |x|, python function)
    def pred(self, a):
        g = self.g
        k = g.int(0, 6)
        if k == 0:
            return "x", truthy, "|x|"
        if k == 1:
            return "x.nil?", lambda x: x is None, "|x|"
        if k == 2:
            c = g.choice(["Integer", "String", "Array"])
            return "x.is_a?(%s)" % c, lambda x: teq("class:" + c, x), "|x|"
        if k == 3:
            return "!x", lambda x: not truthy(x), "|x|"
        if k == 4 and all(isnum(x) for x in a):
            t = g.int(-2, 9)
            return "x > %d" % t, lambda x: x > t if isnum(x) else err(), "|x|"
        v = self.near(a)
        op = g.choice(["==", "!="])
        return "x %s %s" % (op, lit(v)), lambda x: eq(x, v) == (op == "=="), "|x|"

    def mapf(self, a):
        g = self.g
        k = g.int(0, 6)
        if k == 0:
            v = self.scalar()
            return "[x, %s]" % lit(v), lambda x: [x, v], "|x|"
        if k == 1:
            return "x.inspect", insp, "|x|"
        if k == 2:
            v = self.near(a)
            return "x == %s" % lit(v), lambda x: eq(x, v), "|x|"
        if k == 3:
            return "[x, y]", lambda x: [aget(x, 0), aget(x, 1)] if isinstance(x, list) else [x, None], "|x, y|"
        if k == 4:
            st = [0]

            def f(x):
                st[0] += 1
                return [st[0], x]
            self.pre = "n = 0"
            return "n += 1; [n, x]", f, "|x|"
        if k == 5:
            v = self.near(a)
            w = self.scalar()

            def f(x):
                if eq(x, v):
                    return w
                return [x]
            return "next %s if x == %s; [x]" % (lit(w), lit(v)), f, "|x|"
        return "x", lambda x: x, "|x|"

    def mut(self, nm, a):
        """A body prefix that mutates the receiver during iteration, and break. -> (src prefix, f(x))"""
        g = self.g
        k = g.int(0, 9)
        if k <= 5:
            return "", lambda x: None
        if k == 6:
            v = self.near(a)
            w = self.scalar()

            def f(x):
                if eq(x, v):
                    raise Brk(w)
            return "break %s if x == %s; " % (lit(w), lit(v)), f
        if k == 7:
            lim = g.int(1, 12)
            w = self.scalar()

            def f(x):
                if len(a) < lim:
                    a.append(w)
            return "%s << %s if %s.size < %d; " % (nm, lit(w), nm, lim), f
        if k == 8:
            lim = g.int(0, 5)

            def f(x):
                if len(a) > lim:
                    a.pop()
            return "%s.pop if %s.size > %d; " % (nm, nm, lim), f
        lim = g.int(0, 5)

        def f(x):
            if len(a) > lim:
                a.pop(0)
        return "%s.shift if %s.size > %d; " % (nm, nm, lim), f

    @staticmethod
    def live(a):
        i = 0
        while i < len(a):
            yield i, a[i]
            i += 1

    # --- operations: return (src, thunk)
    def op(self):
        g = self.g
        nm = g.choice(NAMES)
        a = self.env[nm]
        self.pre = None
        k = g.choice(OPS)
        self.labels.append(k)
        n = len(a)
        R = nm
        E = self.env

        def iter_(meth, body, f, fin, params="|x|", pre=True):
            """live iteration with mutation/break; f(i, x) is called per element, fin() gives the result"""
            msrc, mf = self.mut(nm, a) if pre else ("", lambda x: None)

            def th():
                try:
                    for i, x in H.live(a):
                        mf(aget(x, 0) if params == "|x, y|" and isinstance(x, list) else x)
                        if f(i, x) == "stop":
                            break
                    return fin()
                except Brk as b:
                    return b.v
            return "%s.%s { %s %s%s }" % (R, meth, params, msrc, body), th

        if k == "get":
            i = self.idx(a)
            return g.choice(["%s[%d]", "%s.at(%d)"]) % (R, i), lambda: aget(a, i)
        if k == "slice":
            s, l = self.idx(a), self.ln(a)
            return "%s[%d, %d]" % (R, s, l), lambda: aslice(a, s, l)
        if k == "range":
            r = self.rng(a)
            return "%s[%s]" % (R, lit(r)), lambda: aslice(a, *(lambda z: (z[0] if z[0] >= 0 else -n - 1, z[1]))(rspan(a, r)))
        if k == "set":
            i = self.idx(a)
            s, v = self.arg(a)

            def th():
                aset(a, i, v)
                return v
            return "(%s[%d] = %s)" % (R, i, s), th
        if k == "splice":
            i, l = self.idx(a), self.ln(a)
            s, v = self.arg(a) if g.bool() else self.arrarg(a)
            if isinstance(v, list) and any(reaches(x, a) for x in v):
                s, v = "1", 1

            def th():
                splice(a, i, l, v)
                return v
            return "(%s[%d, %d] = %s)" % (R, i, l, s), th
        if k == "rsplice":
            r = self.rng(a)
            s, v = self.arg(a) if g.bool() else self.arrarg(a)
            if isinstance(v, list) and any(reaches(x, a) for x in v):
                s, v = "1", 1

            def th():
                st, l = rspan(a, r)
                if st < 0:
                    err()
                splice(a, st, l, v)
                return v
            return "(%s[%s] = %s)" % (R, lit(r), s), th
        if k == "opset":
            i = self.idx(a)
            v = self.scalar()
            o = g.choice(["||=", "&&="])

            def th():
                cur = aget(a, i)
                if truthy(cur) == (o == "&&="):
                    aset(a, i, v)
                    return v
                return cur
            return "(%s[%d] %s %s)" % (R, i, o, lit(v)), th
        if k == "push":
            if g.bool():
                s, v = self.arg(a)

                def th():
                    a.append(v)
                    return a
                return "(%s << %s)" % (R, s), th
            xs = [self.arg(a) for _ in range(g.int(0, 3))]

            def th():
                a.extend(v for _, v in xs)
                return a
            return "%s.push(%s)" % (R, ", ".join(s for s, _ in xs)), th
        if k == "unshift":
            xs = [self.arg(a) for _ in range(g.int(0, 3))]

            def th():
                a[0:0] = [v for _, v in xs]
                return a
            return "%s.unshift(%s)" % (R, ", ".join(s for s, _ in xs)), th
        if k == "pop":
            return "%s.pop" % R, lambda: a.pop() if a else None
        if k == "shift":
            if g.bool():
                return "%s.shift" % R, lambda: a.pop(0) if a else None
            m = g.int(-1, n + 2)

            def th():
                if m < 0:
                    err()
                r = a[:m]
                del a[:m]
                return r
            return "%s.shift(%d)" % (R, m), th
        if k == "first":
            m = g.choice(["first", "last"])
            return "%s.%s" % (R, m), lambda: (a[0] if m == "first" else a[-1]) if a else None
        if k == "concat":
            s, v = self.arrarg(a)
            if any(reaches(x, a) for x in v):
                s, v = "[]", []

            def th():
                a.extend(list(v))
                return a
            return "%s.concat(%s)" % (R, s), th
        if k == "plus":
            s, v = self.arrarg(a)
            if g.bool(1, 4) and nm != s:
                def th():
                    E[nm] = a + v
                    return E[nm]
                return "(%s += %s)" % (R, s), th
            return "(%s + %s)" % (R, s), lambda: a + v
        if k == "minus":
            if g.bool():
                s, v = self.arrarg(a)
            else:
                v = [self.near(a) for _ in range(g.int(0, 3))]
                s = lit(v)
            return "(%s - %s)" % (R, s), lambda: [x for x in a if not any(eql(x, y) for y in v)]
        if k == "times":
            if g.bool():
                m = g.int(-1, 3)
                return "(%s * %s)" % (R, lit(m)), lambda: a * m if m >= 0 else err()
            s = g.choice(["", ",", "--"])
            return "(%s * %s)" % (R, lit(s)), lambda: join(a, s)
        if k == "join":
            if g.bool(1, 4):
                return "%s.join" % R, lambda: join(a, "")
            s = g.choice(["", ",", "--"])
            return "%s.join(%s)" % (R, lit(s)), lambda: join(a, s)
        if k == "cmp":
            s, v = self.arrarg(a) if g.bool() else (lambda z: (lit(z), z))([self.near(a) for _ in range(g.int(0, 3))])
            if g.bool(1, 3):
                v = copyv(a)
                if v and g.bool():
                    v[g.int(0, len(v) - 1)] = self.scalar()
                s = lit(v)
            o = g.choice(["<=>", "==", "!=", "eql?", "==="])
            if o == "<=>":
                return "(%s <=> %s)" % (R, s), lambda: cmp(a, v)
            if o == "eql?":
                return "%s.eql?(%s)" % (R, s), lambda: eql(a, v)
            return "(%s %s %s)" % (R, o, s), lambda: eq(a, v) == (o != "!=")
        if k == "query":
            m = g.choice(["length", "size", "empty?", "inspect", "to_s", "any?", "all?", "count"])
            f = {"length": lambda: len(a), "size": lambda: len(a), "empty?": lambda: not a, "inspect": lambda: insp(a), "to_s": lambda: insp(a),
                 "any?": lambda: any(truthy(x) for x in a), "all?": lambda: all(truthy(x) for x in a), "count": lambda: len(a)}[m]
            return "%s.%s" % (R, m), f
        if k == "find":
            v = self.near(a)
            m = g.choice(["include?", "index", "find_index", "count"])
            f = {"include?": lambda: any(eq(x, v) for x in a), "count": lambda: sum(eq(x, v) for x in a)}.get(m)
            if f is None:
                f = lambda: next((i for i, x in enumerate(a) if eq(x, v)), None)
            return "%s.%s(%s)" % (R, m, lit(v)), f
        if k == "anyp":
            ps, pv = self.pat(a)
            m = g.choice(["any?", "all?", "grep"])
            f = {"any?": lambda: any(teq(pv, x) for x in a), "all?": lambda: all(teq(pv, x) for x in a), "grep": lambda: [x for x in a if teq(pv, x)]}[m]
            return "%s.%s(%s)" % (R, m, ps), f
        if k == "reverse":
            if g.bool():
                return "%s.reverse" % R, lambda: a[::-1]

            def th():
                a.reverse()
                return a
            return "%s.reverse!" % R, th
        if k == "rotate":
            m = g.int(-n - 2, n + 2)

            def th():
                if a:
                    j = m % len(a)
                    a[:] = a[j:] + a[:j]
                return a
            return "%s.rotate!(%d)" % (R, m), th
        if k == "compact":
            if g.bool():
                return "%s.compact" % R, lambda: [x for x in a if x is not None]

            def th():
                m = len(a)
                a[:] = [x for x in a if x is not None]
                return a if len(a) != m else None
            return "%s.compact!" % R, th
        if k == "transpose":
            def th():
                if not a:
                    return []
                if not all(isinstance(x, list) for x in a) or len({len(x) for x in a}) != 1:
                    err()
                return [list(z) for z in zip(*a)]
            return "%s.transpose" % R, th
        if k == "minmax":
            m = g.choice(["min", "max"])

            def th():
                if not a:
                    return None
                r = a[0]
                for x in a[1:]:
                    c = cmp(x, r)
                    if c is None:
                        err()
                    if c < 0 if m == "min" else c > 0:
                        r = x
                return r
            return "%s.%s" % (R, m), th
        if k == "fill":
            v = self.scalar()

            def th():
                a[:] = [v] * len(a)
                return a
            return "%s.fill(%s)" % (R, lit(v)), th
        if k == "clear":
            def th():
                del a[:]
                return a
            return "%s.clear" % R, th
        if k == "uniq":
            def u(l, f=lambda x: x):
                seen, o = set(), []
                for x in l:
                    h = hk(f(x))
                    if h not in seen:
                        seen.add(h)
                        o.append(x)
                return o
            b, f, ps = "", lambda x: x, ""
            if g.bool():
                if g.bool():
                    b, f, ps = self.mapf(a)
                else:
                    b, f, ps = self.pred(a)
                    b = "!!(%s)" % b
                b = " { %s %s }" % (ps, b)
            if g.bool():
                return "%s.uniq%s" % (R, b), lambda: u(a, f)

            def th():
                m = len(a)
                a[:] = u(a, f)
                return a if len(a) != m else None
            return "%s.uniq!%s" % (R, b), th
        if k == "slice!":
            s, l = g.int(0, n + 1), g.int(0, n + 1)

            def th():
                if s > len(a):
                    return None
                r = a[s:s + l]
                del a[s:s + l]
                return r
            return "%s.slice!(%d, %d)" % (R, s, l), th
        if k == "dup":
            return "%s.%s" % (R, g.choice(["dup", "clone"])), lambda: list(a)
        if k == "toa":
            return "%s.to_a" % R, lambda: a
        if k == "new":
            v = self.scalar()
            m = g.int(0, 4)
            return g.choice([("Array.new(%d, %s)" % (m, lit(v)), lambda: [v] * m), ("Array.new(%d)" % m, lambda: [None] * m), ("Array.new(%s)" % R, lambda: list(a)),
                             ("Array[%s, %s]" % (lit(v), R), lambda: [v, a]), ("Array(%s)" % R, lambda: a)])
        if k == "splat":
            v = self.scalar()
            o = g.choice(NAMES)
            return g.choice([("[%s, *%s, *%s]" % (lit(v), R, o), lambda: [v] + a + E[o]), ("[*%s, *%s]" % (R, o), lambda: a + E[o]), ("[*%s, %s]" % (R, lit(v)), lambda: a + [v]),
                             ("[%s, %s]" % (R, lit(v)), lambda: [a, v])])
        if k == "alias":
            o = g.choice(NAMES)

            def th():
                E[o] = a
                return a is E[nm]
            return "(%s = %s; %s.equal?(%s))" % (o, R, R, o), th
        if k == "drop":
            m = g.int(-1, n + 2)
            return "%s.drop(%d)" % (R, m), lambda: a[m:] if m >= 0 else err()
        if k == "zip":
            xs = [self.arrarg(a) for _ in range(g.int(1, 2))]
            return "%s.zip(%s)" % (R, ", ".join(s for s, _ in xs)), lambda: [[x] + [aget(v, i) if i < len(v) else None for _, v in xs] for i, x in enumerate(a)]
        if k == "sort":
            def ok():
                l = [x for x in a]
                for i, x in enumerate(l):
                    if not (isnum(x) or isinstance(x, (str, Sym))):
                        return False
                    for y in l[:i]:
                        if cmp(x, y) is None or cmp(x, y) == 0 and not eql(x, y):
                            return False
                return True
            import functools
            if not ok():
                return "%s.size" % R, lambda: len(a)
            m = g.int(0, 2)
            srt = lambda rev=False: sorted(a, key=functools.cmp_to_key(lambda x, y: cmp(y, x) if rev else cmp(x, y)))
            if m == 0:
                return "%s.sort" % R, lambda: srt()
            if m == 1:
                return "%s.sort { |x, y| y <=> x }" % R, lambda: srt(True)
            return "%s.sort_by { |x| x }" % R, lambda: srt()
        if k == "inject":
            m = g.choice(["inject", "reduce"])
            acc = [[]]

            def f(i, x):
                acc[0] = [acc[0], x] if len(acc[0]) == 2 else acc[0] + [x]
            self.pre = None
            return iter_("%s([])" % m, "s.size == 2 ? [s, x] : s + [x]", f, lambda: acc[0], "|s, x|")
        if k in ("find_b", "select", "reject", "partition", "find_index_b", "any_b", "all_b"):
            b, p, ps = self.pred(a)
            t, f_ = [], []
            res = [None, False, True]

            def f(i, x):
                c = p(x)
                (t if truthy(c) else f_).append(x)
                if k == "find_b" and truthy(c):
                    res[0] = x
                    return "stop"
                if k == "find_index_b" and truthy(c):
                    res[0] = i
                    return "stop"
                if k == "any_b" and truthy(c):
                    res[1] = True
                    return "stop"
                if k == "all_b" and not truthy(c):
                    res[2] = False
                    return "stop"
            fin = {"find_b": lambda: res[0], "find_index_b": lambda: res[0], "select": lambda: t, "reject": lambda: f_, "partition": lambda: [t, f_],
                   "any_b": lambda: res[1], "all_b": lambda: res[2]}[k]
            m = {"find_b": g.choice(["find", "detect"]), "find_index_b": g.choice(["find_index", "index"]), "select": g.choice(["select", "filter"]),
                 "any_b": "any?", "all_b": "all?"}.get(k, k)
            return iter_(m, b, f, fin, ps)
        if k == "map":
            b, p, ps = self.mapf(a)
            r = []
            return iter_(g.choice(["map", "collect"]), b, lambda i, x: r.append(p(x)), lambda: r, ps)
        if k == "map!":
            b, p, ps = self.mapf(a)

            def f(i, x):
                a[i] = p(x)
            return iter_(g.choice(["map!", "collect!"]), b, f, lambda: a, ps, pre=False)
        if k == "flat_map":
            b, p, ps = self.mapf(a)
            r = []

            def f(i, x):
                y = p(x)
                r.extend(y) if isinstance(y, list) else r.append(y)
            return iter_("flat_map", b, f, lambda: r, ps)
        if k == "each":
            r = []
            m = g.choice(["each", "each_index", "each_with_index"])
            self.pre = "t = []"
            fn = {"each": lambda i, x: r.append(x), "each_index": lambda i, x: r.append(i), "each_with_index": lambda i, x: r.extend([x, i])}[m]
            body = {"each": "t << x", "each_index": "t << x", "each_with_index": "t << x << i"}[m]
            if m == "each_index":
                ii = [0]
                msrc, mf = "", None

                def th():
                    for i, x in H.live(a):
                        fn(i, x)
                    return [a, r]
                return "[%s.each_index { |x| t << x }, t]" % R, th
            s, th0 = iter_(m, body, fn, lambda: a, "|x|" if m == "each" else "|x, i|")

            def th():
                v = th0()
                return [v, r]
            return "[%s, t]" % s, th
        if k == "bsearch":
            if not all(isinstance(x, int) and not isinstance(x, bool) for x in a) or a != sorted(a):
                return "%s.size" % R, lambda: len(a)
            t = g.int(-4, 10)
            if g.bool():
                return "%s.bsearch { |x| x >= %d }" % (R, t), lambda: next((x for x in a if x >= t), None)
            return "%s.bsearch_index { |x| x >= %d }" % (R, t), lambda: next((i for i, x in enumerate(a) if x >= t), None)
        if k == "delete":
            v = self.near(a)

            def th():
                r = None
                for x in a:
                    if eq(x, v):
                        r = x
                a[:] = [x for x in a if not eq(x, v)]
                return r
            return "%s.delete(%s)" % (R, lit(v)), th
        if k == "flatten":
            lv = g.choice([None, None, 1, 2, 0, -1])
            s = "" if lv is None else "(%d)" % lv
            if g.bool():
                return "%s.flatten%s" % (R, s), lambda: flatten(a, lv)[0]

            def th():
                r, ch = flatten(a, lv)
                a[:] = r
                return a if ch else None
            return "%s.flatten!%s" % (R, s), th
        raise AssertionError(k)

    def go(self):
        g = self.g
        for n in NAMES:
            v = self.arr()
            if self.fl == "ints" and g.bool(1, 3):
                v.sort()
            self.env[n] = v
            self.src.append("%s = %s" % (n, lit(v)))
        for _ in g.rep(5, 18, lambda: 0):
            nt = True
            s, th = self.op()
            before = [insp(self.env[n]) for n in NAMES]
            if sum(len(b) for b in before) > 1500:
                self.src.append("a = []; b = [1]; c = [2, 3]")
                self.env = dict(a=[], b=[1], c=[2, 3])
                continue
            tgt = None
            try:
                v = th()
                if isinstance(v, list) and len(insp(v)) < 400 and g.bool(1, 3):
                    tgt = g.choice(NAMES)
                    self.env[tgt] = v
                self.out.append(insp(v))
            except RErr:
                self.out.append("!")
            # no cycles may arise
            if self.pre:
                self.src.append(self.pre)
            if tgt:
                self.src.append("begin; %s = %s; p %s; rescue => e; puts '!'; end" % (tgt, s, tgt))
            else:
                self.src.append("begin; p(%s); rescue => e; puts '!'; end" % s)
            self.src.append("p a, b, c")
            self.out += [insp(self.env[n]) for n in NAMES]
            self.units.append((s + "".join(before), any(len(b) > 2 for b in before)))


OPS = ["get", "slice", "range", "set", "splice", "splice", "rsplice", "opset", "push", "push", "unshift", "pop", "shift", "first", "concat", "plus", "minus", "times", "join", "cmp", "query",
       "find", "anyp", "reverse", "rotate", "compact", "transpose", "minmax", "fill", "clear", "uniq", "slice!", "dup", "toa", "new", "splat", "alias", "drop", "zip", "sort", "inject",
       "find_b", "select", "reject", "partition", "find_index_b", "any_b", "all_b", "map", "map!", "flat_map", "each", "bsearch", "delete", "flatten"]


def build(g):
    h = H(g)
    h.go()
    return Case("\n".join(h.src) + "\n", h.out, h.units, h.labels)


def strategy(part=None):
    return from_g(build)
