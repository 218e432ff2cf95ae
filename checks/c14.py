"""C14: Hash against a model (insertion-ordered map with eql? keys), as histories of operations on shared hashes."""
from driver import Case
from gen import from_g
from model import *

ID = "C14"
EXAMPLES = dict(quick=1600, thorough=40000)
RULE = ("One evaluation = one Hash operation in a history of 5-18 operations over three aliased hash variables, its result and the resulting contents and order of "
        "all variables compared with an insertion-ordered model. Non-trivial: at least one of the hashes had two or more entries.")
ASSUMPTIONS = ["only the Hash methods ruruby implements are generated", "errors are compared as 'an exception was raised', not by class",
               "keys are not mutated after insertion (except String keys, which Hash copies)", "new keys are not added during iteration"]
NAMES = ["h", "q", "m"]


class Brk(Exception):
    def __init__(self, v):
        self.v = v


def err():
    raise RErr("StandardError")


def reaches(v, t):
    if v is t:
        return True
    if isinstance(v, list):
        return any(reaches(x, t) for x in v)
    if isinstance(v, RHash):
        return any(reaches(x, t) for x in v.values())
    return False


class H:
    def __init__(self, g):
        self.g = g
        self.env = {}
        self.src, self.out, self.units, self.labels = [], [], [], []
        self.fl = g.choice(["mixed", "sym", "int", "str", "mixed", "compound"])

    def key(self, me=None):
        g = self.g
        if me is not None and len(me) and g.bool(3, 5):
            return g.choice(me.keys())
        if self.fl == "sym":
            return Sym(g.choice("abcdef"))
        if self.fl == "int":
            return g.weighted([(6, g.int(-3, 9)), (1, g.choice([2**62, 2**62 - 1, -2**62, 2**64, 2**64 + 1, -2**63]))])
        if self.fl == "str":
            return g.choice(["a", "b", "", "ab", "zz", "B", "0", "a b"])
        n = 12 if self.fl == "compound" else 7
        x = g.int(0, n)
        if x == 0:
            return g.choice([None, True, False])
        if x == 1:
            return g.int(0, 3)
        if x == 2:
            return float(g.int(0, 3))
        if x == 3:
            return g.choice([0.5, -0.0, 1e300, 2.0**70, 1.5e-200])
        if x == 4:
            return g.choice(["a", "b", "1", ""])
        if x == 5:
            return Sym(g.choice("ab"))
        if x == 6:
            return g.choice([2**70, 2**62, -2**62 - 1, 2**70 + 1])
        if x == 7:
            return Rng(g.int(0, 2), g.int(2, 3), g.bool())
        if x <= 10:
            return [self.leaf() for _ in range(g.int(0, 3))]
        return RHash([(self.leaf(), self.leaf()) for _ in range(g.int(0, 3))])

    def leaf(self):
        g = self.g
        x = g.int(0, 8)
        if x == 8:
            return [self.g.int(0, 2)]
        return [1, 1.0, "a", Sym("a"), None, 2, 2**70, "b"][x]

    def val(self):
        g = self.g
        x = g.int(0, 9)
        if x <= 5:
            return g.int(-2, 9)
        if x == 6:
            return g.choice([None, True, False])
        if x == 7:
            return g.choice(["x", "y", ""])
        if x == 8:
            return Sym(g.choice("pq"))
        return [g.int(0, 3)]

    def valarg(self, me):
        g = self.g
        if g.bool(1, 10):
            n = g.choice(NAMES)
            if not reaches(self.env[n], me):
                return n, self.env[n]
        v = self.val()
        return lit(v), v

    def klit(self, k, look=False):
        """Source of a key; sometimes built at run time."""
        g = self.g
        if g.bool(1, 6):
            if isinstance(k, str) and g.bool():
                return '("" + %s)' % lit(k)
            if isinstance(k, list):
                return "[%s]" % ", ".join(["*" + lit(k[:1])] * (len(k) > 0) + [lit(x) for x in k[1:]])
            if isinstance(k, int) and not isinstance(k, bool):
                return "(%d - 2**65 + 2**65)" % k
            if isinstance(k, RHash) and look:
                return lit(RHash(list(reversed(k.items()))))
            if isinstance(k, float) and k == k and abs(k) < 1e100 and k != 0:
                return "(%s * 1.0)" % lit(k)
        return lit(k)

    def hlit(self, n):
        g = self.g
        ps = [(self.key(), self.val()) for _ in range(g.int(0, n))]
        h = RHash(ps)
        o = []
        for k, v in ps:
            if isinstance(k, Sym) and g.bool():
                o.append("%s: %s" % (k.n, lit(v)))
            else:
                o.append("%s => %s" % (self.klit(k), lit(v)))
        return "{%s}" % ", ".join(o), h

    def harg(self):
        g = self.g
        if g.bool(1, 3):
            n = g.choice(NAMES)
            return n, self.env[n]
        return self.hlit(3)

    def pred2(self, h):
        """(block source, f(k, v) -> truthy)"""
        g = self.g
        x = g.int(0, 5)
        if x == 0:
            return "|k, v| v", lambda k, v: truthy(v)
        if x == 1:
            t = self.key(h)
            return "|k, v| k == %s" % lit(t), lambda k, v: eq(k, t)
        if x == 2:
            t = g.choice(h.values()) if len(h) else 1
            if isinstance(t, RHash):
                t = 1
            return "|k, v| v != %s" % lit(t), lambda k, v: not eq(v, t)
        if x == 3:
            c = g.choice(["Integer", "String", "Symbol", "Array", "NilClass"])
            w = g.choice("kv")
            ty = dict(Integer=lambda z: isinstance(z, int) and not isinstance(z, bool), String=lambda z: isinstance(z, str), Symbol=lambda z: isinstance(z, Sym),
                      Array=lambda z: isinstance(z, list), NilClass=lambda z: z is None)[c]
            return "|k, v| %s.is_a?(%s)" % (w, c), lambda k, v: ty(k if w == "k" else v)
        if x == 4:
            t = self.key(h)
            return "|k| k != %s" % lit(t), lambda k, v: not eq(k, t)
        t = g.bool()
        return "|k, v| %s" % insp(t), lambda k, v: t

    def live(self, h):
        for k, v in h.items():
            if h.has(k):
                yield k, h.get(k)

    def mut(self, nm, h):
        g = self.g
        x = g.int(0, 8)
        if x <= 3 or not len(h):
            return "", lambda k, v: None
        if x == 4:
            t = self.key(h)
            w = self.val()

            def f(k, v):
                if eq(k, t):
                    raise Brk(w)
            return "break %s if k == %s; " % (lit(w), lit(t)), f
        if x == 5:
            return "%s.delete(k); " % nm, lambda k, v: h.delete(k) and None
        if x == 6:
            t = self.key(h)

            def f2(k, v):
                h.delete(t)
            return "%s.delete(%s); " % (nm, lit(t)), f2
        if x == 7:
            w = self.val()

            def f3(k, v):
                h.set(k, w)
            return "%s[k] = %s; " % (nm, lit(w)), f3
        if len(h) > 1:
            t = g.choice(h.keys())
            w = self.val()

            def f4(k, v):
                if h.has(t):
                    h.set(t, w)
            return "%s[%s] = %s if %s.key?(%s); " % (nm, lit(t), lit(w), nm, lit(t)), f4
        return "", lambda k, v: None

    def op(self):
        g = self.g
        nm = g.choice(NAMES)
        h = self.env[nm]
        E = self.env
        self.pre = None
        op = g.choice(OPS)
        if op == "get":
            k = self.key(h)
            return "%s[%s]" % (nm, self.klit(k, True)), lambda: h.get(k)
        if op == "set":
            k = self.key(h)
            s, v = self.valarg(h)

            def th():
                h.set(k, v)
                return v
            return "(%s[%s] = %s)" % (nm, self.klit(k), s), th
        if op == "opset":
            k = self.key(h)
            o = g.choice(["+=", "||=", "&&="])
            v = g.int(0, 5)

            def th():
                c = h.get(k)
                if o == "+=":
                    if not isnum(c):
                        err()
                    h.set(k, c + v)
                    return c + v
                if truthy(c) == (o == "||="):
                    return c
                h.set(k, v)
                return v
            if o == "+=" and not (h.has(k) and isnum(h.get(k))) and not h.get(k) is None:
                o = "||="
            return "(%s[%s] %s %d)" % (nm, self.klit(k), o, v), th
        if op == "mutkey":
            k = g.choice(["a", "b", "zz"])
            v = self.val()

            def th():
                h.set(k, v)
                return v
            self.pre = "s = %s" % lit(k)
            return "(%s[s] = %s; s << \"!\"; %s[%s])" % (nm, lit(v), nm, lit(k)), th
        if op == "mutlit":
            k = g.choice(["a", "b", "zz"])
            v = self.val()
            self.pre = "s = %s" % lit(k)
            return "(t = {s => %s}; s << \"!\"; t)" % lit(v), lambda: RHash([(k, v)])
        if op == "delete":
            k = self.key(h)
            return "%s.delete(%s)" % (nm, self.klit(k, True)), lambda: h.delete(k)
        if op == "key?":
            k = self.key(h)
            return "%s.%s(%s)" % (nm, g.choice(["key?", "has_key?", "include?", "member?"]), self.klit(k, True)), lambda: h.has(k)
        if op == "value?":
            v = g.choice(h.values()) if len(h) and g.bool() else self.val()
            if isinstance(v, RHash):
                v = 1
            return "%s.has_value?(%s)" % (nm, lit(v)), lambda: any(eq(x, v) for x in h.values())
        if op == "query":
            return g.choice([("%s.keys" % nm, h.keys), ("%s.values" % nm, h.values), ("%s.size" % nm, lambda: len(h)), ("%s.length" % nm, lambda: len(h)),
                             ("%s.empty?" % nm, lambda: len(h) == 0), ("%s.default" % nm, lambda: None)])
        if op == "clear":
            def th():
                h.d.clear()
                return h
            return "%s.clear" % nm, th
        if op == "dup":
            return "%s.%s" % (nm, g.choice(["dup", "clone", "merge"])), h.copy
        if op == "compact":
            return "%s.compact" % nm, lambda: RHash([(k, v) for k, v in h.items() if v is not None])
        if op == "merge":
            a = [self.harg() for _ in range(g.int(1, 2))]

            def th():
                r = h.copy()
                for _, x in a:
                    for k, v in x.items():
                        r.set(k, v)
                return r
            return "%s.merge(%s)" % (nm, ", ".join(x if x[0] != "{" else "(%s)" % x for x, _ in a)), th
        if op == "fetch":
            k = self.key(h)
            x = g.int(0, 2)
            if x == 0:
                return "%s.fetch(%s)" % (nm, self.klit(k)), lambda: h.get(k) if h.has(k) else err()
            if x == 1:
                v = self.val()
                return "%s.fetch(%s, %s)" % (nm, self.klit(k), lit(v)), lambda: h.get(k) if h.has(k) else v
            return "%s.fetch(%s) { |x| [x, 1] }" % (nm, self.klit(k)), lambda: h.get(k) if h.has(k) else [k, 1]
        if op == "select":
            b, f = self.pred2(h)
            rej = g.bool()
            return "%s.%s { %s }" % (nm, "reject" if rej else g.choice(["select", "filter", "find_all"]), b), \
                lambda: RHash([(k, v) for k, v in h.items() if bool(f(k, v)) != rej])
        if op == "select_m":
            b, f = self.pred2(h)
            rej = g.bool()
            ms, mf = self.mut(nm, h)
            if "|k|" in b:
                b = b.replace("|k|", "|k, v|")

            def th():
                r = RHash()
                try:
                    for k, v in self.live(h):
                        mf(k, v)
                        if bool(f(k, v)) != rej:
                            r.set(k, v)
                except Brk as x:
                    return x.v
                return r
            return "%s.%s { %s }" % (nm, "reject" if rej else "select", b.replace("|k, v| ", "|k, v| " + ms)), th
        if op == "each":
            x = g.int(0, 4)
            ms, mf = self.mut(nm, h)
            self.pre = "l = []"
            L = []
            m = ["each", "each_pair", "each", "each_key", "each_value"][x]
            if x == 4 and "k" in ms:
                ms, mf = "", lambda k, v: None

            def th():
                try:
                    for k, v in self.live(h):
                        mf(k, v)
                        L.append(k if x == 3 else v if x == 4 else [k, v])
                except Brk as z:
                    return [z.v, list(L)]
                return [h, list(L)]
            ps, b = [("|k, v|", "l << [k, v]"), ("|k, v|", "l << [k, v]"), ("|x|", "k = x[0]; v = x[1]; "), ("|k|", "l << k"), ("|v|", "l << v")][x]
            if x == 2:
                return "[%s.%s { |x| k = x[0]; %sl << x }, l]" % (nm, m, ms), th
            return "[%s.%s { %s %s%s }, l]" % (nm, m, ps, ms, b), th
        if op == "sort":
            if len(h) and all(isinstance(k, int) and not isinstance(k, bool) for k in h.keys()) or all(isinstance(k, str) for k in h.keys()):
                return "%s.sort" % nm, lambda: [[k, h.get(k)] for k in sorted(h.keys())]
            return "%s.keys" % nm, h.keys
        if op == "invert":
            if any(isinstance(v, RHash) for v in h.values()):
                return "%s.size" % nm, lambda: len(h)
            return "%s.invert" % nm, lambda: RHash([(v, k) for k, v in h.items()])
        if op == "eq":
            s, v = self.harg()
            o = g.choice(["==", "!=", "eql?", "equal?"])
            if o in ("==", "!="):
                return "(%s %s %s)" % (nm, o, s), lambda: eq(h, v) == (o == "==")
            if o == "eql?":
                return "%s.eql?(%s)" % (nm, s if s[0] != "{" else "(%s)" % s), lambda: eql(h, v)
            return "%s.equal?(%s)" % (nm, s if s[0] != "{" else "(%s)" % s), lambda: h is v
        if op == "reorder":
            if any(isinstance(v, RHash) for v in h.values()):
                return "%s.size" % nm, lambda: len(h)
            it = h.items()
            g2 = g.int(0, 3)
            it = it[g2 % max(len(it), 1):] + it[:g2 % max(len(it), 1)]
            x = RHash(it)
            o = g.int(0, 3)
            s = lit(x)
            return [("(%s == %s)" % (nm, s), lambda: True), ("({%s => 1}[%s])" % (nm, s), lambda: 1), ("[%s, %s].uniq.size" % (nm, s), lambda: 1),
                    ("({%s => 1, [%s] => 2}[[%s]])" % (s, s, nm), lambda: 2)][o]
        if op == "lit":
            s, v = self.hlit(5)
            return s if s[0] != "{" else "(%s)" % s, lambda: v
        if op == "insp":
            x = g.int(0, 3)
            return ["%s.inspect", "%s.to_s", '"#{%s}"', "[%s].inspect[1..-2]"][x] % nm, lambda: insp(h)
        if op == "alias":
            o = g.choice(NAMES)
            return o, lambda: E[o]
        if op == "for":
            self.pre = "l = []"
            return "((%s.keys.each { |k| l << [k, %s[k]] }); l)" % (nm, nm), lambda: [[k, v] for k, v in h.items()]
        raise AssertionError(op)

    def go(self):
        g = self.g
        for n in NAMES:
            s, v = self.hlit(5)
            self.env[n] = v
            self.src.append("%s = %s" % (n, s))
        for _ in g.rep(4, 16, lambda: 0):
            before = [insp(self.env[n]) for n in NAMES]
            nt = any(len(self.env[n]) >= 2 for n in NAMES)
            if sum(len(b) for b in before) > 1200:
                self.src.append("h = {}; q = {1 => 2}; m = {a: 1}")
                self.env = dict(h=RHash(), q=RHash([(1, 2)]), m=RHash([(Sym("a"), 1)]))
                continue
            s, th = self.op()
            tgt = None
            try:
                v = th()
                if isinstance(v, RHash) and g.bool(1, 3):
                    tgt = g.choice(NAMES)
                    self.env[tgt] = v
                self.out.append(insp(v))
            except RErr:
                self.out.append("!")
            if self.pre:
                self.src.append(self.pre)
            if tgt:
                self.src.append("begin; %s = %s; p %s; rescue => e; puts '!'; end" % (tgt, s, tgt))
            else:
                self.src.append("begin; p(%s); rescue => e; puts '!'; end" % s)
            self.src.append("p h, q, m")
            self.out += [insp(self.env[n]) for n in NAMES]
            self.units.append((s + "".join(before), nt))


OPS = ["get", "get", "set", "set", "set", "opset", "mutkey", "mutlit", "delete", "delete", "key?", "value?", "query", "query", "clear", "dup", "compact", "merge", "merge", "fetch", "fetch",
       "select", "select_m", "each", "each", "each", "sort", "invert", "eq", "eq", "reorder", "lit", "lit", "insp", "alias", "for"]

# --- compare_by_identity: keys are named objects; `v` is the value, identity is the Python object
POOL = [("s1", '"a"'), ("s2", '"a"'), ("s3", "s1.dup"), ("a1", "[1]"), ("a2", "[1]"), ("h1", "{1 => 2}"), ("h2", "{1 => 2}"), ("f1", "(2.0**600)"), ("f2", "(2.0**600)"),
        ("n1", "3"), ("n2", "3"), ("y1", ":a"), ("y2", ":a"), ("z1", "nil"), ("z2", "nil"), ("o1", "Object.new"), ("r1", "(1..2)"), ("r2", "(1..2)")]
IDK = dict(n2="n1", y2="y1", z2="z1")
SHOW = dict(s1='"a"', s2='"a"', s3='"a"', a1="[1]", a2="[1]", h1="{1=>2}", h2="{1=>2}", n1="3", y1=":a", z1="nil", r1="1..2", r2="1..2")


def build_ident(g):
    src = ["%s = %s" % x for x in POOL]
    src.append("h = {}" if g.bool() else "h = {3 => 0}")
    d = {} if src[-1] == "h = {}" else {"n1": 0}
    src.append("h.compare_by_identity")
    out, units = [], []
    nv = 1
    for _ in g.rep(4, 16, lambda: 0):
        nm = g.choice(POOL)[0]
        k = IDK.get(nm, nm)
        x = g.int(0, 8)
        if x <= 2:
            src.append("p(h[%s] = %d)" % (nm, nv))
            d[k] = nv
            out.append(str(nv))
            nv += 1
        elif x == 3:
            src.append("p h[%s]" % nm)
            out.append(str(d.get(k, "nil")))
        elif x == 4:
            src.append("p h.key?(%s)" % nm)
            out.append("true" if k in d else "false")
        elif x == 5:
            src.append("p h.delete(%s)" % nm)
            out.append(str(d.pop(k, "nil")))
        elif x == 6:
            src.append("h = h.%s" % g.choice(["dup", "merge", "clone", "compact", "compare_by_identity"]))
        elif x == 7:
            src.append("p h.fetch(%s, -1)" % nm)
            out.append(str(d.get(k, -1)))
        else:
            src.append("l = []; h.each { |k, v| l << v if k.equal?(%s) }; p l" % nm)
            out.append("[%d]" % d[k] if k in d else "[]")
        src.append("p h.values, h.size")
        out.append("[" + ", ".join(str(v) for v in d.values()) + "]")
        out.append(str(len(d)))
        units.append((src[-2] + str(list(d.items())), len(d) > 1))
    return Case("\n".join(src) + "\n", out, units, ["identity"])


PARTS = ["eql", "ident"]


def build(g):
    h = H(g)
    h.go()
    return Case("\n".join(h.src) + "\n", h.out, h.units, h.labels)


def strategy(part=None):
    return from_g(build_ident if part == "ident" else build)
