"""C12: garbage collection is transparent: programs whose every live object must survive collections placed at every safepoint."""
import importlib
import driver
import model
from driver import Case
from gen import from_g
from model import Sym, RHash, lit
from hypothesis import strategies as st

ID = "C12"
EXAMPLES = dict(quick=1500, thorough=40000)
VARIANTS = ("std", "stress")
RULE = ("One evaluation = one value read back (or one expression evaluated) after collections ran while it was live. Non-trivial: the program ran with a collection at every safepoint "
        "and the value is heap allocated, or it is a multi-page heap with real threshold-triggered collections.")
ASSUMPTIONS = ["the collect-at-every-safepoint build uses the gc-stress feature of the repository: every method entry and loop back edge is a collection point",
               "programs of the other properties' generators are re-run on that build"]
REUSE = {"ctl": ["c06"], "obj": ["c10"], "arr": ["c13", "c14"], "str": ["c15", "c20", "c01", "c02"]}
PARTS = ["gc", "gc", "gc", "vol", "ctl", "obj", "arr", "str"]


def check(case, ctx):
    if case.extra:
        m = importlib.import_module("checks." + case.extra[0])
        if hasattr(m, "check") and m is not importlib.import_module("checks.c12"):
            c2 = Case(case.src, case.expected, case.units, case.labels, "stress", case.cpu, case.extra[1])
            return m.check(c2, ctx)
        return driver.default_check(m, case, ctx)
    return driver.compare(ctx.runner(case.variant).run(case.src, case.cpu), case.expected)


def reuse(names):
    l = []
    for n in names:
        m = importlib.import_module("checks." + n)

        def f(case, n=n):
            if case.variant != "std":
                return case
            case.variant = "stress"
            case.extra = [n, case.extra]
            case.labels = ["reused:" + n]
            return case
        for p in getattr(m, "PARTS", [None]):
            s = m.strategy(p) if p is not None else m.strategy()
            l.append(s.map(f))
    return st.one_of(*l)


PRE = '''def g; i = 0; while i < 3; "junk#{i}" + "more"; [i, "j"]; i += 1; end; nil; end
def k(x); y = x + ""; g; y; end
def id(x); g; x; end
def opt(a, b = k("optb"), *c, d: k("optd"), &e); g; [a, b, c, d, e ? e.call(k("blk")) : nil]; end
def yy(a, b); g; yield(a, b); end
def ens(x); g; x; ensure; g; end
def rec(n, x); n == 0 ? (g; [x]) : rec(n - 1, k("r") + x) + [x]; end
class O; attr_accessor :a, :b, :c, :d, :e, :f, :h; def initialize(x = nil); @a = x; end; def ==(o); g; o.class == O && @a == o.a; end; def to_s; g; k("O#{@a}"); end; def <=>(o); g; k(@a) <=> k(o.a); end
def each; g; yield @a; g; yield k("each"); self; end; def +(o); g; O.new(@a + o.a); end; def [](i); g; k(@a) + i.to_s; end; def []=(i, v); g; @a = k(v) + i; end; def coerce_s; @a; end
def method_missing(n, *a); g; [n, a]; end; end
class TP; def initialize(x); @x = x; end; def to_proc; y = k(@x); g; proc { |z| g; z + y }; end; end
S3 = Struct.new(:x, :y, :z)
'''


class Raw:
    def __init__(self, s):
        self.s = s


def insp(v):
    if isinstance(v, Raw):
        return v.s
    if isinstance(v, list):
        return "[" + ", ".join(insp(x) for x in v) + "]"
    return model.insp(v)


class H:
    def __init__(self, g):
        self.g = g
        self.src = [PRE]
        self.out = []
        self.units = []
        self.live = []          # (read expr, value, one-shot?, mutable)
        self.n = 0

    def s(self):
        """Fresh string: (src, value)."""
        g = self.g
        x = g.int(0, 7)
        t = g.choice(["a", "bc", "é", "x" * 29, "y" * 40, "q0"])
        if x == 0:
            return '(%s + "%d")' % (lit(t), self.n), t + str(self.n)
        if x <= 2:
            return "k(%s)" % lit(t), t
        if x == 3:
            a, b = self.s()
            return 'k(%s + %s)' % (lit(t), a), t + b
        if x == 4:
            a, b = self.s()
            c, d = self.s()
            return '"%s#{%s}-#{%s}"' % (t, a, c), t + b + "-" + d
        if x == 5:
            return '(%s * 2)' % lit(t), t * 2
        if x == 6:
            a, b = self.s()
            return "id(%s)" % a, b
        return ":%s.to_s" % ("sy" + "m" * (len(t) % 5)), "sy" + "m" * (len(t) % 5)

    def v(self, d=2):
        """Fresh value."""
        g = self.g
        x = g.int(0, 13)
        if d == 0 or x <= 4:
            return self.s()
        if x == 5:
            l = [self.v(d - 1) for _ in range(g.int(0, 4))]
            return "[" + ", ".join(a for a, _ in l) + "]", [b for _, b in l]
        if x == 6:
            l = []
            for i in range(g.int(0, 3)):
                a, b = self.s()
                c, e = self.v(d - 1)
                l.append(("%s + \"k%d\"" % (a, i), b + "k%d" % i, c, e))
            return "{" + ", ".join("(%s) => %s" % (a, c) for a, _, c, _ in l) + "}", RHash([(b, e) for _, b, _, e in l])
        if x == 7:
            n = g.int(60, 90)
            return "(id(1) << %d)" % n, 1 << n
        if x == 8:
            return "(2.0 ** id(600))", 2.0 ** 600
        if x == 9:
            l = [self.s() for _ in range(3)]
            return "[*[%s, %s], *id([%s])]" % (l[0][0], l[1][0], l[2][0]), [l[0][1], l[1][1], l[2][1]]
        if x == 10:
            l = [self.v(d - 1) for _ in range(g.int(1, 3))]
            return "[%s].map { |x| g; id(x) }" % ", ".join(a for a, _ in l), [b for _, b in l]
        if x == 11:
            a, b = self.v(d - 1)
            return "ens(%s)" % a, b
        if x == 12:
            a, b = self.v(d - 1)
            c, e = self.v(d - 1)
            return "yy(%s, %s) { |m, n| g; [n, m] }" % (a, c), [e, b]
        a, b = self.v(d - 1)
        return "ens(id(%s))" % a, b

    def expr(self):
        """A transient: (src, expected inspect)."""
        g = self.g
        (a, av), (b, bv), (c, cv) = self.s(), self.s(), self.s()
        (v, vv), (w, wv) = self.v(1), self.v(1)
        i = insp
        n = g.int(0, 70)
        T = [
            lambda: ("opt(%s)" % v, [vv, "optb", [], "optd", None]),
            lambda: ("opt(%s, %s, %s, %s)" % (v, a, b, c), [vv, av, [bv, cv], "optd", None]),
            lambda: ("opt(%s, d: %s) { |q| g; q + %s }" % (v, a, b), [vv, "optb", [], av, "blk" + bv]),
            lambda: ("opt(*[%s, %s, %s], d: %s)" % (a, b, v, c), [av, bv, [vv], cv, None]),
            lambda: ("rec(%d, %s)" % (3, a), ["rrr" + av, "rr" + av, "r" + av, av]),
            lambda: ("[%s, %s, %s].sort" % (a, b, c), sorted([av, bv, cv])),
            lambda: ("[%s, %s, %s].sort { |m, n| g; k(m) <=> k(n) }" % (a, b, c), sorted([av, bv, cv])),
            lambda: ("[%s, %s, %s].sort_by { |m| g; k(m) + \"z\" }" % (a + ' + "1"', b + ' + "2"', c + ' + "3"'), sorted([av + "1", bv + "2", cv + "3"], key=lambda s: s + "z")),
            lambda: ("[%s, %s, %s].max" % (a, b, c), max([av, bv, cv])),
            lambda: ("[O.new(%s), O.new(%s)].max.to_s" % (a, b), "O" + max(av, bv)),
            lambda: ("[O.new(%s), O.new(%s)].sort.map { |o| o.a }" % (a, b), sorted([av, bv])),
            lambda: ("[O.new(%s), %s] == [O.new(%s), %s]" % (a, v, a, v), True),
            lambda: ("[%s, %s].include?(%s)" % (a, b, b), True),
            lambda: ("[O.new(%s), O.new(%s)].index(O.new(%s))" % (a, b, b), 0 if av == bv else 1),
            lambda: ("(O.new(%s) + O.new(%s)).a" % (a, b), av + bv),
            lambda: ("O.new(%s)[%d]" % (a, n), av + str(n)),
            lambda: ("\"<#{O.new(%s)}|#{%s}|#{[%s, O]}>\"" % (a, b, c), "<O%s|%s|%s>" % (av, bv, "[" + i(cv) + ", O]")),
            lambda: ("O.new(%s).foo(%s, %s)" % (a, v, b), [Sym("foo"), [vv, bv]]),
            lambda: ("[%s, %s, %s].inject(%s) { |s, x| g; s + x }" % (a, b, c, a), av + av + bv + cv),
            lambda: ("[%s, %s].zip([%s, %s])" % (a, b, v, c), [[av, vv], [bv, cv]]),
            lambda: ("[%s, %s, %s].select { |x| g; k(x) != \"a\" }" % (a, b, c), [x for x in [av, bv, cv] if x != "a"]),
            lambda: ("[[%s, %s], [%s]].flat_map { |x| g; x + [k(\"f\")] }" % (v, a, b), [vv, av, "f", bv, "f"]),
            lambda: ("[%s, %s, %s].partition { |x| g; k(x) == %s }" % (a, b, c, lit(av)), [[x for x in [av, bv, cv] if x == av], [x for x in [av, bv, cv] if x != av]]),
            lambda: ("[%s, %s, %s, %s].uniq" % (a, b, a, b), [av, bv] if av != bv else [av]),
            lambda: ("[[%s, [%s]], [%s]].flatten" % (a, b, c), [av, bv, cv]),
            lambda: ("[%s, %s].join(%s)" % (a, b, c), av + cv + bv),
            lambda: ("[O.new(%s), %s].join(%s)" % (a, b, c), "O" + av + cv + bv),
            lambda: ("(%s).gsub(/./) { |m| g; k(m) + \"-\" }" % a, "".join(ch + "-" for ch in av)),
            lambda: ("(%s).scan(/./).map { |m| k(m) }" % a, list(av)),
            lambda: ("(%s + \"=1\") =~ /(.*)=(.)/; [k($1), k($2), k($&)]" % a, [av, "1", av + "=1"]),
            lambda: ("r = []; {(%s + \"1\") => %s, (%s + \"2\") => %s}.each { |x, y| g; r << [k(x), y] }; r" % (a, v, b, w), [[av + "1", vv], [bv + "2", wv]]),
            lambda: ("{a: %s}.merge({b: %s}) " % (v, w), RHash([(Sym("a"), vv), (Sym("b"), wv)])),
            lambda: ("[(k(\"aa\")..%s).begin, (%s..%s).end]" % (a, b, c), ["aa", cv]),
            lambda: ("tx = %s; ty, tz, tw = tx, %s, [%s, %s]; [ty, tz, tw, tx]" % (v, a, w, b), [vv, av, [wv, bv], vv]),
            lambda: ("tx = [%s]; tx[0] += %s; tx[3] ||= %s; tx" % (a, b, v), [av + bv, None, None, vv]),
            lambda: ("o = O.new(%s); o.a += %s; o.b ||= %s; [o.a, o.b]" % (a, b, v), [av + bv, vv]),
            lambda: ("o = O.new; o[%s] = %s; o.a" % (a, b), bv + av),
            lambda: ("begin; raise ArgumentError, %s; rescue => ex; g; [ex.message, %s]; end" % (a, v), [av, vv]),
            lambda: ("begin; [%s, [%s, (raise RuntimeError, %s)]]; rescue => ex; g; [ex.message, k(\"t\")]; end" % (v, w, a), [av, "t"]),
            lambda: ("[%s, %s, %s].each { |x| g; break k(x) + %s }" % (a, b, c, b), av + bv),
            lambda: ("while true; g; break [%s, %s]; end" % (a, v), [av, vv]),
            lambda: ("case %s; when %s, k(\"never\") then k(\"hit\"); else k(\"no\"); end" % (a, b), "hit" if av == bv else ("no" if av != "never" else "hit")),
            lambda: ("[%s, [1, 2].map { |x| g; [%s, [3].map { |y| k(y.to_s) + x.to_s }] }, %s]" % (v, a, w), [vv, [[av, ["31"]], [av, ["32"]]], wv]),
            lambda: ("[%s, %s].map(&proc { |x| g; k(x) + \"p\" })" % (a, b), [av + "p", bv + "p"]),
            lambda: ("[%s, %s].map(&lambda { |x| g; k(x) + %s })" % (a, b, c), [av + cv, bv + cv]),
            lambda: ("[O.new(%s), O.new(%s)].map(&:to_s)" % (a, b), ["O" + av, "O" + bv]),
            lambda: ("[%s, %s].map(&TP.new(%s))" % (a, b, c), [av + cv, bv + cv]),
            lambda: ("opt(%s, d: %s, &TP.new(%s))" % (a, b, c), [av, "optb", [], bv, "blk" + cv]),
            lambda: ("(O.new(%s)..O.new(%s)) == (O.new(%s)..O.new(%s))" % (a, b, a, c), bv == cv),
            lambda: ("{O => [O.new(%s)]}.has_value?([O.new(%s)])" % (a, b), av == bv),
            lambda: ("[[O.new(%s), %s], [O.new(%s)]].delete([O.new(%s)]).size" % (a, b, c, c), 1),
            lambda: ("[O.new(%s), %s].count(O.new(%s))" % (a, "nil", a), 1),
            lambda: ("case O.new(%s); when O.new(%s), O.new(%s) then 1; else 2; end" % (a, b, c), 1 if av in (bv, cv) else 2),
            lambda: ("(O.new(%s) <=> O.new(%s))" % (a, b), (av > bv) - (av < bv)),
            lambda: ("[[%s, O.new(%s)], [%s, O.new(%s)]].sort.map { |x, y| y.a }" % (a, b, a, c), sorted([bv, cv])),
            lambda: ("[O.new(%s), O.new(%s), O.new(%s)].min.a" % (a, b, c), min([av, bv, cv])),
            lambda: ("r = []; [%s, %s].each_with_index { |x, i| g; r << k(x) + i.to_s }; r" % (a, b), [av + "0", bv + "1"]),
            lambda: ("O.new(%s).send(k(\"fo\") + \"o\", *[%s, %s])" % (a, v, b), [Sym("foo"), [vv, bv]]),
            lambda: ("yy(*[%s, %s]) { |m, *n| g; [n, m] }" % (a, v), [[vv], av]),
            lambda: ("O.new(%s).method(:+).call(O.new(%s)).a" % (a, b), av + bv),
            lambda: ("Struct.new(:p, :q).new(%s, %s).q" % (v, a), av),
            lambda: ("Class.new(O) { def initialize(x, y = k(x)); g; super(y + x); end }.new(%s).a" % a, av + av),
            lambda: ("Class.new(O) { def foo(x, &b); g; [super, b.call(k(x))]; end }.new(%s).foo(%s) { |q| g; q + %s }" % (a, b, c), [[Sym("foo"), [bv]], bv + cv]),
            lambda: ("(1..3).map { |i| g; [i, k(%s)] }" % lit(av), [[i, av] for i in (1, 2, 3)]),
            lambda: ("(1..2).flat_map { |i| g; [k(%s), [i]] }" % lit(av), [av, [1], av, [2]]),
            lambda: ("Fiber.new { |x| g; Fiber.yield(k(x)); 1 }.resume(%s)" % a, av),
            lambda: ("eval(\"g; k(%s) + #{%s.inspect}\")" % (lit("e").replace('"', '\\"'), a), "e" + av),
            lambda: ("o = O.new(%s); o.instance_variable_set(\"@b\", %s); o.instance_variable_get(\"@b\")" % (a, v), vv),
            lambda: ("lambda { |x, y = %s, *z| g; [x, y, z] }.call(%s)" % (a, v), [vv, av, []]),
            lambda: ("proc { |x, y, *z| g; [x, y, z] }.call([%s, %s, %s])" % (a, v, b), [av, vv, [bv]]),
            ]
        s, e = T[n % len(T)]()
        return s, e

    def hold(self):
        """Store a fresh value somewhere; returns nothing."""
        g = self.g
        self.n += 1
        n = self.n
        w = self.src.append
        v, vv = self.v()
        a, av = self.s()
        b, bv = self.s()
        x = g.int(0, 37)
        L = lambda r, val: self.live.append((r, val))
        if x == 0:
            w("v%d = %s" % (n, v)); L("v%d" % n, vv)
        elif x == 1:
            w("@v%d = %s" % (n, v)); L("@v%d" % n, vv)
        elif x == 2:
            w("$v%d = %s" % (n, v)); L("$v%d" % n, vv)
        elif x == 3:
            w("K%d = %s" % (n, v)); L("K%d" % n, vv)
        elif x == 4:
            w("class C%d; @@x = nil; @y = nil; def self.set(x); g; @@x = x; @y = [x]; end; def self.get; g; @@x; end; def self.gy; g; @y; end; end; C%d.set(%s)" % (n, n, v))
            L("C%d.get" % n, vv); L("C%d.gy" % n, [vv])
        elif x == 5:
            w("def mk%d(x); y = id(x); z = k(\"z\"); lambda { |u| g; u ? (y = u) : [y, z] }; end; l%d = mk%d(%s)" % (n, n, n, v))
            L("l%d.call(nil)" % n, [vv, "z"])
            if g.bool():
                w("l%d.call(%s)" % (n, a)); self.live[-1] = ("l%d.call(nil)" % n, [av, "z"])
        elif x == 6:
            w("o%d = O.new(%s); " % (n, a) + "; ".join("o%d.%s = %s" % (n, c, b) for c in "bcdef") + "; o%d.h = %s" % (n, v))
            L("[o%d.a, o%d.b, o%d.f, o%d.h]" % (n, n, n, n), [av, bv, bv, vv])
        elif x == 7:
            w("s%d = S3.new(%s, %s)" % (n, a, v)); L("[s%d.x, s%d.y, s%d.z]" % (n, n, n), [av, vv, None])
        elif x == 8:
            w("r%d = (%s%s%s)" % (n, a, g.choice(["..", "..."]), b)); L("[r%d.begin, r%d.end]" % (n, n), [av, bv])
        elif x == 9:
            w("m%d = (%s).method(:to_s)" % (n, a)); L("m%d.call" % n, av)
        elif x == 10:
            w("m%d = O.new(%s).method(:coerce_s)" % (n, a)); L("m%d.call" % n, av)
        elif x == 11:
            w("f%d = Fiber.new { |q| x = %s; y = Fiber.yield(k(\"y1\")); g; z = Fiber.yield([x, y]); [x, y, q, z, %s] }; f%d.resume(%s)" % (n, v, b, n, a))
            L("[f%d.resume(k(\"in\"))]" % n, ("once", [[vv, "in"]]))
        elif x == 12:
            w("f%d = Fiber.new { [%s, Fiber.yield(1), {%s => (g; Fiber.yield(2))}, \"#{k(\"i\")}#{Fiber.yield(3)}\"] }; f%d.resume; f%d.resume(%s)" % (n, v, a, n, n, b))
            L("f%d.resume(k(\"two\")); f%d.resume(k(\"three\"))" % (n, n), ("once", [vv, bv, RHash([(av, "two")]), "ithree"]))
        elif x == 13:
            w("e%d = [%s, %s, %s].each; e%d.next" % (n, a, v, b, n))
            L("e%d.next" % n, ("once", vv)); L("e%d.next" % n, ("once", bv))
        elif x == 14:
            w("e%d = O.new(%s).to_enum(:each)" % (n, a))
            L("e%d.next" % n, ("once", av)); L("e%d.next" % n, ("once", "each"))
        elif x == 15:
            w("o%d = O.new(%s); def o%d.sing; g; k(@a); end; o%d.extend(Module.new { def bar; g; k(\"bar\") + @a; end })" % (n, a, n, n))
            L("[o%d.sing, o%d.bar]" % (n, n), [av, "bar" + av])
        elif x == 16:
            w("o%d = Class.new(O) { def foo; g; k(\"foo\") + @a; end }.new(%s)" % (n, a)); L("o%d.foo" % n, "foo" + av)
        elif x == 17:
            w("begin; raise ArgumentError.new(%s); rescue => e%d; end" % (a, n)); L("e%d.message" % n, av)
        elif x == 18:
            w("def bl%d(&b); g; b; end; b%d = bl%d { |x| g; [x, %s] }" % (n, n, n, v)); L("b%d.call(k(\"arg\"))" % n, ["arg", vv])
        elif x == 19:
            w("v%d = (\"s\" + %s).to_sym" % (n, lit(str(n)))); L("v%d.to_s" % n, "s" + str(n))
        elif x == 20:
            w("v%d = Regexp.new(k(\"(a+)b\"))" % n); L("(k(\"caab\") =~ v%d; [$1, $&])" % n, ["aa", "aab"])
        elif x == 21:
            w("h%d = {}; h%d[%s] = %s; h%d[[k(\"ak\")]] = %s" % (n, n, a, v, n, b)); L("[h%d[%s], h%d[[\"ak\"]], h%d.keys]" % (n, lit(av), n, n), [vv, bv, [av, ["ak"]]])
        elif x == 22:
            w("h%d = {}; h%d.compare_by_identity; q%d = %s; h%d[q%d] = %s; h%d[k(\"o\")] = 1" % (n, n, n, a, n, n, v, n)); L("[h%d[q%d], h%d.keys]" % (n, n, n), [vv, [av, "o"]])
        elif x == 23:
            w("v%d = [nil] * 3; v%d[1] = %s; v%d[7] = %s; v%d.unshift(%s)" % (n, n, v, n, b, n, a))
            L("v%d" % n, [av, None, vv, None, None, None, None, None, bv])
        elif x == 24:
            w("v%d = nil; 6.times { |i| v%d = [v%d, k(\"c\") * i] }" % (n, n, n))
            e = None
            for i in range(6):
                e = [e, "c" * i]
            L("v%d" % n, e)
        elif x == 25:
            w("b%d = binding; class B%d; def initialize(x); @x = x; end; def go; y = k(@x); binding; end; end; v%d = B%d.new(%s).go" % (n, n, n, n, a))
            L("eval(\"g; [@x, y]\", v%d)" % n, [av, av])
        elif x == 26:
            w("module M%d; X = %s; def self.x; g; X; end; class D%d; Y = %s; end; end" % (n, v, n, a)); L("[M%d.x, M%d::D%d::Y]" % (n, n, n), [vv, av])
        elif x == 27:
            w("v%d = []; [%s, %s].each { |x| y = k(x); v%d << proc { g; y + x } }" % (n, a, b, n)); L("v%d.map { |q| q.call }" % n, [av * 2, bv * 2])
        elif x == 28:
            w("f%d = Fiber.new { [%s, %s].each { |x| g; Fiber.yield(k(x) + \"f\") }; k(\"end\") }" % (n, a, b))
            L("f%d.resume" % n, ("once", av + "f")); L("f%d.resume" % n, ("once", bv + "f")); L("f%d.resume" % n, ("once", "end"))
        elif x == 29:
            w("s%d = S3.new(%s, nil, [%s]); t%d = s%d.dup; t%d.y = %s; s%d = nil" % (n, a, v, n, n, n, b, n)); L("[t%d.x, t%d.y, t%d.z]" % (n, n, n), [av, bv, [vv]])
        elif x == 31:
            w("module M%d; X = %s; class B; def f; g; X; end; def l; y = k(\"l\"); lambda { [X, y] }; end; end; end; o%d = M%d::B.new; l%d = o%d.l; M%d = nil" % (n, a, n, n, n, n, n))
            L("[o%d.f, l%d.call]" % (n, n), [av, [av, "l"]])
        elif x == 32:
            w("u%d = Class.new(O) { def foo(x); g; [x, @a]; end }.instance_method(:foo)" % n)
            L("[u%d.owner.class, u%d.owner.new(%s).foo(%s)]" % (n, n, a, b), [Raw("Class"), [bv, av]])
        elif x == 33:
            w("c%d = O.new(%s).singleton_class; q%d = Class.new(O) { class << self; attr_accessor :meta; end }; q%d.meta = %s; z%d = Class.new(q%d)" % (n, a, n, n, v, n, n))
            L("[q%d.meta, z%d.new(%s).a, c%d.instance_methods(false)]" % (n, n, a, n), [vv, av, []])
        elif x == 35:
            w("class E%d; def each(q, r); y = k(\"y\") + q; g; yield y; z = k(\"z\") + r; g; yield z; g; yield y + z; end; end; e%d = E%d.new.to_enum(:each, %s, %s)" % (n, n, n, a, b))
            y, z = "y" + av, "z" + bv
            for _ in range(g.int(0, 3)):
                w("e%d.next" % n)
            if g.bool(1, 3):
                w("begin; 9.times { e%d.next }; rescue StopIteration; end" % n)
            L(g.choice(["e%d.map { |x| g; [x] }", "e%d.with_index { |x, i| g; [x] }", "r = []; e%d.each { |x| g; r << [x] }; r"]) % n, [[y], [z], [y + z]])
        elif x == 36:
            w("class E%d; def each(q); y = k(\"y\"); g; yield y; g; yield [q, y]; end; end" % n)
            L("E%d.new.to_enum(:each, %s).map.with_index { |x, i| g; [x, i] }" % (n, a), [["y", 0], [[av, "y"], 1]])
        elif x == 37:
            w("f%d = Fiber.new { x = %s; i = Fiber.new { y = %s; g; z = Fiber.yield([y]); g; [y, z] }; g; w = [x, i.resume]; Fiber.yield(w); g; [x, i.resume(%s)] }" % (n, a, b, v))
            L("f%d.resume" % n, ("once", [av, [bv]])); L("f%d.resume" % n, ("once", [av, [bv, vv]]))
        elif x == 30:
            w("v%d = %s; w%d = v%d.dup; v%d << %s; x%d = w%d" % (n, a, n, n, n, b, n, n)); L("[v%d, x%d]" % (n, n), [av + bv, av])
        else:
            w("def d%d(x = %s); g; x; end; a%d = O.new; class << a%d; attr_accessor :zz; end; a%d.zz = %s; %s" % (n, a, n, n, n, v, "alias dd%d d%d" % (n, n)))
            L("[dd%d, a%d.zz]" % (n, n), [av, vv])

    def go(self):
        g = self.g

        def put(s, v):
            self.src.append("r = (%s); p r" % s if ";" not in s else "r = begin; %s; end; p r" % s)
            self.out.append(insp(v))
            self.units.append((s, True))
        first = set()
        for _ in g.rep(3, 14, lambda: 0):
            x = g.int(0, 5)
            if x <= 2:
                self.hold()
            elif x == 3 and self.live:
                i = g.int(0, len(self.live) - 1)
                s, v = self.live[i]
                if isinstance(v, tuple):
                    # one-shots are consumed in order per source
                    key = s[:3]
                    j = [q for q in range(len(self.live)) if self.live[q][0][:3] == key and isinstance(self.live[q][1], tuple)][0]
                    s, v = self.live.pop(j)
                    put(s, v[1])
                else:
                    put(s, v)
            else:
                s, v = self.expr()
                put(s, v)
            if g.bool(1, 6):
                self.src.append("GC.start")
        self.src.append("g")
        for s, v in self.live:
            put(s, v[1] if isinstance(v, tuple) else v)


def build_gc(g):
    h = H(g)
    h.go()
    return Case("\n".join(h.src) + "\n", h.out, h.units, ["gc"], "stress")


# ---- volume: a mutator over a graph of nodes with garbage in between, real collections
def build_churn(g):
    """Short-lived classes, modules and singletons calling through shared sites: no cache may outlive its class."""
    src = [PRE, "def s1(o); o.foo; end", "def s2(o); o.bar(1); end", "def s3(c); c.cm; end", "def s4(o); o.x; end",
           "class A; def foo; \"A\" + k(\"\"); end; def bar(x); [x, foo]; end; def self.cm; 1; end; attr_reader :x; def initialize; @x = \"ax\"; @y = 1; end; end",
           "class B; def foo; \"B\" + k(\"\"); end; def bar(x); [foo, x]; end; def self.cm; 2; end; attr_reader :x; def initialize; @y = 2; @x = \"bx\"; end; end",
           "module M; def foo; \"M\" + super; end; end"]
    out, units = [], []
    keep = g.bool()
    if keep:
        src.append("l = []")
    for i in g.rep(4, 20, lambda: 0):
        n = len(out)
        c = g.choice("AB")
        m = g.int(0, 4)
        f = c
        if m == 0:
            e = "Class.new(%s)" % c
        elif m == 1:
            e, f = "Class.new(%s) { include M }" % c, c
        elif m == 2:
            e, f = "Class.new(%s) { prepend M }" % c, "M" + c
        elif m == 3:
            e, f = "Class.new(%s) { def foo; k(\"own\") + super; end }" % c, "own" + c
        else:
            e, f = "Class.new(Class.new(%s))" % c, c
        if m == 1:
            f = "M" + c
        cm = 1 if c == "A" else 2
        bar = '[1, "%s"]' % f if c == "A" else '["%s", 1]' % f
        src.append("c = %s; o = c.new; %sp [s1(o), s2(o), s3(c), s4(o)]" % (e, "o.extend(M); " if m == 4 else ""))
        if m == 4:
            f = "M" + f
            bar = '[1, "%s"]' % f if c == "A" else '["%s", 1]' % f
        out.append('["%s", %s, %d, "%s"]' % (f, bar, cm, c.lower() + "x"))
        units.append((e + str(n), True))
        x = g.int(0, 3)
        if x == 0:
            src.append("l << [c, o]" if keep else "c = nil; o = nil")
        elif x == 1:
            src.append("c = nil; o = nil; GC.start")
        elif x == 2:
            src.append("c = nil; o = nil; [1, 2].each { |q| [q, [q]] }; GC.start; %d.times { |q| [q.to_s] }" % g.int(1, 40))
    if keep:
        src.append("p l.map { |q| s1(q[1]).class }.uniq.size <= 1")
        out.append("true")
        units.append(("keep", True))
    return Case("\n".join(src) + "\n", out, units, ["churn"], g.choice(["std", "stress"]), 30)


def build_vol(g):
    kind = g.int(0, 6)
    if kind == 6:
        return build_sparse(g)
    if kind >= 4:
        return build_churn(g)
    units = []
    if kind <= 1:
        return build_graph(g)
    n = g.int(300, 900)
    drop = g.choice([
        ("cons", "x = [x, \"a#{i}\"]", "x = nil"),
        ("hash", "x = {} if !x; x[\"k#{i}\"] = [i, 2.0 ** 300, 1 << 80]", "x = nil"),
        ("obj", "x = O.new(x); x.b = \"b#{i}\"; x.h = x", "x = nil"),
        ("closure", "y = x; x = proc { [y, i] }", "x = nil; y = nil"),
        ("fiber", "f = Fiber.new { z = \"z#{i}\"; Fiber.yield z; 1 }; f.resume", "f = nil"),
        ("enum", "e = [i, \"s\"].each; e.next", "e = nil"),
        ("class", "c = Class.new(O) { def q; 1; end }; c.new.q", "c = nil"),
        ("sing", "o = O.new; def o.q; 2; end; o.q", "o = nil"),
        ("exc", "begin; raise ArgumentError, \"m#{i}\"; rescue => e; end", "e = nil"),
        ("cycle", "a = [i]; b = {a => 1}; a << b if false; c = [a, b]; c << c", "a = nil; b = nil; c = nil"),
        ("struct", "s = S3.new(\"a#{i}\", s, i)", "s = nil"),
        ("str", "s = \"\" if !s; s << \"0123456789\"; t = s * 2; t.gsub(/1/) { |m| m + \"x\" } if i % 50 == 0", "s = nil; t = nil"),
        ("range", "r = (\"a#{i}\"..\"b#{i}\"); m = r.method(:to_s); m.call", "r = nil; m = nil"),
        ("regexp", "r = Regexp.new(\"a#{i % 7}\"); \"xa1\" =~ r", "r = nil"),
        ("binding", "def bnd; q = \"q\"; binding; end; x = bnd; eval(\"q\", x)", "x = nil"),
        ("break", "[1, 2, 3].each { |q| \"#{q}#{i}\"; break if q == 2 }", "q = nil"),
        ])
    nm, body, fin = drop
    warm = g.bool()
    src = [PRE]
    names = ["x", "y", "f", "e", "c", "o", "a", "b", "s", "t", "r", "m"]
    src.append("; ".join("%s = nil" % q for q in names))
    if warm:
        src.append("%d.times { |i| %s }" % (5, body))
    src.append("; ".join("%s = nil" % q for q in names))
    src.append("3.times { GC.start }")
    src.append("st0 = GC.stat[:heap_live_slots]")
    loop = g.bool()
    if loop:
        src.append("i = 0; while i < %d; %s; i += 1; end" % (n, body))
    else:
        src.append("%d.times { |i| %s }" % (n, body))
    src.append("; ".join("%s = nil" % q for q in names))
    src.append("3.times { GC.start }")
    src.append("st1 = GC.stat[:heap_live_slots]")
    src.append("p((st1 - st0) <= %d ? \"ok\" : [st0, st1])" % 60)
    return Case("\n".join(src) + "\n", ['"ok"'], [("%s %d %s %s" % (nm, n, warm, loop), True)], ["reclaim:" + nm], "std", 30)


def build_sparse(g):
    """Many pages of objects of which only a few, at arbitrary slots, survive."""
    n = g.int(8000, 40000)
    step = g.choice([g.int(60, 600), g.int(1000, 9000)])
    q = g.int(0, step - 1)
    mk, rd = g.choice([("\"s\" + i.to_s", "%s"), ("[i, \"s#{i}\"]", "%s[1]"), ("O.new(\"s#{i}\")", "%s.a"), ("S3.new(i, \"s#{i}\", nil)", "%s.y")])
    src = [PRE, "l = []; i = 0; while i < %d; l << (%s); i += 1; end" % (n, mk),
           "keep = []; i = %d; while i < l.size; keep << l[i]; i += %d; end" % (q, step)]
    if g.bool(1, 3):
        src.append("GC.start")
    src.append("l = nil; GC.start")
    for _ in range(g.int(1, 2)):
        src.append("i = 0; while i < %d; x = \"junk#{i}\"; i += 1; end" % g.int(1000, 20000))
        if g.bool():
            src.append("GC.start")
    src.append("j = nil; keep.each_with_index { |x, i| j = [i, %s] if %s != \"s#{%d + i * %d}\" }; p [keep.size, j]" % (rd % "x", rd % "x", q, step))
    m = len(range(q, n, step))
    return Case("\n".join(src) + "\n", ["[%d, nil]" % m], [("sparse %d %d %d %s" % (n, step, q, mk), True)], ["sparse"], "std", 30)


def build_graph(g):
    """A graph of nodes of several kinds, mutated while thousands of garbage objects are allocated; every node carries its own checksum text."""
    N = g.int(20, 60)
    rounds = g.int(20, 60)
    seed = g.int(1, 10 ** 6)
    kinds = g.int(1, 63)
    junk = g.int(20, 90)
    mul, add, mod = 1103515245, 12345, 1 << 31
    ks = [k for k in range(6) if kinds >> k & 1]
    stress = g.bool(1, 4)
    if stress:
        junk = 2
    src = PRE + '''$s = %d
def rnd(n); $s = ($s * %d + %d) & %d; ($s >> 8) %% n; end
class N; attr_accessor :l, :t; def initialize(l, t); @l = l; @t = t; end; end
def mk(kind, l, t)
  if kind == 0 then [l, t]
  elsif kind == 1 then {"l" => l, "t" => t}
  elsif kind == 2 then N.new(l, t)
  elsif kind == 3 then S3.new(l, t)
  elsif kind == 4 then lambda { |q| q == 0 ? l : t }
  else {[t] => [l, t]}
  end
end
def lk(x)
  if x.is_a?(N) then x.l
  elsif x.is_a?(Array) then x[0]
  elsif x.is_a?(S3) then x.x
  elsif x.is_a?(Proc) then x.call(0)
  elsif x.key?("l") then x["l"]
  else x.values[0][0]
  end
end
def tx(x)
  if x.is_a?(N) then x.t
  elsif x.is_a?(Array) then x[1]
  elsif x.is_a?(S3) then x.y
  elsif x.is_a?(Proc) then x.call(1)
  elsif x.key?("l") then x["t"]
  else x.keys[0][0]
  end
end
KS = %s
tab = []
i = 0
while i < %d; tab << mk(KS[i %% KS.size], nil, "n#{i}"); i += 1; end
r = 0
while r < %d
  i = rnd(%d); j = rnd(%d)
  tab[i] = mk(KS[rnd(KS.size)], tab[j], "r#{r}." + "w" * (r %% 40))
  z = nil
  %d.times { |q| z = [z, "j#{q}"] }
  if r %% 7 == 0
    c = tab[rnd(%d)]; s = []; d = 0
    while c && d < 12; s << tx(c); c = lk(c); d += 1; end
    puts s.join(",")
  end
  r += 1
end
tab.each { |c| s = []; d = 0; while c && d < 6; s << tx(c); c = lk(c); d += 1; end; puts s.join(",") }
''' % (seed, mul, add, mod - 1, "[" + ", ".join(map(str, ks)) + "]", N, rounds, N, N, junk, N)
    s = [seed]

    def rnd(n):
        s[0] = (s[0] * mul + add) & (mod - 1)
        return (s[0] >> 8) % n
    tab = [(None, "n%d" % i) for i in range(N)]
    out = []

    def chain(c, m):
        l = []
        while c and len(l) < m:
            l.append(c[1])
            c = c[0]
        return ",".join(l)
    for r in range(rounds):
        i = rnd(N)
        j = rnd(N)
        rnd(len(ks))
        tab[i] = (tab[j], "r%d." % r + "w" * (r % 40))
        if r % 7 == 0:
            out.append(chain(tab[rnd(N)], 12))
    for c in tab:
        out.append(chain(c, 6))
    return Case(src, out, [("%d %d" % (seed, i), True) for i in range(len(out))], ["graph" + ("-stress" if stress else "")], "stress" if stress else "std", 30)


def strategy(part):
    if part == "gc":
        return from_g(build_gc)
    if part == "vol":
        return from_g(build_vol)
    return reuse(REUSE[part])
