"""C29: recursion computes exact results, or raises SystemStackError and leaves everything intact."""
from driver import Case
from gen import from_g

ID = "C29"
EXAMPLES = dict(quick=1000, thorough=30000)
VARIANTS = ["std", "stress"]
PARTS = ["finite", "inf", "deep", "mixed", "data", "splat", "fiber", "stress"]
RULE = ("One evaluation = one top-level computation of a program with 1-4 mutually recursive functions of random signatures and frames that call each other in 45 ways (calls, blocks, builtin iterators, operators, conversions, eval, fibers, ...): "
        "a recursion to a given depth, or an unbounded one whose SystemStackError is rescued at a given level, or an operation on deeply nested or cyclic data, or a call with a huge splat; the value must be exactly that of the model, "
        "ensure clauses must balance and the following computations must be exact. Non-trivial: the depth is at least 50, or the recursion is unbounded, or the data or splat has at least 1000 elements.")
ASSUMPTIONS = ["recursion up to 400 levels (20 in fibers) must succeed; deeper ones may raise SystemStackError", "source texts nested more than 500 levels and stacks exhausted by the host are not considered"]

M = 1000003

PRE = '''$d = 0; $z = nil; $inf = false; $r = nil; $late = 0
class Fn
  def y2(a, b); yield a, b; end
  def y1(a); yield a; end
  def bl(a, b, &k); k.call(a, b); end
  def bp(a, b, &k); y2(a, b, &k); end
  def sy; yield; end
end
class Op
  def initialize(n, &b); @n = n; @b = b; end
  def +(e); @b.call(@n, e); end
  def -(e); @b.call(@n, e); end
  def *(e); @b.call(@n, e); end
  def [](e); @b.call(@n, e); end
  def <<(e); @b.call(@n, e); end
  def <(e); @b.call(@n, e); end
  def <=>(e); @b.call(@n, e); end
  def []=(i, e); $z = @b.call(@n, e); end
  def z=(e); $z = @b.call(@n, e); end
  def method_missing(m, e); @b.call(@n, e); end
end
class Un
  def initialize(n, e, &b); @n = n; @e = e; @b = b; end
  def -@; @b.call(@n, @e); end
  def ~; @b.call(@n, @e); end
  def to_s; @b.call(@n, @e).to_s; end
  def inspect; @b.call(@n, @e).to_s; end
  def ==(o); $z = @b.call(@n, @e); false; end
  def ===(o); $z = @b.call(@n, @e); true; end
  def <=>(o); $z = @b.call(@n, @e); 0; end
  def each; yield @b.call(@n, @e); end
end
class Nw
  def initialize(n, e, &b); @v = b.call(n, e); end
  def v; @v; end
end
class S0; def go(n, e, &b); b.call(n, e); end; end
class S1 < S0; def go(n, e); super; end; end
class S2 < S1; def go(n, e, &b); super(n, e, &b); end; end
module Mx; def go(n, e); super(n, e); end; end
class S3 < S2; include Mx; end
'''

# how to call F with (N, E); the value of the expression is the value of the call
MECHS = [
    "F(N, E)", "F(N, E)", "self.F(N, E)", "send(:F, N, E)", "__send__('F', N, E)", "method(:F).call(N, E)", "F(*[N, E])", "F(N, *[E])",
    "y2(N, E) { |q, w| F(q, w) }", "bl(N, E) { |q, w| F(q, w) }", "bp(N, E) { |q, w| F(q, w) }", "y1([N, E]) { |q, w| F(q, w) }", "sy { F(N, E) }", "sy { sy { F(N, E) } }",
    "lambda { |q, w| F(q, w) }.call(N, E)", "proc { |q, w| F(q, w) }.call(N, E)", "lambda { |q, w = E| F(q, w) }.(N)",
    "[E].map { |w| F(N, w) }[0]", "begin; z = nil; [E].each { |w| z = F(N, w) }; z; end", "begin; z = nil; 1.times { |q| z = F(N, E) }; z; end",
    "[N].inject(E) { |s, q| F(q, s) }", "begin; z = nil; [[N, E]].each { |q, w| z = F(q, w) }; z; end", "begin; z = nil; {N => E}.each { |q, w| z = F(q, w) }; z; end",
    "(2..2).map { |q| F(N, E) }[0]", "begin; z = nil; [N].select { |q| z = F(q, E); true }; z; end", "begin; z = nil; [E].each_with_index { |w, q| z = F(N, w) }; z; end",
    "begin; z = nil; (1..1).each { |q| z = F(N, E) }; z; end", "begin; z = nil; 5.upto(5) { |q| z = F(N, E) }; z; end", "begin; z = nil; 5.step(5, 2) { |q| z = F(N, E) }; z; end",
    "eval('F(N, E)')", "instance_exec(N, E) { |q, w| F(q, w) }",
    "(Op.new(N) { |q, w| F(q, w) } + E)", "(Op.new(N) { |q, w| F(q, w) } - E)", "(Op.new(N) { |q, w| F(q, w) } * E)", "Op.new(N) { |q, w| F(q, w) }[E]", "(Op.new(N) { |q, w| F(q, w) } << E)",
    "(Op.new(N) { |q, w| F(q, w) } <=> E)", "begin; ob = Op.new(N) { |q, w| F(q, w) }; ob[1] = E; $z; end", "begin; ob = Op.new(N) { |q, w| F(q, w) }; ob.z = E; $z; end", "Op.new(N) { |q, w| F(q, w) }.zork(E)",
    "(-Un.new(N, E) { |q, w| F(q, w) })", "(~Un.new(N, E) { |q, w| F(q, w) })", '"#{Un.new(N, E) { |q, w| F(q, w) }}".to_i', "[Un.new(N, E) { |q, w| F(q, w) }].inspect[1..-2].to_i",
    "begin; [Un.new(N, E) { |q, w| F(q, w) }] == [1]; $z; end", "begin; [Un.new(N, E) { |q, w| F(q, w) }].include?(1); $z; end", "begin; case 1; when Un.new(N, E) { |q, w| F(q, w) }; $z; end; end",
    "begin; [Un.new(N, E) { |q, w| F(q, w) }] <=> [1]; $z; end", "begin; z = nil; Un.new(N, E) { |q, w| F(q, w) }.each { |q| z = q }; z; end",
    "Nw.new(N, E) { |q, w| F(q, w) }.v", "S1.new.go(N, E) { |q, w| F(q, w) }", "S3.new.go(N, E) { |q, w| F(q, w) }",
    "begin; [7].sort_by { |q| $z = F(N, E) }; $z; end", "begin; z = 0; while true; z = F(N, E); break; end; z; end", "begin; z = 0; loop { break z = F(N, E) }; end",
    "(true && F(N, E))", "[1, F(N, E), 3][1]", "{a: F(N, E)}[:a]", "(F(N, E) || 3)", "[[N, E]].map { |q, w| F(q, w) }.first", "[E].flat_map { |w| F(N, w) }[0]", "'a'.gsub(/a/) { F(N, E).to_s }.to_i",
]
# calls that do not use the machine stack
LIGHT = ["F(N, E)", "self.F(N, E)", "F(*[N, E])", "F(N, *[E])", "y2(N, E) { |q, w| F(q, w) }", "y1([N, E]) { |q, w| F(q, w) }", "sy { F(N, E) }", "sy { sy { F(N, E) } }",
         "sy { n.abs == -1 ? 3 : F(N, E) }", "(true && F(N, E))", "[1, F(N, E), 3][1]", "bp(N, E) { |q, w| F(q, w) }", "bl(N, E) { |q, w| F(q, w) }", "begin; z = 0; while true; z = F(N, E); break; end; z; end"]
FIBER = ["Fiber.new { F(N, E) }.resume", "Fiber.new { |q| Fiber.yield(F(q, E)) }.resume(N)"]


class F:
    pass


def make_fn(g, i, k, fiber, mechs=MECHS):
    f = F()
    f.i = i
    f.c1, f.c2, f.c3 = g.int(1, 90), g.int(2, 9), g.int(0, 99)
    f.to = g.int(0, k - 1)
    f.mech = g.choice(FIBER) if fiber and g.bool(1, 3) else g.choice(mechs)
    params = ["n", "v"]
    f.extra = 0
    t = g.int(0, 7)
    if t == 1:
        params.append("o = 5")
        f.extra += 5
    if t in (2, 3):
        params.append("*rst")
    if t in (3, 4):
        params.append("ky: 6")
        f.extra += 6
    if t == 5:
        params.append("o = v + 1, *rst, ky: 2, **kr")
        f.extra += 2
    if t == 6:
        params.append("o = v, &bk")
    extras = " + ".join(["0"] + [x for x, c in (("o", t == 1), ("ky", t in (3, 4, 5))) if c])
    pre, post = [], []
    kind = g.int(0, 5)
    f.kind = kind
    if kind == 1:
        pre.append("s = 'ab' * (n.abs % 5)")
        post.append("s.size")
    elif kind == 2:
        pre.append("t = [a, n, 'x']")
        post.append("t[0] + t[1] + t[2].size")
    elif kind == 3:
        pre.append("h = {a => n}")
        post.append("h[a]")
    elif kind == 4:
        nl = g.int(5, 25)
        f.nl = nl
        pre += ["l%d = a + %d" % (j, j) for j in range(nl)]
        post.append("l0 + l%d" % (nl - 1))
    elif kind == 5:
        pre.append("pr = lambda { a * 2 }")
        post.append("pr.call")
    f.ens = g.int(0, 3)
    call = f.mech.replace("F(", "f%d(" % f.to).replace(":F", ":f%d" % f.to).replace("'F'", "'f%d'" % f.to).replace("(N", "(n - 1").replace("[N", "[n - 1").replace("{N", "{n - 1").replace("E", "(v + a) % " + str(M))
    call = call.replace(" N,", " n - 1,").replace("(N)", "(n - 1)")
    body = []
    body.append("$d += 1")
    b = ["a = (v + %d) %% %d" % (f.c1, M)] + pre
    b.append("return v + %d if n == 0 && !$inf" % f.c3)
    b.append("if n == $r")
    b.append("  x = begin; %s; rescue SystemStackError; 555; end" % call)
    b.append("else")
    b.append("  x = %s" % call)
    b.append("end")
    b.append("(x * %d + a + n + %s%s) %% %d" % (f.c2, extras, "".join(" + " + p for p in post), M))
    if f.ens == 0:
        body = ["begin", "  $d += 1"] + ["  " + x for x in b] + ["ensure", "  $d -= 1", "end"]
    elif f.ens == 1:
        body = ["$d += 1", "begin"] + ["  " + x for x in b] + ["rescue => e", "  5", "ensure", "  $d -= 1", "end"]
    elif f.ens == 2:
        # the whole method
        f.src = "def f%d(%s)\n" % (i, ", ".join(params)) + "\n".join(["  $d += 1"] + ["  " + x for x in b] + ["ensure", "  $d -= 1"]) + "\nend"
        return f
    else:
        body = b
    f.src = "def f%d(%s)\n" % (i, ", ".join(params)) + "\n".join("  " + x for x in body) + "\nend"
    return f


def model(fs, i, n, v, r=None, inf=False):
    st = []
    while True:
        f = fs[i]
        if n == 0 and not inf:
            x = v + f.c3
            break
        a = (v + f.c1) % M
        st.append((f, n, v, a))
        if inf and n == r:
            x = 555
            break
        i, n, v = f.to, n - 1, (v + a) % M
    while st:
        f, n, v, a = st.pop()
        y = x * f.c2 + a + n + f.extra
        k = f.kind
        if k == 1:
            y += 2 * (abs(n) % 5)
        elif k == 2:
            y += a + n + 1
        elif k == 3:
            y += n
        elif k == 4:
            y += a + a + f.nl - 1
        elif k == 5:
            y += 2 * a
        x = y % M
    return x


def recursion(g, part):
    fiber = part == "fiber"
    k = g.int(1, 4)
    deep = part == "deep"
    fs = [make_fn(g, i, k, fiber, LIGHT if deep else MECHS) for i in range(k)]
    lines = []
    exp = []
    units = []
    top = {"stress": 40, "fiber": 20}.get(part, 400)
    n = g.int(1, 6) if part != "stress" else g.int(1, 3)
    usesf = any("Fiber" in f.mech for f in fs)
    infok = part in ("inf", "mixed", "fiber", "deep") and not usesf
    for s in range(n):
        inf = infok and g.bool(1, 2)
        i = g.int(0, k - 1)
        d = g.weighted([(2, g.int(0, 12)), (4, g.int(13, top))])
        if deep:
            d = g.weighted([(1, g.int(13, 800)), (4, g.int(800, 8000))])
        v = g.int(0, 500)
        r = g.int(0, d) if inf else None
        e = "$o.f%d(%d, %d)" % (i, d, v)
        w = g.int(0, 5)
        if w == 1:
            e = "[%s]" % e
        elif w == 2:
            e = "[1].map { %s }[0]" % e
        elif w == 3 and part in ("fiber", "mixed") and d <= 20:
            e = "Fiber.new { %s }.resume" % e
        if inf and g.bool(1, 3):
            # not rescued inside
            mode = g.int(0, 2)
            if mode == 0:
                lines.append("$inf = true; $r = nil; x = begin; %s; rescue SystemStackError; :so; end; $inf = false; p x, $d" % e)
            elif mode == 1:
                lines.append("$inf = true; $r = nil; x = begin; begin; %s; rescue => e; 3; end; rescue SystemStackError => e; e.class; end; $inf = false; p x, $d" % e)
            else:
                lines.append("$inf = true; $r = nil; x = nil; begin; x = %s; rescue SystemStackError; ensure; $late += 1; end; $inf = false; p x, $d" % e)
            exp += [[":so", "SystemStackError", "nil"][mode], "0"]
        elif d > (800 if deep else top):
            # may not fit the stack
            m = model(fs, i, d, v, r, inf)
            lines.append("$inf = %s; $r = %s; x = begin; %s; rescue SystemStackError; :so; end; $inf = false; p((x == :so || x == %s) ? true : x, $d)" % (
                "true" if inf else "false", "nil" if r is None else r, e, "[%d]" % m if w == 1 else m))
            exp += ["true", "0"]
        else:
            lines.append("$inf = %s; $r = %s; x = %s; $inf = false; p x, $d" % ("true" if inf else "false", "nil" if r is None else r, e))
            m = model(fs, i, d, v, r, inf)
            exp += ["[%d]" % m if w == 1 else str(m), "0"]
        units.append((("rec", tuple(f.mech for f in fs), inf, d // 40), inf or d >= 50))
    src = PRE + "class Fn\n" + "\n".join(f.src for f in fs) + "\nend\n$o = Fn.new\n" + "\n".join(lines) + "\n"
    return Case(src, exp, units, ["part:" + part] + sorted({"mech:" + f.mech[:40] for f in fs}), variant="stress" if part == "stress" else "std", cpu=20)


def data(g):
    lines = ["Q = Struct.new(:a)", "class N; attr_accessor :n; def initialize(n); @n = n; end; end",
             "def t; yield; rescue SystemStackError; :so; end", "def dep(a); i = 0; while a.is_a?(Array) && a.size > 0; a = a[-1]; i += 1; end; i; end"]
    exp = []
    units = []
    for s in range(g.int(1, 4)):
        d = g.choice([1, 2, 3, 10, 100, 400, 1000, 5000, 20000, 50000])
        w = g.choice(["[%s]", "[1, %s]", "[[%s]]", "{a: %s}", "Q.new(%s)", "N.new(%s)", "[{k: %s}]", "lambda { %s }", "[nil, Q.new(%s)]"])
        arr = w in ("[%s]", "[1, %s]", "[[%s]]")
        per = 2 if w == "[[%s]]" else 1
        if "lambda" in w:
            lines.append("def mk(a); lambda { a }; end")
            b = "a%d = []; %d.times { a%d = mk(a%d) }" % (s, min(d, 5000), s, s)
        else:
            b = "a%d = []; %d.times { a%d = %s }" % (s, d, s, w % ("a%d" % s))
        lines.append(b)
        lines.append("GC.start")
        a = "a%d" % s
        if arr:
            lines.append("p dep(%s)" % a)
            exp.append(str(d * per))
        for _ in range(g.int(1, 4)):
            op = g.int(0, 8)
            small = d <= 400
            if op == 0 and arr:
                # inspect
                one = {"[%s]": 2, "[1, %s]": 5, "[[%s]]": 4}[w]
                size = d * one + 2
                lines.append("x = t { %s.inspect.size }; p x == %d%s" % (a, size, "" if small else " || x == :so"))
                exp.append("true")
            elif op == 1 and arr:
                want = d if w == "[1, %s]" else 0
                lines.append("p %s.flatten.size" % a)
                exp.append(str(want))
            elif op == 2 and arr:
                lines.append("b = []; %d.times { b = %s }" % (d, w % "b"))
                lines.append("x = t { %s == b }; p x == true%s" % (a, "" if small else " || x == :so"))
                exp.append("true")
                if d <= 1000:
                    lines.append("x = t { %s.eql?(b) }; p x == true%s" % (a, "" if small else " || x == :so"))
                    exp.append("true")
            elif op == 3 and arr:
                lines.append("b = [5]; %d.times { b = %s }" % (d, w % "b"))
                lines.append("x = t { %s == b }; p x == false%s" % (a, "" if small else " || x == :so"))
                exp.append("true")
            elif op == 4:
                lines.append("x = t { %s.dup.class }; p x == %s.class" % (a, a))
                exp.append("true")
            elif op == 5:
                lines.append("t { %s.inspect }; t { %s.to_s }; t { h = {%s => 1} }; t { puts \"ok\" if [%s].size == 1 }" % (a, a, a if arr and d <= 1000 else "1", a))
                exp.append("ok")
            elif op == 6:
                # cyclic
                c = g.choice([("c = [1]; c << c", "c", "[1, [...]]"), ("c = {}; c[:k] = c", "c", "{:k=>{...}}"), ("c = [1]; c << [2, c]", "c", "[1, [2, [...]]]"), ("c = {1=>[]}; c[1] << c", "c", "{1=>[{...}]}"), ("c = []; c << c << c", "c", "[[...], [...]]"),
                               ("c = [[]]; c[0] << c", "c[0]", "[[[...]]]")])
                lines.append(c[0] + "; puts %s.inspect, t { (c == c) }" % c[1])
                exp += [c[2], "true"]
                if c[0].startswith("c = [1"):
                    lines.append("x = begin; c.flatten; rescue ArgumentError; :ae; end; p x")
                    exp.append(":ae")
            elif op == 7:
                lines.append("x = t { [%s, 1].inspect.size > 3 }; p x == true || x == :so" % a)
                exp.append("true")
            else:
                lines.append("b = %s; %s = nil; GC.start; %s = b; p %s.class == %s.class" % (a, a, a, a, a))
                exp.append("true")
            units.append((("data", w, d, op), d >= 1000 or op == 6))
    return Case("\n".join(lines) + "\n", exp, units, ["part:data"], cpu=60)


def splat(g):
    lines = ["def f(*a); a.size; end", "def g2(a, b = 1, *c); c.size + 2; end", "def ky(*a, k: 3, **o); a.size + k; end", "def yy(*a); yield(*a); end", "def h(a); a[-1]; end", "class B; def m(*a); a.size; end; end", "class D < B; def m(*a); super(*a); end; end",
             "class D2 < B; def m(*a); super; end; end", "class I; def initialize(*a); @n = a.size; end; attr_reader :n; end", "class MM; def method_missing(m, *a); a.size; end; end"]
    exp = []
    units = []
    for s in range(g.int(1, 6)):
        n = g.choice([2, 3, 50, 1000, 4000, 8000, 20000, 60000, 120000, 131000, 200000, 400000])
        fib = g.bool(1, 5)
        must = n <= (4000 if fib else 8000)
        op = g.int(0, 17)
        a = "Array.new(%d, 7)" % n
        e, want = [
            ("f(*a)", n), ("g2(*a)", n), ("ky(*a)", n + 3), ("ky(*a, k: 5)", n + 5), ("yy(*a) { |*b| b.size }", n), ("yy(*a) { |b, *c, d| c.size }", n - 2), ("send(:f, *a)", n), ("method(:f).call(*a)", n), ("lambda { |*b| b.size }.call(*a)", n),
            ("proc { |b, *c| c.size }.call(a)", n - 1), ("D.new.m(*a)", n), ("D2.new.m(*a)", n), ("I.new(*a).n", n), ("MM.new.zz(*a)", n), ("f(1, *a, 2, *a)", 2 * n + 2), ("[*a, 1, *a].size", 2 * n + 1), ("[[a, 1]].each { |(b)| b }.size", 1),
            ("[0].push(*a).size", n + 1)][op]
        if op in (14, 15):
            must = n <= 2000
        if op == 16:
            e, want = "begin; z = 0; [a].each { |b, *c| z = c.size }; z; end", n - 1
        x = "begin; %s; rescue SystemStackError; :so; end" % e
        if fib:
            x = "Fiber.new { %s }.resume" % x
        lines.append("a = %s; x = %s; p x == %d%s" % (a, x, want, "" if must else " || x == :so"))
        exp.append("true")
        lines.append("p f(1, 2, 3), yy(4, 5) { |b, c| c - b }")
        exp += ["3", "1"]
        units.append((("splat", op, n, fib), n >= 1000))
    return Case("\n".join(lines) + "\n", exp, units, ["part:splat"], cpu=30)


def strategy(part):
    if part == "data":
        return from_g(data)
    if part == "splat":
        return from_g(splat)
    return from_g(lambda g: recursion(g, part))


def check(case, ctx):
    res = ctx.runner(case.variant).run(case.src, case.cpu)
    from driver import compare
    return compare(res, case.expected)
