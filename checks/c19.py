"""C19: fibers and external enumerators, against Python generators."""
from driver import Case
from gen import from_g
from model import insp, Sym

ID = "C19"
EXAMPLES = dict(quick=1300, thorough=40000)
VARIANTS = ["std", "stress"]
PARTS = ["std", "std", "std", "stress"]
RULE = ("One evaluation = the trace of one top-level statement of a program that creates, resumes and abandons fibers and external enumerators (switching inside blocks, recursion, argument lists, array literals, "
        "begin/ensure), compared with a model built on Python generators. Non-trivial: at least two control transfers happened in the statement.")
ASSUMPTIONS = ["at most 8 fibers and 5 enumerators per program", "fibers are resumed with at most one argument (all ruruby accepts)", "enumerator bodies do not raise or call Fiber.yield",
               "ensure clauses of fibers that are never finished do not run"]
PRE = """$l = []; $f = []; $e = []; $s = 0
class Boom < StandardError; end
def log(k, v); $l << [k, v]; v; end
def id2(a, b); [a, b]; end
def mkf(&b); $f << Fiber.new(&b) if $f.size < 8; $f.size; end
def rs(i, v)
  return :none if $f.size == 0
  $f[i % $f.size].resume(v)
rescue FiberError
  :fe
rescue Boom => e
  [:boom, e.message]
end
def raw(i, v); $f.size == 0 ? :none : $f[i % $f.size].resume(v); end
def raw0(i); $f.size == 0 ? :none : $f[i % $f.size].resume; end
def deep(n); if n == 0; yield; else; deep(n - 1) { yield }; end; end
class Gen
  def each(n); $l << [:gen, n]; i = 0; while i < n; yield i; i += 1; end; $l << [:end, n]; yield n, n + 1; :over; end
  def each_x(a); a.each { |v| yield v; $s += 1 }; end
end
def mke(k, n)
  return if $e.size > 4
  $e << (k == 0 ? [5, 6, 7][0, n].each : k == 1 ? Gen.new.to_enum(:each, n) : k == 2 ? Gen.new.to_enum(:each_x, [[8, 9], nil, :q][0, n]) : k == 3 ? n.times : [4, 3, 2][0, n].each_with_index)
end
def nx(i); return :none if $e.size == 0; $e[i % $e.size].next; rescue StopIteration; :stop; end
def all(i); r = []; $e[i % $e.size].each { |a, b| r << [a, b] } if $e.size > 0; r; end"""


class Boom(Exception):
    pass


class FibErr(Exception):
    pass


class Brk(Exception):
    def __init__(self, tag):
        self.tag = tag


class Fuel(Exception):
    pass


class Gen:
    def __init__(self, g):
        self.g = g
        self.budget = g.int(10, 36)
        self.k = 0

    def expr(self, vs):
        g = self.g
        k = g.int(0, 5)
        if k <= 2 and vs:
            return ("var", g.choice(vs))
        if k == 3:
            return ("s",)
        if k == 4:
            return ("sym",)
        return ("lit", g.int(0, 9))

    def rv(self, vs):
        """an expression that may switch"""
        g = self.g
        k = g.weighted([(5, "yield"), (1, "yield0"), (1, "yield2"), (1, "yield3"), (5, "rs"), (2, "raw"), (1, "raw0"), (4, "nx"), (1, "all")])
        if k in ("yield", "yield0", "yield2", "yield3"):
            return ("yield", [self.expr(vs) for _ in range({"yield": 1, "yield0": 0, "yield2": 2, "yield3": g.int(3, 5)}[k])])
        if k in ("rs", "raw"):
            return (k, g.int(0, 9), self.expr(vs))
        return (k, g.int(0, 9))

    def body(self, vs, depth, lo, hi):
        out = []
        for _ in range(self.g.int(lo, hi)):
            if self.budget <= 0:
                break
            self.budget -= 1
            out.append(self.stmt(vs, depth))
        return out

    def stmt(self, vs, depth):
        g = self.g
        deep = depth < 4
        k = g.weighted([(3, "log"), (10, "rv"), (1, "inc"), (5 if deep else 0, "mk"), (2, "mke"), (2 if deep else 0, "each"), (2 if deep else 0, "deep"), (2 if deep else 0, "begin"), (1, "raise"), (1, "asg"),
                        (1 if deep else 0, "while"), (1 if deep else 0, "if")])
        if k == "log":
            return (k, g.int(0, 9), self.expr(vs))
        if k == "rv":
            f = g.int(0, 5)
            return (k, g.choice(vs) if vs else None, f, self.rv(vs), self.expr(vs), self.expr(vs), g.int(10, 99))
        if k == "inc":
            return (k,)
        if k == "mk":
            self.k += 1
            x, y = "x%d" % self.k, "y%d" % self.k
            nv = vs + [x, y]
            return (k, x, y, self.body(nv, depth + 1, 1, 5), self.expr(nv))
        if k == "mke":
            return (k, g.int(0, 4), g.int(0, 3))
        if k == "each":
            self.k += 1
            w = "w%d" % self.k
            return (k, w, g.int(1, 3), self.body(vs + [w], depth + 1, 1, 3), g.int(0, 4), self.k)
        if k == "deep":
            return (k, g.int(0, 5), self.body(vs, depth + 1, 1, 3))
        if k == "begin":
            return (k, self.body(vs, depth + 1, 1, 3), g.bool() and self.body(vs, depth + 1, 1, 2), g.bool() and self.body(vs, depth + 1, 1, 2))
        if k == "raise":
            return (k, g.int(0, 9), g.bool(2, 3) and self.expr(vs))
        if k == "asg":
            return (k, g.choice(vs) if vs else None, self.expr(vs))
        if k == "while":
            self.k += 1
            return (k, "i%d" % self.k, g.int(1, 3), self.body(vs, depth + 1, 1, 3))
        return (k, self.expr(vs), self.body(vs, depth + 1, 1, 2), self.body(vs, depth + 1, 0, 2))


def rx(e):
    return {"lit": lambda: str(e[1]), "var": lambda: e[1], "s": lambda: "$s", "sym": lambda: ":z"}[e[0]]()


def rr(e):
    k = e[0]
    if k == "yield":
        return "Fiber.yield(%s)" % ", ".join(rx(a) for a in e[1]) if e[1] else "Fiber.yield"
    if k in ("rs", "raw"):
        return "%s(%d, %s)" % (k, e[1], rx(e[2]))
    return "%s(%d)" % (k, e[1])


def rb(l):
    return "; ".join(rs(s) for s in l)


def rs(s):
    k = s[0]
    if k == "log":
        return "log(%d, %s)" % (s[1], rx(s[2]))
    if k == "rv":
        a, b = rx(s[4]), rx(s[5])
        r = rr(s[3])
        e = [r, "[%s, %s, %s]" % (a, r, b), "id2(%s, %s)" % (a, r), "log(%d, %s)" % (s[6], r), "[%s, [%s, %s]]" % (a, r, b), "{%s => %s}" % (":k", r)][s[2]]
        return "%s = %s" % (s[1], e) if s[1] else "log(0, %s)" % e
    if k == "inc":
        return "$s += 1"
    if k == "mk":
        return "mkf { |%s| %s = nil; %s }" % (s[1], s[2], "; ".join([rs(q) for q in s[3]] + [rx(s[4])]))
    if k == "mke":
        return "mke(%d, %d)" % (s[1], s[2])
    if k == "each":
        return "%s.each { |%s| %s; break if %s == %d }" % (list(range(1, s[2] + 1)), s[1], rb(s[3]), s[1], s[4])
    if k == "deep":
        return "deep(%d) { %s }" % (s[1], rb(s[2]))
    if k == "begin":
        r = "begin; " + rb(s[1])
        if s[2]:
            r += "; rescue Boom => e; $l << e.message; " + rb(s[2])
        if s[3]:
            r += "; ensure; $l << :ens; " + rb(s[3])
        return r + "; end"
    if k == "raise":
        return 'raise Boom, "b%d"' % s[1] + (" if %s == 3" % rx(s[2]) if s[2] else "")
    if k == "asg":
        return "%s = %s" % (s[1], rx(s[2])) if s[1] else "$s = %s" % ("$s")
    if k == "while":
        return "%s = 0; while %s < %d; %s += 1; %s; end" % (s[1], s[1], s[2], s[1], rb(s[3]))
    if k == "if":
        return "if %s == 3; %s; else; %s; end" % (rx(s[1]), rb(s[2]), rb(s[3]))
    raise KeyError(k)


class Env:
    def __init__(self, up=None):
        self.v, self.up = {}, up

    def find(self, n):
        e = self
        while n not in e.v:
            e = e.up
        return e.v


class Fib:
    def __init__(self, node, env):
        self.node, self.env, self.state, self.gen = node, env, "new", None


class Interp:
    def __init__(self):
        self.l, self.f, self.e = [], [], []
        self.s = 0
        self.steps = self.switches = 0

    def ex(self, e, env):
        if e[0] == "lit":
            return e[1]
        if e[0] == "var":
            return env.find(e[1])[e[1]]
        return self.s if e[0] == "s" else Sym("z")

    def start(self, fib, v):
        _, x, y, body, last = fib.node
        env = Env(fib.env)
        env.v[x], env.v[y] = v, None
        yield from self.block(body, env)
        return self.ex(last, env)

    def resume(self, i, v):
        if not self.f:
            return Sym("none")
        fib = self.f[i % len(self.f)]
        self.switches += 1
        if fib.state in ("run", "dead"):
            raise FibErr()
        try:
            if fib.state == "new":
                fib.gen = self.start(fib, v)
                fib.state = "run"
                r = fib.gen.send(None)
            else:
                fib.state = "run"
                r = fib.gen.send(v)
            fib.state = "susp"
            return r
        except StopIteration as e:
            fib.state = "dead"
            return e.value
        except (Boom, FibErr):
            fib.state = "dead"
            raise

    def enum_gen(self, k, n):
        if k == 0:
            yield from [5, 6, 7][:n]
        elif k == 1:
            self.l.append([Sym("gen"), n])
            for i in range(n):
                yield i
            self.l.append([Sym("end"), n])
            yield [n, n + 1]
        elif k == 2:
            for v in [[8, 9], None, Sym("q")][:n]:
                yield v
                self.s += 1
        elif k == 3:
            yield from range(n)
        else:
            yield from [[v, i] for i, v in enumerate([4, 3, 2][:n])]

    def rv(self, e, env):
        k = e[0]
        if k == "yield":
            a = [self.ex(q, env) for q in e[1]]
            self.switches += 1
            return (yield (None if not a else a[0] if len(a) == 1 else a))
        if k == "rs":
            try:
                return self.resume(e[1], self.ex(e[2], env))
            except FibErr:
                return Sym("fe")
            except Boom as b:
                return [Sym("boom"), b.args[0]]
        if k == "raw":
            return self.resume(e[1], self.ex(e[2], env))
        if k == "raw0":
            return self.resume(e[1], None)
        if k == "nx":
            if not self.e:
                return Sym("none")
            self.switches += 1
            x = self.e[e[1] % len(self.e)]
            if x[2] is None:
                x[2] = self.enum_gen(x[0], x[1])
            try:
                return next(x[2])
            except StopIteration:
                return Sym("stop")
        if k == "all":
            if not self.e:
                return []
            x = self.e[e[1] % len(self.e)]
            return [(v + [None, None])[:2] if isinstance(v, list) else [v, None] for v in self.enum_gen(x[0], x[1])]
        raise KeyError(k)

    def block(self, l, env):
        for s in l:
            self.steps += 1
            if self.steps > 2500:
                raise Fuel()
            yield from self.stmt(s, env)

    def stmt(self, s, env):
        k = s[0]
        if k == "log":
            self.l.append([s[1], self.ex(s[2], env)])
        elif k == "rv":
            f = s[2]
            a = self.ex(s[4], env) if f in (1, 2, 4) else None
            r = yield from self.rv(s[3], env)
            b = self.ex(s[5], env) if f in (1, 4) else None
            if f == 3:
                self.l.append([s[6], r])
            from model import RHash
            v = [r, [a, r, b], [a, r], r, [a, [r, b]], RHash([(Sym("k"), r)])][f]
            if s[1]:
                if size(v) > 60:
                    raise Fuel()
                env.find(s[1])[s[1]] = v
            else:
                self.l.append([0, v])
        elif k == "inc":
            self.s += 1
        elif k == "mk":
            if len(self.f) < 8:
                self.f.append(Fib(s, env))
        elif k == "mke":
            if len(self.e) <= 4:
                self.e.append([s[1], s[2], None])
        elif k == "each":
            for i in range(1, s[2] + 1):
                e = Env(env)
                e.v[s[1]] = i
                yield from self.block(s[3], e)
                if e.v[s[1]] == s[4] and type(e.v[s[1]]) is int:
                    break
        elif k == "deep":
            yield from self.block(s[2], env)
        elif k == "begin":
            try:
                try:
                    yield from self.block(s[1], env)
                except Boom as b:
                    if not s[2]:
                        raise
                    self.l.append(b.args[0])
                    yield from self.block(s[2], env)
            except GeneratorExit:
                raise
            except Fuel:
                raise
            except BaseException:
                if s[3]:
                    self.l.append(Sym("ens"))
                    yield from self.block(s[3], env)
                raise
            else:
                if s[3]:
                    self.l.append(Sym("ens"))
                    yield from self.block(s[3], env)
        elif k == "raise":
            if not s[2] or self.ex(s[2], env) == 3:
                raise Boom("b%d" % s[1])
        elif k == "asg":
            if s[1]:
                env.find(s[1])[s[1]] = self.ex(s[2], env)
        elif k == "while":
            for _ in range(s[2]):
                yield from self.block(s[3], env)
        elif k == "if":
            v = self.ex(s[1], env)
            yield from self.block(s[2] if v == 3 and v is not True else s[3], env)


def size(v):
    if isinstance(v, list):
        return 1 + sum(map(size, v))
    if hasattr(v, "items"):
        return 1 + sum(size(x) for _, x in v.items())
    return 1


def build(g, part):
    m = Gen(g)
    tops = []
    n = g.int(2, 12)
    for _ in range(n):
        if m.budget > 0:
            m.budget -= 1
            tops.append(m.stmt(["t0", "t1"], 0))
    it = Interp()
    env = Env()
    env.v["t0"] = env.v["t1"] = None
    src, out, units = [PRE, "t0 = t1 = nil"], [], []
    for s in tops:
        it.l = []
        it.switches = 0
        try:
            gen = it.block([s], env)
            try:
                gen.send(None)
                while True:
                    gen.throw(FibErr())      # Fiber.yield outside of any fiber
            except StopIteration:
                pass
            except FibErr:
                it.l.append(Sym("fe"))
            except Boom as b:
                it.l.append("top " + b.args[0])
        except Fuel:
            break
        if size(it.l) > 400:
            break
        src.append('begin; %s; rescue FiberError; $l << :fe; rescue Boom => e; $l << "top " + e.message; end' % rs(s))
        src.append("p [$l, $s, t0, t1]; $l = []")
        out.append(insp([it.l, it.s, env.v["t0"], env.v["t1"]]))
        units.append((rs(s) + str(len(out)), it.switches >= 2))
    return Case("\n".join(src), out, units, variant=part)


def strategy(part):
    return from_g(lambda g: build(g, part))
