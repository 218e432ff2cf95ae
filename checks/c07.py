"""C07: closures, scopes and bindings, against an environment-passing reference interpreter."""
from driver import Case
from gen import from_g
from model import insp, Sym

ID = "C07"
EXAMPLES = dict(quick=2500, thorough=40000)
VARIANTS = ["std", "stress"]
PARTS = ["std", "std", "std", "stress"]
RULE = ("One evaluation = one observation (value of a variable, closure call, eval in a binding, instance variable through a closure's self) in a program of methods, blocks, closures and bindings "
        "that share variables, compared with an interpreter whose environments are ordinary heap objects. Non-trivial: the observed variable is captured by a closure or binding, or the call runs a closure "
        "whose defining frame has returned or is still active below.")
ASSUMPTIONS = ["programs only compute with small integers and nil", "calls of stored closures go through a helper that bounds recursion depth and count",
               "for eval the generated code refers to names only; what they denote is decided by the model at run time"]
NAMES = ["a", "b", "c", "d"]
PRE = """$f = []; $b = []; $d = 0; $n = 0
def cl(k, n)
  return nil if $f.size == 0
  return -1 if $d > 5
  $n += 1
  return -2 if $n > 150
  $d += 1
  r = $f[k % $f.size].call(n)
  $d -= 1
  r
end
def ix(o, k, n)
  return nil if $f.size == 0
  return -1 if $d > 5
  $n += 1
  return -2 if $n > 150
  $d += 1
  r = o.instance_exec(n, &$f[k % $f.size])
  $d -= 1
  r
end
def keep(&blk); $f << blk; nil; end
def y1(n); yield n; end
def y3(n); yield n, 71, 72, 73; end
def y2(n); r = 0; y1(n + 1) { |w| r = yield(w) }; r; end
def ev(s, k)
  return nil if $b.size == 0
  begin; eval(s, $b[k % $b.size]); rescue NameError; :ne; end
end
def lvd(s, k); $b.size == 0 ? nil : $b[k % $b.size].local_variable_defined?(s); end
class K; def initialize; @v = 0; end; def v; @v; end; end
$o = [K.new, K.new]
@v = 0"""


class SS:
    """static scope"""

    def __init__(self, parent, kind):
        self.parent, self.kind, self.names = parent, kind, []

    def find(self, n):
        s, d = self, 0
        while s is not None:
            if n in s.names:
                return d
            s = s.parent
            d += 1
        return None

    def visible(self):
        out, s = [], self
        while s is not None:
            out += [n for n in s.names if n not in out]
            s = s.parent
        return out


class Env:
    __slots__ = ("ss", "vars", "up", "self", "blk")

    def __init__(self, ss, up, self_, blk=None):
        self.ss, self.vars, self.up, self.self, self.blk = ss, {}, up, self_, blk


class Clo:
    def __init__(self, node, env, self_):
        self.node, self.env, self.self = node, env, self_


class Bind:
    def __init__(self, env):
        self.env = Env(SS(None, "eval"), env, env.self)


class Gen:
    def __init__(self, g):
        self.g = g
        self.budget = g.int(14, 34)
        self.methods = []
        self.k = 0

    def ref(self, sc):
        v = [n for n in sc.visible() if not n.startswith("_")]
        return self.g.choice(v) if v else None

    def declare(self, sc, n):
        if sc.find(n) is None:
            sc.names.append(n)
        return n

    def target(self, sc):
        g = self.g
        v = [x for x in sc.visible() if not x.startswith("_")]
        if v and g.bool(3, 4):
            return g.choice(v)
        return g.choice(NAMES)

    def expr(self, sc, d=1):
        g = self.g
        k = g.int(0, 9)
        n = self.ref(sc)
        if k <= 4 and n:
            return ("var", sc.find(n), n)
        if k <= 6 or d == 0:
            return ("lit", g.int(0, 9))
        if k == 7:
            return ("iv",)
        return ("add", self.expr(sc, d - 1), self.expr(sc, d - 1))

    def body(self, sc, depth, lo, hi):
        out = []
        n = self.g.int(lo, hi)
        for _ in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            s = self.stmt(sc, depth)
            if s:
                out.append(s)
        return out

    def closure(self, sc, depth, kind=None):
        """a block/lambda node: (node) with params; last expression is its value"""
        g = self.g
        s = SS(sc, "block")
        prm = g.choice(["n", "m", "q"] + NAMES[:2])
        s.names.append(prm)
        dflt = None
        if g.bool(1, 5):
            nm = g.choice([x for x in ["z"] + NAMES if x != prm])
            s.names.append(nm)
            e = self.expr(s, 1)
            dflt = (nm, e)
        st = self.body(s, depth + 1, 0, 4)
        last = self.expr(s, 1)
        return dict(scope=s, prm=prm, dflt=dflt, body=st, last=last)

    def code(self):
        g = self.g
        x = g.choice(NAMES + ["e"])
        k = g.int(0, 6)
        return (["get", "get", "set", "inc", "clo", "def", "setclo"][k], x, g.int(1, 9))

    def stmt(self, sc, depth):
        g = self.g
        k = g.weighted([(6, "asg"), (4, "op"), (4, "p"), (6, "mk"), (6, "cl"), (3, "call"), (2, "if"), (2, "loop"), (4, "iter"), (3, "bind"), (4, "beval"), (2, "eval"), (2, "iv"), (2, "ix"), (2, "lvd"),
                        (3, "yield"), (1, "orasg")])
        if k == "asg":
            n = self.target(sc)
            new = sc.find(n) is None
            if new and g.bool(1, 6):
                sc.names.append(n)
                return ("asg", 0, n, ("var", 0, n))
            e = self.expr(sc)
            self.declare(sc, n)
            return ("asg", sc.find(n), n, e)
        if k == "op":
            n = self.ref(sc)
            if not n:
                return None
            return ("op", sc.find(n), n, self.expr(sc))
        if k == "orasg":
            n = self.target(sc)
            self.declare(sc, n)
            return ("orasg", sc.find(n), n, self.expr(sc))
        if k == "p":
            v = [x for x in sc.visible() if not x.startswith("_")]
            if not v:
                return None
            return ("p", [(sc.find(x), x) for x in v])
        if k == "mk":
            if depth > 3:
                return None
            return ("mk", g.int(0, 4), self.closure(sc, depth))
        if k in ("cl", "ix"):
            dst = None
            if g.bool(1, 3):
                dst = self.target(sc)
                self.declare(sc, dst)
            return (k, dst, sc.find(dst) if dst else None, g.int(0, 7), self.expr(sc, 0), g.int(0, 1))
        if k == "call":
            if not self.methods:
                return None
            m = g.choice(self.methods)
            blk = None
            if g.bool(1, 2) and depth <= 3:
                blk = self.closure(sc, depth)
            return ("call", m, self.expr(sc, 0), blk, g.int(0, 1))
        if k == "yield":
            if depth > 3:
                return None
            dst = None
            if g.bool(1, 2):
                dst = self.target(sc)
                self.declare(sc, dst)
            c = self.closure(sc, depth)
            return ("yield", g.choice(["y1", "y2", "y3"]), g.int(0, 9), c, dst, sc.find(dst) if dst else None)
        if k == "if":
            c = self.expr(sc, 0)
            neg = g.bool(1, 4)
            t = self.body(sc, depth + 1, 1, 3)
            e = self.body(sc, depth + 1, 0, 2)
            return ("if", c, neg, t, e)
        if k == "loop":
            if depth > 3:
                return None
            if g.bool(1, 2):
                v = self.target(sc)
                self.declare(sc, v)
                return ("for", sc.find(v), v, g.int(1, 3), self.body(sc, depth + 1, 1, 3))
            self.k += 1
            c = "_i%d" % self.k
            sc.names.append(c)
            return ("while", sc.find(c), c, g.int(1, 3), self.body(sc, depth + 1, 1, 3))
        if k == "iter":
            if depth > 3:
                return None
            return ("iter", g.int(0, 3), g.int(1, 3), self.closure(sc, depth))
        if k == "bind":
            return ("bind",)
        if k == "beval":
            return ("beval", self.code(), g.int(0, 7))
        if k == "eval":
            return ("eval", self.code())
        if k == "iv":
            return ("ivset", self.expr(sc, 0))
        if k == "lvd":
            return ("lvd", g.choice(NAMES + ["e", "n"]), g.int(0, 7))

    def method(self, i):
        g = self.g
        s = SS(None, "method")
        s.names.append("n")
        kind = g.weighted([(3, "m"), (1, "o")])
        name = "m%d" % i
        rec = g.bool(1, 3)
        save, self.budget = self.budget, g.int(3, 9)
        st = self.body(s, 1, 2, 6)
        self.budget = save
        self.methods.append(dict(name=name, kind=kind, scope=s, body=st, rec=rec, last=self.expr(s), yields=g.bool()))


# --- rendering
def rx(e):
    k = e[0]
    if k == "lit":
        return str(e[1])
    if k == "var":
        return e[2]
    if k == "iv":
        return "@v"
    return "((%s || 0) + (%s || 0))" % (rx(e[1]), rx(e[2]))


def rclo(c, bar=False):
    ps = c["prm"] + (", %s = %s" % (c["dflt"][0], rx(c["dflt"][1])) if c["dflt"] else "")
    b = "; ".join(rs(s) for s in c["body"]) + ("; " if c["body"] else "") + rx(c["last"])
    return ps, b


def rblk(c):
    return "{ |%s| %s }" % rclo(c)


def rcode(c):
    k, x, v = c
    return {"get": "%s", "set": "%s = {v}", "inc": "%s = (%s || 0) + {v}", "clo": "$f << proc { |n| %s = (%s || 0) + {v}; %s }; 0", "def": "defined?(%s) ? 1 : 0",
            "setclo": "%s = {v}; $f << proc { |n| %s = (%s || 0) + (n || 0) }; 0"}[k].replace("{v}", "\0").replace("{", "{").replace("%s", x).replace("\0", str(v))


def rs(s):
    k = s[0]
    if k == "asg":
        return "%s = %s" % (s[2], rx(s[3]))
    if k == "op":
        return "%s = (%s || 0) + (%s || 0)" % (s[2], s[2], rx(s[3]))
    if k == "orasg":
        return "%s ||= %s" % (s[2], rx(s[3]))
    if k == "p":
        return "p [%s]" % ", ".join(x for _, x in s[1])
    if k == "mk":
        ps, b = rclo(s[2])
        return ["$f << proc { |%s| %s }", "$f << lambda { |%s| %s }", "$f << ->(%s) { %s }", "keep { |%s| %s }", "keep(&proc do |%s| %s end)"][s[1]] % (ps, b)
    if k in ("cl", "ix"):
        t = "%s = " % s[1] if s[1] else "p "
        c = "cl(%d, %s)" % (s[3], rx(s[4])) if k == "cl" else "ix($o[%d], %d, %s)" % (s[5], s[3], rx(s[4]))
        return (t + c) if s[1] else "p(%s)" % c
    if k == "call":
        m = s[1]
        c = ("$o[%d]." % s[4] if m["kind"] == "o" else "") + "%s(%s)" % (m["name"], rx(s[2]))
        return "p(%s%s)" % (c, " " + rblk(s[3]) if s[3] else "")
    if k == "yield":
        c = "%s(%d) %s" % (s[1], s[2], rblk(s[3]))
        return "%s = %s" % (s[4], c) if s[4] else "p(%s)" % c
    if k == "if":
        t = "; ".join(rs(x) for x in s[3]) or "nil"
        e = "; ".join(rs(x) for x in s[4])
        return "%s (%s || 0) %% 2 == 0; %s%s; end" % ("unless" if s[2] else "if", rx(s[1]), t, "; else; " + e if e else "")
    if k == "for":
        return "for %s in 1..%d; %s; end" % (s[2], s[3], "; ".join(rs(x) for x in s[4]) or "nil")
    if k == "while":
        return "%s = 0; while %s < %d; %s += 1; %s; end" % (s[2], s[2], s[3], s[2], "; ".join(rs(x) for x in s[4]) or "nil")
    if k == "iter":
        return ["%d.times " % s[2], "[%s].each " % ", ".join(str(i) for i in range(s[2])), "0.upto(%d) " % (s[2] - 1), "p [%s].map " % ", ".join(str(i) for i in range(s[2]))][s[1]] + rblk(s[3]) if s[1] != 3 else \
            "p([%s].map %s)" % (", ".join(str(i) for i in range(s[2])), rblk(s[3]))
    if k == "bind":
        return "$b << binding"
    if k == "beval":
        return 'p(ev("%s", %d))' % (rcode(s[1]), s[2])
    if k == "eval":
        return 'p((begin; eval("%s"); rescue NameError; :ne; end))' % rcode(s[1]) if False else 'begin; p eval("%s"); rescue NameError; p :ne; end' % rcode(s[1])
    if k == "ivset":
        return "@v = (@v || 0) + (%s || 0)" % rx(s[1])
    if k == "lvd":
        return "p lvd(:%s, %d)" % (s[1], s[2])
    raise KeyError(k)


# --- reference interpreter
class Fuel(Exception):
    pass


class NE(Exception):
    pass


class Interp:
    def __init__(self):
        self.f, self.b = [], []
        self.d = self.n = 0
        self.out = []
        self.main = {"v": 0}
        self.o = [{"v": 0}, {"v": 0}]
        self.steps = 0
        self.units = []
        self.active = []

    def look(self, env, d):
        while d:
            env = env.up
            d -= 1
        return env

    def expr(self, e, env):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "var":
            return self.look(env, e[1]).vars.get(e[2])
        if k == "iv":
            return env.self.get("v")
        return (self.expr(e[1], env) or 0) + (self.expr(e[2], env) or 0)

    def call(self, clo, n, self_=None, extra=None):
        c = clo.node
        if callable(c):
            return c(n)
        e = Env(c["scope"], clo.env, clo.self if self_ is None else self_)
        e.vars[c["prm"]] = n
        if c["dflt"]:
            e.vars[c["dflt"][0]] = None
            e.vars[c["dflt"][0]] = self.expr(c["dflt"][1], e) if extra is None else extra
        self.block(c["body"], e)
        return self.expr(c["last"], e)

    def cl(self, k, n, self_=None):
        if not self.f:
            return None
        if self.d > 5:
            return -1
        self.n += 1
        if self.n > 150:
            return -2
        self.d += 1
        r = self.call(self.f[k % len(self.f)], n, self_)
        self.d -= 1
        return r

    def block(self, l, env):
        for s in l:
            self.steps += 1
            if self.steps > 3000 or len(self.out) > 400:
                raise Fuel()
            self.stmt(s, env)

    def emit(self, v, key, nt):
        self.out.append(insp(v))
        self.units.append((key, nt))

    def code(self, c, env):
        """env: the eval layer; names resolve through full tables"""
        k, x, v = c
        e = env
        while e is not None and x not in e.ss.names:
            e = e.up
        if k == "get":
            if e is None:
                raise NE()
            return e.vars.get(x)
        if k == "def":
            return 0 if e is None else 1
        if k in ("set", "inc", "setclo"):
            if e is None:
                env.ss.names.append(x)
                e = env
            if k == "set":
                e.vars[x] = v
                return v
            if k == "inc":
                e.vars[x] = (e.vars.get(x) or 0) + v
                return e.vars[x]
            e.vars[x] = v

            def f(n):
                e.vars[x] = (e.vars.get(x) or 0) + (n or 0)
                return e.vars[x]
            self.f.append(NClo(f, k))
            return 0

        def h(n):
            if x == "n":
                raise AssertionError
            if e is None:
                return v
            e.vars[x] = (e.vars.get(x) or 0) + v
            return e.vars[x]
        self.f.append(NClo(h, k))
        return 0

    def stmt(self, s, env):
        k = s[0]
        if k == "asg":
            self.look(env, s[1]).vars[s[2]] = self.expr(s[3], env)
        elif k == "op":
            e = self.look(env, s[1])
            e.vars[s[2]] = (e.vars.get(s[2]) or 0) + (self.expr(s[3], env) or 0)
        elif k == "orasg":
            e = self.look(env, s[1])
            if e.vars.get(s[2]) is None:
                e.vars[s[2]] = self.expr(s[3], env)
        elif k == "p":
            self.emit([self.look(env, d).vars.get(n) for d, n in s[1]], rs(s) + env.ss.kind, bool(self.f or self.b))
        elif k == "mk":
            self.f.append(Clo(s[2], env, env.self))
        elif k in ("cl", "ix"):
            n = self.expr(s[4], env)
            r = self.cl(s[3], n, self.o[s[5]] if k == "ix" else None)
            if s[1]:
                self.look(env, s[2]).vars[s[1]] = r
            else:
                key = ""
                if self.f:
                    c = self.f[s[3] % len(self.f)]
                    key = c.key if isinstance(c, NClo) else rblk(c.node)
                self.emit(r, k + key, bool(self.f))
        elif k == "call":
            m = s[1]
            n = self.expr(s[2], env)
            blk = Clo(s[3], env, env.self) if s[3] else None
            r = self.method(m, n, blk, self.o[s[4]] if m["kind"] == "o" else env.self if m["kind"] == "m" else None)
            self.emit(r, rs(s), bool(s[3]))
        elif k == "yield":
            c = Clo(s[3], env, env.self)
            r = self.call(c, s[2] + (1 if s[1] == "y2" else 0), extra=71 if s[1] == "y3" else None)
            if s[4]:
                self.look(env, s[5]).vars[s[4]] = r
            else:
                self.emit(r, rs(s), bool(s[3]["body"]))
        elif k == "if":
            c = (self.expr(s[1], env) or 0) % 2 == 0
            self.block(s[3] if c != s[2] else s[4], env)
        elif k == "for":
            for i in range(1, s[3] + 1):
                self.look(env, s[1]).vars[s[2]] = i
                self.block(s[4], env)
        elif k == "while":
            e = self.look(env, s[1])
            for i in range(s[3]):
                e.vars[s[2]] = i + 1
                self.block(s[4], env)
        elif k == "iter":
            c = Clo(s[3], env, env.self)
            r = [self.call(c, i) for i in range(s[2])]
            if s[1] == 3:
                self.emit(r, rs(s), True)
        elif k == "bind":
            self.b.append(Bind(env))
        elif k == "beval":
            if not self.b:
                r = None
            else:
                try:
                    r = self.code(s[1], self.b[s[2] % len(self.b)].env)
                except NE:
                    r = Sym("ne")
            self.emit(r, rs(s) + str(len(self.b)), bool(self.b))
        elif k == "eval":
            try:
                r = self.code(s[1], Env(SS(None, "eval"), env, env.self))
            except NE:
                r = Sym("ne")
            self.emit(r, rs(s) + env.ss.kind, True)
        elif k == "ivset":
            env.self["v"] = (env.self.get("v") or 0) + (self.expr(s[1], env) or 0)
        elif k == "lvd":
            if not self.b:
                r = None
            else:
                e = self.b[s[2] % len(self.b)].env
                while e is not None and s[1] not in e.ss.names:
                    e = e.up
                r = e is not None
            self.emit(r, rs(s), bool(self.b))

    def method(self, m, n, blk, self_):
        self.steps += 1
        if self.steps > 3000:
            raise Fuel()
        e = Env(m["scope"], None, self_, blk)
        e.vars["n"] = n
        self.block(m["body"], e)
        if m["yields"] and blk:
            # yield twice, printing n in between
            self.emit([self.call(blk, self.vn(e)), e.vars.get("n")], m["name"] + "y", True)
            self.emit(self.call(blk, 7), m["name"] + "y7", True)
        if m["rec"] and isinstance(n, int) and 0 < (n if n <= 3 else 0):
            self.emit(self.method(m, n - 1, blk, self_), m["name"] + "r", True)
        return self.expr(m["last"], e)

    def vn(self, e):
        return e.vars.get("n")


class NClo(Clo):
    def __init__(self, f, key):
        self.node, self.env, self.self, self.key = f, None, None, key


def rmethod(m):
    b = [rs(s) for s in m["body"]]
    if m["yields"]:
        b.append("if block_given?; p [yield(n), n]; p yield(7); end")
    if m["rec"]:
        # the original argument decides about recursion: parameters may have been reassigned
        b.insert(0, "_n = n")
        b.append("p(%s(_n - 1%s)) if _n.is_a?(Integer) && _n > 0 && _n <= 3" % (m["name"], ", &_b"))
    b.append(rx(m["last"]))
    d = "def %s(n%s); %s; end" % (m["name"], ", &_b" if m["rec"] else "", "; ".join(b))
    return "class K; %s; end" % d if m["kind"] == "o" else d


def build(g, variant):
    for _ in range(6):
        G_ = Gen(g)
        for i in range(g.int(0, 2)):
            G_.method(i)
        top = SS(None, "top")
        body = G_.body(top, 0, 5, 30)
        if not body:
            continue
        it = Interp()
        env = Env(top, None, it.main)
        try:
            it.block(body, env)
        except Fuel:
            continue
        break
    else:
        from hypothesis import reject
        reject()
    src = [PRE] + [rmethod(m) for m in G_.methods] + [rs(s) for s in body]
    return Case("\n".join(src), it.out, units=it.units, variant=variant)


def strategy(part="std"):
    return from_g(lambda g: build(g, part))
