"""C08: argument binding: every way of calling x every parameter list, against a binding model."""
from driver import Case
from gen import from_g
from model import *

ID = "C08"
EXAMPLES = dict(quick=4000, thorough=40000)
VARIANTS = ["std", "stress"]
PARTS = ["std", "std", "std", "stress"]
RULE = ("One evaluation = one call (method, singleton method, lambda, proc, yield, builtin iterator, send, method object, new, method_missing, super, `...` delegation) "
        "whose bound parameters, evaluation order of argument and default expressions and error class are compared with a binding model. Non-trivial: the parameter list "
        "has at least two kinds of parameters, or the call uses a splat, keywords, a double splat or a block.")
ASSUMPTIONS = ["error messages are not compared, only that ArgumentError was raised", "keywords are written before ** at call sites",
               "a block taking exactly |a = x, *b| or keywords with at most one positional parameter is not called with a single Array",
               "explicit keyword arguments of super are not passed to methods that accept none (behaviour pinned by the test suite)"]
VARS = ["n0", "h0"]


class P:
    """A parameter list."""

    def __init__(self):
        self.req, self.opt, self.rest, self.post, self.kw, self.kwrest, self.block = [], [], None, [], [], None, None

    def src(self):
        l = list(self.req) + ["%s = %s" % (n, s) for n, s, _ in self.opt]
        if self.rest is not None:
            l.append("*" + self.rest)
        l += self.post
        l += [n + ":" if s is None else "%s: %s" % (n, s) for n, s, _ in self.kw]
        if self.kwrest:
            l.append("**" + self.kwrest)
        if self.block:
            l.append("&" + self.block)
        return ", ".join(l)

    def names(self):
        return (self.req + [n for n, _, _ in self.opt] + ([self.rest] if self.rest else []) + self.post + [n for n, _, _ in self.kw]
                + ([self.kwrest] if self.kwrest else []))

    def haskw(self):
        return bool(self.kw or self.kwrest)

    def kinds(self):
        return sum(1 for x in (self.req, self.opt, self.rest is not None, self.post, self.kw, self.kwrest, self.block) if x)


class Blk:
    """A block argument: what calling it with (x) returns."""

    def __init__(self, f):
        self.f = f


def gen_params(g, method=True, maxreq=2):
    p = P()
    names = iter("abcdefghijk")
    p.req = [next(names) for _ in range(g.weighted([(3, 1), (2, 0), (2, 2)]))][:maxreq]
    prior = list(p.req)

    def default(n):
        k = g.int(0, 5)
        if k == 0:
            v = g.int(0, 9)
            return str(v), lambda e, log: v
        if k == 1:
            v = g.int(10, 19)
            return "t(%d)" % v, lambda e, log: (log.append(v), v)[1]
        if k == 2 and prior:
            x = g.choice(prior)
            return x, lambda e, log: e[x]
        if k == 3 and prior:
            x = g.choice(prior)
            return "[%s, t(3)]" % x, lambda e, log: (log.append(3), [e[x], 3])[1]
        if k == 4:
            v = g.int(0, 9)
            return "(z%s = %d)" % (n, v), lambda e, log: v
        return "nil", lambda e, log: None
    for _ in range(g.weighted([(4, 0), (3, 1), (2, 2)])):
        n = next(names)
        s, f = default(n)
        p.opt.append((n, s, f))
        prior.append(n)
    r = g.weighted([(4, None), (4, 1), (1, 2)])
    if r == 1:
        p.rest = next(names)
        prior.append(p.rest)
    elif r == 2:
        p.rest = ""
    if p.req or p.opt or p.rest is not None or method:
        p.post = [next(names) for _ in range(g.weighted([(5, 0), (3, 1), (1, 2)]))] if (p.opt or p.rest is not None) else []
    prior += p.post
    for _ in range(g.weighted([(5, 0), (3, 1), (2, 2)])):
        n = next(names)
        if g.bool():
            p.kw.append((n, None, None))
        else:
            s, f = default(n)
            p.kw.append((n, s, f))
        prior.append(n)
    if g.bool(1, 4):
        p.kwrest = "o"
    if g.bool(1, 4):
        p.block = "blk"
    return p


def bind(p, args, kw, blk, log, lam=True):
    """args: list, kw: RHash (copied) -> dict of parameters, or RErr."""
    args = list(args)
    nreq = len(p.req) + len(p.post)
    if not p.haskw():
        if len(kw):
            args.append(kw.copy())
        kw = RHash()
    if lam:
        if len(args) < nreq or (p.rest is None and len(args) > nreq + len(p.opt)):
            raise RErr("ArgumentError")
    else:
        if len(args) == 1 and isinstance(args[0], list) and expands(p):
            args = list(args[0])
        while len(args) < nreq:
            args.append(None)
        if p.rest is None:
            del args[nreq + len(p.opt):]
    known = [n for n, _, _ in p.kw]
    rest = RHash()
    given = {}
    for k, v in kw.items():
        if isinstance(k, Sym) and k.n in known:
            given[k.n] = v
        elif p.kwrest:
            rest.set(k, v)
        else:
            raise RErr("ArgumentError")
    for n, s, _ in p.kw:
        if s is None and n not in given:
            raise RErr("ArgumentError")
    e = {}
    i = len(p.req)
    for n, v in zip(p.req, args):
        e[n] = v
    avail = len(args) - nreq
    no = min(avail, len(p.opt))
    todo = []
    for j, (n, s, f) in enumerate(p.opt):
        if j < no:
            e[n] = args[i]
            i += 1
        else:
            todo.append((n, f))
    nr = avail - no
    if p.rest:
        e[p.rest] = args[i:i + nr]
    i += nr
    for n in p.post:
        e[n] = args[i]
        i += 1
    if p.kwrest:
        e[p.kwrest] = rest
    for n, v in given.items():
        e[n] = v
    for n, f in todo:
        e[n] = f(e, log)
    for n, s, f in p.kw:
        if n not in given:
            e[n] = f(e, log)
    return e


def expands(p):
    nreq = len(p.req) + len(p.post)
    if len(p.req) == 1 and not p.opt and p.rest is None and not p.post:
        return False
    return nreq > 0 or len(p.opt) > 1


def ambiguous(p):
    """Shapes whose treatment of one Array argument is not decided here."""
    if len(p.opt) == 1 and p.rest is not None and not p.req and not p.post:
        return True
    return p.haskw() and p.rest is None and len(p.req) + len(p.post) + len(p.opt) <= 1


class H:
    def __init__(self, g):
        self.g = g
        self.src, self.out, self.units, self.labels = [], [], [], []
        self.n = 0

    def scalar(self):
        g = self.g
        return g.weighted([(5, g.int(0, 9)), (1, None), (1, Sym("s")), (1, "x"), (2, [g.int(0, 9) for _ in range(g.int(0, 3))]), (1, RHash([(Sym("q"), 1)])), (1, 1.5)])

    # a call's argument list: (source, args, kw, blkspec)
    def args(self, p, log, block=True, allow_kw=True, single_ok=True):
        g = self.g
        nreq = len(p.req) + len(p.post)
        k = g.int(0, 9)
        hi = nreq + len(p.opt) + (3 if p.rest is not None else 0)
        if k == 0:
            n = g.int(0, hi + 2)
        elif k == 1:
            n = max(0, nreq - 1)
        else:
            n = g.int(nreq, hi)
        parts, vals = [], []
        feats = set()
        while len(vals) < n:
            c = g.int(0, 11)
            if c == 0:
                m = min(g.int(0, 3), n - len(vals))
                l = [g.int(0, 9) for _ in range(m)]
                w = g.int(0, 3)
                if w == 0:
                    parts.append("*" + lit(l))
                elif w == 1:
                    v = self.var(l)
                    parts.append("*" + v)
                elif w == 2 and m:
                    parts.append("*(1..%d)" % m)
                    l = list(range(1, m + 1))
                elif w == 3:
                    parts.append("*(1...%d)" % (m + 1))
                    l = list(range(1, m + 1))
                else:
                    parts.append("*nil")
                    l = []
                vals += l
                feats.add("splat")
            elif c == 1:
                v = g.int(20, 29)
                parts.append("t(%d)" % v)
                log.append(v)
                vals.append(v)
            elif c == 2:
                m = min(2, n - len(vals))
                l = [[Sym("u"), i] for i in range(1)] if m else []
                if l:
                    parts.append("*{u: 0}")
                    vals += l
                    feats.add("splat")
            else:
                v = self.scalar()
                parts.append(lit(v))
                vals.append(v)
        if len(vals) and g.bool(1, 8):
            parts.append("*[]")
            feats.add("splat")
        kw = RHash()
        if allow_kw and (p.haskw() and g.bool(5, 6) or g.bool(1, 12)):
            pick = []
            for nme, s, _ in p.kw:
                if s is None and not g.bool(1, 8) or s is not None and g.bool():
                    pick.append(nme)
            if p.kwrest and g.bool() or g.bool(1, 10):
                pick.append("x%d" % g.int(0, 2))
            if len(pick) > 1 and g.bool():
                pick.reverse()
            cut = len(pick) if g.bool(2, 3) else g.int(0, len(pick))
            for nme in pick[:cut]:
                if g.bool(1, 5):
                    v = g.int(30, 39)
                    log.append(v)
                    parts.append("%s: t(%d)" % (nme, v))
                else:
                    v = self.scalar()
                    parts.append("%s: %s" % (nme, lit(v)))
                kw.set(Sym(nme), v)
                feats.add("kw")
            if cut < len(pick) or g.bool(1, 8):
                h = RHash([(Sym(nme), self.scalar()) for nme in pick[cut:]])
                if g.bool(1, 6) and kw.keys():
                    h.set(g.choice(kw.keys()), 77)
                if g.bool(1, 12):
                    h.set("str", 5)
                parts.append("**" + (self.var(h) if g.bool() else lit(h)))
                for kk, v in h.items():
                    kw.set(kk, v)
                feats.add("dsplat")
        blk, bsrc = None, ""
        if block and g.bool(1, 2):
            k = g.int(0, 5)
            feats.add("block")
            if k <= 1:
                m = g.int(1, 9)
                blk, bsrc = Blk(lambda x: x + m), " { |x| x + %d }" % m
            elif k == 2:
                parts.append("&nil")
            elif k == 3:
                parts.append("&:succ")
                blk = Blk(lambda x: x + 1)
            elif k == 4:
                parts.append("&->(x) { [x] }")
                blk = Blk(lambda x: [x])
            else:
                parts.append("&$pr")
                blk = Blk(lambda x: [x, x])
        if not single_ok and len(vals) == 1 and isinstance(vals[0], list):
            return self.args(p, self.reset(log), block, allow_kw, single_ok)
        return ", ".join(parts), bsrc, vals, kw, blk, feats

    def reset(self, log):
        del log[:]
        return log

    def var(self, v):
        self.n += 1
        nme = "v%d" % self.n
        self.pre.append("%s = %s" % (nme, lit(v)))
        self.keep.append((nme, insp(v)))
        return nme

    def body(self, p, method):
        """-> (body source, f(env, blk) -> value)"""
        g = self.g
        names = p.names()
        items = list(names)
        if p.block:
            items.append("%s && %s.call(3)" % (p.block, p.block))
        usey = method and g.bool(1, 2)
        if usey:
            items.append("block_given? ? yield(4) : :nb")
        mut = []
        if p.rest and g.bool(1, 3):
            mut.append("%s << 99" % p.rest)
        if p.kwrest and g.bool(1, 3):
            mut.append("%s[:zz] = 98" % p.kwrest)
        src = "; ".join(mut + ["[" + ", ".join(items) + "]"])
        nest = g.bool(1, 6)

        def f(e, blk):
            e = dict(e)
            if p.rest and ("%s << 99" % p.rest) in mut:
                e[p.rest].append(99)
            if p.kwrest and ("%s[:zz] = 98" % p.kwrest) in mut:
                e[p.kwrest].set(Sym("zz"), 98)
            r = [e[n] for n in names]
            if p.block:
                r.append(blk.f(3) if blk else None)
            if usey:
                r.append(blk.f(4) if blk else Sym("nb"))
            return r
        if nest:
            # the frame is captured by a closure before the parameters are read.
            src = "kk = proc { %s }; kk.call" % src
        return src, f

    def define(self):
        """-> list of (callformat, bindfn(args, kw, blk, log) -> value, p, opts)"""
        g = self.g
        kind = g.weighted([(5, "method"), (3, "lambda"), (4, "proc"), (3, "yield"), (2, "new"), (2, "mm"), (3, "super"), (2, "deleg"), (2, "iter"), (1, "index")])
        self.kind = kind
        S = self.src
        if kind == "method":
            p = gen_params(g)
            b, f = self.body(p, True)
            how = g.int(0, 3)
            par = "(%s)" % p.src() if p.names() or p.block or p.rest is not None else ""

            def call(a, kw, blk, log):
                return f(bind(p, a, kw, blk, log), blk)
            if how == 0:
                S.append("def m%s; %s; end" % (par, b))
                fm = ["m(%s)%s", "self.m(%s)%s", "send(:m%S)%s", "$mo.call(%s)%s"]
                S.append("$mo = method(:m)")
            elif how == 1:
                S.append("class K; def m%s; %s; end; alias w m; end; $k = K.new; $mo = $k.method(:m)" % (par, b))
                fm = ["$k.m(%s)%s", "$k&.m(%s)%s", "$k.w(%s)%s", "$k.__send__('m'%S)%s", "$mo.(%s)%s", "K.new.m(%s)%s", "K.instance_method(:m).bind($k).call(%s)%s"]
            elif how == 2:
                S.append("class K; def self.m%s; %s; end; end" % (par, b))
                fm = ["K.m(%s)%s", "K.send(:m%S)%s", "K::m(%s)%s"]
            else:
                S.append("module M; def m%s; %s; end; end; class K; include M; end; $k = Object.new; $k.extend(M)" % (par, b))
                fm = ["$k.m(%s)%s", "K.new.m(%s)%s", "K.new.send(:m%S)%s"]
            return fm, call, p, {}
        if kind in ("lambda", "proc"):
            lam = kind == "lambda"
            p = gen_params(g, False)
            b, f = self.body(p, False)
            if lam:
                S.append(("$l = ->(%s) { %s }" if g.bool() else "$l = lambda { |%s| %s }") % (p.src(), b) if p.src() else "$l = -> { %s }" % b)
            else:
                S.append("$l = %s { |%s| %s }" % (g.choice(["proc", "Proc.new"]), p.src(), b) if p.src() else "$l = proc { %s }" % b)

            def call(a, kw, blk, log):
                return f(bind(p, a, kw, blk, log, lam), blk)
            fm = ["$l.call(%s)%s", "$l.(%s)%s"]
            return fm, call, p, dict(proc=not lam)
        if kind == "yield":
            # the call site is a yield; the callee a literal block, &proc or &lambda
            p = gen_params(g, False)
            p.block = None
            b, f = self.body(p, False)
            w = g.int(0, 2)
            bar = "|%s| " % p.src() if p.src() else ""
            if w == 0:
                S.append("$l = proc { %s%s }" % (bar, b))
            elif w == 1:
                S.append("$l = lambda { %s%s }" % (bar, b))

            def call(a, kw, blk, log):
                return f(bind(p, a, kw, blk, log, w == 1), blk)
            tail = ["{ %s%s }" % (bar, b)] if w == 2 else None
            return ["YIELD"], call, p, dict(proc=w != 1, noblock=True, ytail=tail)
        if kind == "new":
            p = gen_params(g)
            b, f = self.body(p, True)
            par = "(%s)" % p.src() if p.src() else ""
            S.append("class K; attr_reader :r; def initialize%s; @r = begin; %s; end; end; end" % (par, b))
            fm = ["(K.new(%s)%s).r"]
            if g.bool(1, 3):
                S.append("class L < K; end")
                fm.append("(L.new(%s)%s).r")

            def call(a, kw, blk, log):
                return f(bind(p, a, kw, blk, log), blk)
            return fm, call, p, {}
        if kind == "mm":
            p = gen_params(g)
            if p.kwrest is None and g.bool():
                p.kwrest = "o"
            if not p.req and not (p.rest is not None and not p.opt and not p.post):
                p.req = ["y"]
            b, f = self.body(p, True)
            S.append("class K; def method_missing(%s); %s; end; end; $k = K.new" % (p.src(), b))

            def call(a, kw, blk, log):
                return f(bind(p, [Sym("foo")] + a, kw, blk, log), blk)
            q = P()
            q.__dict__.update(p.__dict__)
            q.req = p.req[1:]
            return ["$k.foo(%s)%s", "K.new.foo(%s)%s", "$k.send(:foo%S)%s"], call, q, {}
        if kind == "index":
            p = gen_params(g)
            p.kw, p.kwrest, p.block = [], None, None
            if not p.req:
                p.req = ["y"]
            b, f = self.body(p, False)
            S.append("class K; def [](%s); %s; end; end; $k = K.new" % (p.src(), b))

            def call(a, kw, blk, log):
                return f(bind(p, a, kw, blk, log), blk)
            return ["$k[%s]", "$k.[](%s)"], call, p, dict(noblock=True, nokw=True, nonempty=True)
        if kind == "super":
            p, q = gen_params(g), gen_params(g)
            if p.rest == "":
                p.rest = "rr"
            pars = p.src()
            explicit = g.bool()
            reas = None
            if not explicit:
                cand = p.req + p.post + [n for n, _, _ in p.opt]
                if cand and g.bool(1, 3):
                    reas = g.choice(cand)
                if p.haskw() and not q.haskw() and q.rest is None:
                    q.kwrest = "o"
                if p.rest and g.bool():
                    q.rest = q.rest if q.rest is not None else "r2"
            b, f = self.body(q, True)
            w = g.int(0, 3)
            inner = g.bool(1, 3)
            if explicit:
                self.pre, self.keep = [], []
                lg = []
                src, bs, a2, k2, b2, _ = self.args(q, lg)
                if len(k2) and not q.haskw() and q.rest is None:
                    k2 = RHash()    # pinned by the test suite
                self.pre_super = list(self.pre)
                sup = "; ".join(self.pre + ["super(%s)%s" % (src, bs)])
                noblk = "&nil" in src
            else:
                sup = "super"
            if reas:
                sup = "%s = 55; %s" % (reas, sup)
            if inner:
                sup = "[1].map { |i1| %s }[0]" % sup
            S.append("class J; def m(%s); %s; end; end" % (q.src(), b))
            if w == 0:
                S.append("class K < J; def m(%s); %s; end; end; $k = K.new" % (pars, sup))
            elif w == 1:
                S.append("module M; def m(%s); %s; end; end; class K < J; include M; end; $k = K.new" % (pars, sup))
            elif w == 2:
                S.append("module M; def m(%s); %s; end; end; class K < J; prepend M; end; $k = K.new" % (pars, sup))
            else:
                S.append("$k = J.new; def $k.m(%s); %s; end" % (pars, sup))

            def call(a, kw, blk, log):
                e = bind(p, a, kw, blk, log)
                if reas:
                    e[reas] = 55
                if explicit:
                    log += lg
                    bb = b2 if b2 else (None if noblk else blk)
                    return f(bind(q, a2, k2, bb, log), bb)
                a3 = [e[n] for n in p.req] + [e[n] for n, _, _ in p.opt] + (e[p.rest] if p.rest else []) + [e[n] for n in p.post]
                k3 = RHash([(Sym(n), e[n]) for n, _, _ in p.kw])
                if p.kwrest:
                    for x, v in e[p.kwrest].items():
                        k3.set(x, v)
                if len(k3) and not q.haskw() and q.rest is None:
                    k3 = RHash()
                return f(bind(q, a3, k3, blk, log), blk)
            return ["$k.m(%s)%s", "$k.send(:m%S)%s"], call, p, {}
        if kind == "deleg":
            q = gen_params(g)
            b, f = self.body(q, True)
            par = "(%s)" % q.src() if q.src() else ""
            lead = g.int(0, 2)
            ls = ["l%d" % i for i in range(lead)]
            pas = [x for x in ls if g.bool(2, 3)]
            S.append("class K; def m%s; %s; end" % (par, b))
            inner = "m(%s)" % ", ".join(pas + ["..."])
            if g.bool(1, 4):
                inner = "[0].map { |i| %s }[0]" % inner
            S.append("def d(%s); %s; end; end; $k = K.new" % (", ".join(ls + ["..."]), inner))

            def call(a, kw, blk, log):
                if len(a) < lead:
                    raise RErr("ArgumentError")
                x = dict(zip(ls, a))
                return f(bind(q, [x[n] for n in pas] + a[lead:], kw, blk, log), blk)
            p = P()
            p.__dict__.update(q.__dict__)
            p.req = ls + q.req[len(pas):]
            if len(pas) > len(q.req) + len(q.opt):
                p.post = q.post[len(pas) - len(q.req) - len(q.opt):]
            return ["$k.d(%s)%s", "$k.send(:d%S)%s"], call, p, {}
        # builtin iterators
        p = gen_params(g, False)
        p.block = None
        p.kw = [x if x[1] is not None else (x[0], 'nil', lambda e, log: None) for x in p.kw]
        b, f = self.body(p, False)
        if not p.src():
            p.req = ["a"]
            b, f = self.body(p, False)
        return ["ITER"], f, p, dict(body=b)

    def unit(self, p, feats, ok):
        nt = p.kinds() >= 2 or bool(feats)
        kinds = "%d%d%s%d%d%s%s" % (len(p.req), len(p.opt), {None: "-", "": "_"}.get(p.rest, "r"), len(p.post), len(p.kw), "K" if p.kwrest else "-", "B" if p.block else "-")
        self.units.append((self.kind + ":" + kinds + ":" + "".join(sorted(x[0] for x in feats)) + (":ok" if ok else ":err"), nt))

    def emit(self, call, val, log):
        if self.g.bool(1, 3):
            self.src.append("zz { %s }" % call)
        else:
            self.src.append("$g = []; begin; r = %s; rescue ArgumentError => e; r = :ArgumentError; end; p [r, $g]" % call)
        self.out.append(insp([val, log]))

    def run(self):
        g = self.g
        S = self.src
        S.append("def t(x); $g << x; x; end")
        S.append("def zz; $g = []; begin; r = yield; rescue ArgumentError; r = :ArgumentError; end; p [r, $g]; end")
        S.append("$pr = proc { |x| [x, x] }")
        fm, call, p, o = self.define()
        for i in range(g.int(3, 7)):
            self.pre, self.keep = [], []
            log = []
            fmt = g.choice(fm)
            if fmt == "ITER":
                self.iter(p, call, o["body"])
                continue
            proc_ = o.get("proc")
            src, bs, a, kw, blk, feats = self.args(p, log, not o.get("noblock"), not o.get("nokw"), not (proc_ and ambiguous(p)))
            if o.get("nonempty") and not a:
                continue
            if proc_ and ambiguous(p) and not p.haskw() and len(a) == 0 and len(kw):
                pass
            log2 = list(log)
            try:
                val = call(a, kw, blk, log2)
                ok = True
            except RErr:
                val = Sym("ArgumentError")
                ok = False
            if fmt == "YIELD":
                self.n += 1
                nme = "y%d" % self.n
                y = "yield(%s)" % src if src else "yield"
                if g.bool(1, 4):
                    y = "[0].map { %s }[0]" % y
                for x in self.pre:
                    pass
                loc = "; ".join(self.pre + [y])
                S.append("def %s; %s; end" % (nme, loc))
                self.keep = []
                tail = (" " + o["ytail"][0]) if o.get("ytail") else "(&$l)"
                self.emit("(%s%s)" % (nme, tail), val, log2)
                self.unit(p, feats, ok)
                continue
            S += self.pre
            if "%S" in fmt:
                fmt = fmt.replace("%S", ", %s" if src else "%s")
            # an error in a default expression etc. must leave the logs of evaluated arguments
            if fmt.count("%s") == 1:
                c = fmt % src
            else:
                c = fmt % (src, bs)
            self.emit(c, val, log2 if ok else log2)
            for nme, s in self.keep:
                S.append("p " + nme)
                self.out.append(s)
            self.unit(p, feats, ok)

    def iter(self, p, f, body):
        g = self.g
        w = g.int(0, 6)
        amb = ambiguous(p)
        n = g.int(1, 3)
        items = []
        for _ in range(n):
            x = g.weighted([(2, g.int(0, 9)), (4, [g.int(0, 9) for _ in range(g.int(0, 4))]), (1, RHash([(Sym("q"), 1)]))])
            if amb and isinstance(x, list):
                x = 5
            items.append(x)
        if w >= 5 and amb:
            w = 0
        vals, log = [], []
        bar = "|%s| %s" % (p.src(), body)
        calls = []
        if w == 0:
            c = "%s.map { %s }" % (lit(items), bar)
            calls = [[x] for x in items]
        elif w == 1:
            c = "w = []; %s.each { |*zq| w << zq.size }; %s.each { %s }" % (lit(items), lit(items), bar.replace(body, "w << (%s)" % ("begin; " + body + "; end")))
            c = "(%s; w)" % c
            calls = [[x] for x in items]
            vals = [1] * len(items)
        elif w == 2:
            c = "(w = []; %s.each_with_index { |%s| w << (begin; %s; end) }; w)" % (lit(items), p.src(), body)
            calls = [[x, i] for i, x in enumerate(items)]
        elif w == 3:
            c = "(w = []; %d.times { |%s| w << (begin; %s; end) }; w)" % (n, p.src(), body)
            calls = [[i] for i in range(n)]
        elif w == 4:
            m = g.int(1, 3)
            c = "(w = []; %d.upto(%d) { |%s| w << (begin; %s; end) }; w)" % (m, m + n, p.src(), body)
            calls = [[i] for i in range(m, m + n + 1)]
        elif w == 5:
            h = RHash([(Sym("k%d" % i), x) for i, x in enumerate(items)])
            c = "(w = []; %s.each { |%s| w << (begin; %s; end) }; w)" % ("(%s)" % lit(h), p.src(), body)
            calls = [[[k, v]] for k, v in h.items()]
        else:
            c = "%s.each_with_index.map { |%s| %s }" % (lit(items), p.src(), body)
            c = "(w = []; (1..%d).each { |%s| w << (begin; %s; end) }; w)" % (n, p.src(), body)
            calls = [[i] for i in range(1, n + 1)]
        ok = True
        try:
            for a in calls:
                vals.append(f(bind(p, a, RHash(), None, log, False), None))
            val = vals
        except RErr:
            val, ok = Sym("ArgumentError"), False
        self.emit(c, val, log)
        self.unit(p, {"iter"}, ok)


def strategy(part="std"):
    def build(g):
        h = H(g)
        h.run()
        return Case("\n".join(h.src), list(h.out), units=h.units, labels=[h.kind], variant=part)
    return from_g(build)
