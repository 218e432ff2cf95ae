"""C09: assignment in all its forms, generated together with the state it produces."""
from driver import Case
from gen import from_g
from model import insp, Sym, RHash

ID = "C09"
EXAMPLES = dict(quick=5000, thorough=40000)
VARIANTS = ["std", "stress"]
PARTS = ["std", "std", "std", "stress"]
RULE = ("One evaluation = one assignment statement (plain, operator, logical, safe-navigation, multiple, chained; to locals, ivars, gvars, constants, elements and attributes, with traced receivers, indices and "
        "right hand sides), whose value, evaluation trace and resulting state are compared with a model computed while the program is generated. Non-trivial: everything but a plain assignment of a literal to one variable.")
ASSUMPTIONS = ["receivers and indices on the left of a multiple assignment have no side effects and do not read variables it assigns (their evaluation order changed in Ruby 3.1)",
               "values are small integers, booleans, nil and flat arrays of these"]
PRE = """$l = []
def t(k, v); $l << k; v; end
def id(x); x; end
def bad(k); $l << k; raise "bad"; end
class Rec
  def initialize; @v = 1; @h = {}; end
  def v; $l << :v; @v; end
  def v=(x); $l << [:sv, x]; @v = x; :bogus; end
  def [](*k); $l << [:get, k]; @h[k]; end
  def []=(*k); $l << [:set, k]; x = k[-1]; @h[k[0..-2]] = x; :bogus; end
  def raw; [@v, @h.values]; end
  attr_accessor :w
end
$g = 1; $h = nil; @a = 2; @b = [1, 2, 3]; $n = nil
$r1 = Rec.new; $r2 = Rec.new
$hh = {}
r = nil
x = 3; y = nil; z = [4, 5]; arr = [6, 7, 8]"""


class MRec:
    def __init__(self):
        self.v, self.w, self.h = 1, None, {}


class Gen:
    def __init__(self, g):
        self.g = g
        self.loc = {"x": 3, "y": None, "z": [4, 5], "arr": [6, 7, 8], "r": None}
        self.iv = {"@a": 2, "@b": [1, 2, 3]}
        self.gv = {"$g": 1, "$h": None}
        self.co = {}
        self.rec = {"$r1": MRec(), "$r2": MRec()}
        self.hh = RHash()
        self.log = []
        self.k = 0
        self.dry = 0
        self.frozen = set()      # variables the statement under construction must not assign
        self.new_ok = True
        self.const_ok = True
        self.out, self.src, self.units = [], [], []
        self.budget = 0

    # -- state
    def emit_log(self, v):
        if not self.dry:
            self.log.append(v)

    def tick(self):
        self.k += 1
        return self.k

    def all_vars(self):
        d = {}
        for m in (self.loc, self.iv, self.gv):
            d.update(m)
        d.pop("r")
        return d

    def setvar(self, n, v):
        if self.dry:
            return
        for m in (self.iv, self.gv, self.co):
            if n in m or n[0] == ("@" if m is self.iv else "$" if m is self.gv else "K"):
                m[n] = v
                return
        self.loc[n] = v

    def declare(self, n):
        if n not in self.loc and n[0] not in "@$K":
            self.loc[n] = None

    # -- expressions: (src) with the value computed now, in evaluation order
    def scalar(self):
        g = self.g
        return g.weighted([(6, "int"), (1, "nil"), (1, "true"), (1, "false")])

    def lit(self, kind):
        g = self.g
        if kind == "arr":
            l = [g.int(0, 9) for _ in range(g.int(0, 3))]
            return "[%s]" % ", ".join(map(str, l)), l
        if kind == "scalar":
            k = self.scalar()
            if k != "int":
                return k, {"nil": None, "true": True, "false": False}[k]
        n = g.int(-5, 20)
        return str(n), n

    def ok(self, v, kind):
        if kind == "arr":
            return isinstance(v, list)
        if kind == "int":
            return type(v) is int
        return not isinstance(v, list)

    def expr(self, kind, d=2):
        g = self.g
        self.budget -= 1
        if self.budget < 0:
            d = 0
        k = g.weighted([(4, "lit"), (4, "var"), (3, "t"), (3 if d else 0, "asg"), (2 if d else 0, "bin"), (1 if d else 0, "id"), (1 if d else 0, "tern"), (1 if d else 0, "resc"), (1 if d else 0, "elem"),
                        (1 if d else 0, "begin")])
        if k == "var":
            c = [n for n, v in self.all_vars().items() if self.ok(v, kind)]
            if c:
                n = g.choice(c)
                return n, self.all_vars()[n]
            k = "lit"
        if k == "lit":
            return self.lit(kind)
        if k == "t":
            s, v = self.expr(kind, d - 1) if d > 0 else self.lit(kind)
            i = self.tick()
            self.emit_log(i)
            return "t(%d, %s)" % (i, s), v
        if k == "asg":
            s, v = self.assign(d - 1, kind)
            return "(%s)" % s, v
        if k == "bin":
            if kind == "arr":
                a, va = self.expr("arr", d - 1)
                b, vb = self.expr("arr", d - 1)
                return "(%s + %s)" % (a, b), (va + vb)[:]
            a, va = self.expr("int", d - 1)
            op = g.choice(["+", "-", "*", "&", "|", "^"])
            if abs(va) > 10 ** 6:
                op = "&"
            b, vb = self.expr("int", d - 1)
            return "(%s %s %s)" % (a, op, b), arith(op, va, vb)
        if k == "id":
            s, v = self.expr(kind, d - 1)
            return "id(%s)" % s, v
        if k == "tern":
            c, vc = self.expr("scalar", 0)
            if not truthy(vc):
                self.dry += 1
            a, va = self.expr(kind, d - 1)
            if not truthy(vc):
                self.dry -= 1
            else:
                self.dry += 1
            b, vb = self.expr(kind, d - 1)
            if truthy(vc):
                self.dry -= 1
            return "(%s ? %s : %s)" % (c, a, b), va if truthy(vc) else vb
        if k == "resc":
            i = self.tick()
            self.emit_log(i)
            s, v = self.expr(kind, d - 1)
            return "begin; id(%s); bad(%d); rescue; %s; end" % (self.lit("int")[0], i, s), v
        if k == "begin":
            st, _ = self.assign(0, "scalar")
            s, v = self.expr(kind, d - 1)
            return "begin; %s; %s; end" % (st, s), v
        if k == "elem":
            if kind == "scalar":
                c = [n for n, v in self.all_vars().items() if isinstance(v, list)]
                if c:
                    n = g.choice(c)
                    l = self.all_vars()[n]
                    i = g.int(0, len(l))
                    return "%s[%d]" % (n, i), l[i] if i < len(l) else None
            return self.lit(kind)

    # -- targets: after the receiver and indices are evaluated
    def target(self, d, kind, traced=True):
        """(src, get, set): get() and set(v) act on the model"""
        g = self.g
        w = [(6, "var"), (4, "elem"), (3, "attr"), (3, "rec"), (2, "hash"), (1, "const"), (1, "w")]
        if kind == "arr":
            w = [(1, "var")]
        k = g.weighted(w)
        if k == "const" and not self.const_ok:
            k = "var"
        if k == "elem":
            c = [n for n, v in self.all_vars().items() if isinstance(v, list) and n not in self.frozen]
            if not c:
                k = "var"
        if k == "var":
            new = [n for n in ["u", "w"] if n not in self.loc] if self.new_ok and not self.dry else []
            c = [n for n in self.all_vars() if n not in self.frozen] + new
            c = [n for n in c if kind != "keep" or n in new or not isinstance(self.all_vars()[n], list)]
            n = g.choice(c)
            self.declare(n)
            return n, lambda: self.all_vars().get(n), lambda v: self.setvar(n, v), n
        if k == "const":
            n = g.choice(["K1", "K2", "K3"])
            return n, lambda: self.co.get(n, KeyError), lambda v: self.setvar(n, v), n
        tr = traced and g.bool(2, 3)

        def wrap(s):
            if not tr:
                return s
            i = self.tick()
            self.emit_log(i)
            return "t(%d, %s)" % (i, s)
        if k == "elem":
            n = g.choice(c)
            l = self.all_vars()[n]
            i = g.int(-len(l), len(l) + 1)
            rs = wrap(n)
            it = str(i)
            if traced and g.bool(1, 6):
                v = [m for m, q in self.all_vars().items() if type(q) is int and -len(l) <= q <= len(l) + 1]
                if v:
                    it = g.choice(v)
                    i = self.all_vars()[it]
            ix = wrap(it) if g.bool() else it

            def get():
                return l[i] if -len(l) <= i < len(l) else None

            def set_(v):
                if self.dry:
                    return
                while len(l) <= i:
                    l.append(None)
                l[i] = v
            return "%s[%s]" % (rs, ix), get, set_, None
        if k == "hash":
            key = g.choice([1, 2, Sym("a"), None])
            s = "%s[%s]" % (wrap("$hh"), wrap(insp(key)))
            return s, lambda: self.hh.get(key), lambda v: None if self.dry else self.hh.set(key, v), None
        r = g.choice(["$r1", "$r2"])
        m = self.rec[r]
        if k == "w":
            s = wrap(r) + g.choice([".w", "&.w"])
            return s, lambda: m.w, lambda v: None if self.dry else setattr(m, "w", v), None
        if k == "attr":
            def get():
                self.emit_log(Sym("v"))
                return m.v

            def set_(v):
                if self.dry:
                    return
                self.emit_log([Sym("sv"), v])
                m.v = v
            return wrap(r) + g.choice([".v", ".v", "&.v"]), get, set_, None
        n = g.int(0, 2)
        keys = [g.int(0, 2) for _ in range(n)]
        rs = wrap(r)
        ks = [wrap(str(q)) for q in keys]
        f = g.int(0, 3)
        if f == 0 and n:
            inner = "*[%s]" % ", ".join(ks)
        elif f == 1 and n == 2:
            inner = "%s, *[%s]" % (ks[0], ks[1])
        else:
            inner = ", ".join(ks)
        if n == 0:
            keys = [9]
            inner = "9"

        def get():
            self.emit_log([Sym("get"), keys])
            return m.h.get(tuple(keys))

        def set_(v):
            if self.dry:
                return
            self.emit_log([Sym("set"), keys + [v]])
            m.h[tuple(keys)] = v
        return "%s[%s]" % (rs, inner), get, set_, None

    def assign(self, d, kind):
        """a single assignment expression usable where a value of `kind` is needed"""
        g = self.g
        f = g.weighted([(4, "plain"), (5, "op"), (2, "nilnav")])
        if f == "nilnav" and kind == "scalar":
            self.dry += 1
            s, _ = self.expr("scalar", d)
            self.dry -= 1
            op = g.choice(["=", "+=", "||=", "&&=", "-="])
            r = g.choice(["$n", "t(%d, $n)" % self.tick(), "nil"])
            if r[0] == "t":
                self.emit_log(self.k)
            return "%s&.v %s %s" % (r, op, s), None
        if f == "op":
            ts, get, set_, name = self.target(d, kind)
            if name and name[0] == "K":
                if self.dry:
                    return self.lit(kind)
                cur = self.co.get(name)
                op = "||"
                ev = not truthy(cur)
                if not ev and not self.ok(cur, kind):
                    return self.lit(kind)
            else:
                cur = get()
                ops = []
                if type(cur) is int and kind != "arr":
                    ops = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"] if abs(cur) < 10 ** 6 else ["%", "&", ">>"]
                elif isinstance(cur, list):
                    ops = ["+", "-", "<<"] if len(cur) < 8 else []
                if self.ok(cur, kind) or not truthy(cur):
                    ops += ["||"] * (4 if cur is None else 2)
                if kind == "scalar" and not isinstance(cur, list) or kind == "int" and type(cur) is int or kind == "arr" and isinstance(cur, list):
                    ops += ["&&"] * 2
                if isinstance(cur, list) and kind in ("scalar", "int"):
                    ops = []
                if not ops:
                    # the target has been evaluated once already: use it as a plain one is not possible when get() logged
                    if name is None:
                        ops = ["||"]
                        if not (self.ok(cur, kind) or not truthy(cur)):
                            raise Skip()
                    else:
                        s, v = self.expr(kind, d)
                        set_(v)
                        return "%s = %s" % (ts, s), v
                op = g.choice(ops)
                ev = True
            if op in ("||", "&&"):
                ev = truthy(cur) == (op == "&&")
                if not ev:
                    self.dry += 1
                s, v = self.expr(kind, d)
                if not ev:
                    self.dry -= 1
                    return "%s %s= %s" % (ts, op, s), cur
                set_(v)
                return "%s %s= %s" % (ts, op, s), v
            if isinstance(cur, list):
                if op == "<<":
                    s, v = self.expr("scalar", d)
                    if not self.dry:
                        cur.append(v)
                        set_(cur)
                        v = cur
                    else:
                        v = cur
                    return "%s <<= %s" % (ts, s), v
                s, v = self.expr("arr", d)
                v = cur + v if op == "+" else [q for q in cur if not any(same(q, w) for w in v)]
                set_(v)
                return "%s %s= %s" % (ts, op, s), v
            if op in ("<<", ">>"):
                n = g.int(0, 3)
                v = cur << n if op == "<<" else cur >> n
                set_(v)
                return "%s %s= %d" % (ts, op, n), v
            if op in ("/", "%"):
                n = g.choice([1, 2, 3, -2, 7])
                v = cur // n if op == "/" else cur % n
                set_(v)
                return "%s %s= %d" % (ts, op, n), v
            s, w = self.expr("int", d)
            v = arith(op, cur, w)
            set_(v)
            return "%s %s= %s" % (ts, op, s), v
        ts, get, set_, name = self.target(d, kind)
        if name and name[0] == "K" and name in self.co or self.dry and name and name[0] == "K":
            return self.lit(kind)
        if d > 0 and g.bool(1, 4):
            s, v = self.assign(d - 1, kind)     # chained
        else:
            s, v = self.expr(kind, d)
        set_(v)
        return "%s = %s" % (ts, s), v

    def masgn(self):
        g = self.g
        save = set(self.frozen)
        form = g.weighted([(5, "list"), (3, "splat"), (3, "arr"), (1, "scalar"), (2, "swap")])
        if form == "swap":
            c = sorted(self.all_vars())
            c = [n for n in c]
            n = g.int(2, 3)
            names = [g.choice(c) for _ in range(n)]
            rs = [g.choice(c) for _ in range(n)]
            vals = [self.all_vars()[q] for q in rs]
            for a, v in zip(names, vals):
                self.setvar(a, v)
            return "%s = %s" % (", ".join(names), ", ".join(rs)), vals
        # targets first (no logs, no reads of assigned variables)
        n = g.int(2, 4)
        recv = [m for m, v in self.all_vars().items() if isinstance(v, list)]
        g_recv = [g.choice(recv)] if recv and g.bool() else []
        mut = set(self.frozen)
        self.frozen |= set(g_recv)
        tg = []
        for _ in range(n):
            if g_recv and g.bool(1, 3):
                m = g_recv[0]
                l = self.all_vars()[m]
                i = g.int(0, len(l))

                def set_(v, l=l, i=i):
                    while len(l) <= i:
                        l.append(None)
                    l[i] = v
                tg.append(("%s[%d]" % (m, i), set_, False))
                continue
            if g.bool(2, 3):
                new = [q for q in ["u", "w"] if q not in self.loc] if self.new_ok else []
                q = g.choice([q for q in self.all_vars() if q not in self.frozen] + new)
                self.declare(q)
                tg.append((q, lambda v, q=q: self.setvar(q, v), True))
                continue
            nk, self.new_ok = self.new_ok, False
            while True:
                ts, _, set_, name = self.target(0, "scalar", traced=False)
                if name is None and ts.split("[")[0] not in self.all_vars():
                    break
            self.new_ok = nk
            tg.append((ts, set_, False))
        arr_ok = all(f for _, _, f in tg)
        if form == "list":
            m = g.int(2, 5)
            parts, vals = [], []
            for _ in range(m):
                s, v = self.expr("scalar" if not (arr_ok and g.bool(1, 5)) else "arr", 1)
                parts.append(s)
                vals.append(v)
            rs, res = ", ".join(parts), vals
        elif form == "splat":
            parts, vals = [], []
            for i in range(g.int(1, 3)):
                if i == 0 or g.bool():
                    s, v = self.expr("arr", 1)
                    parts.append("*" + s if s[0] not in "b" else "*(" + s + ")")
                    vals += v
                else:
                    s, v = self.expr("scalar", 1)
                    parts.append(s)
                    vals.append(v)
            rs, res = ", ".join(parts), vals
        elif form == "arr":
            s, v = self.expr("arr", 1)
            rs, res, vals = s, v, list(v)
        else:
            s, v = self.expr("scalar", 1)
            rs, res, vals = s, v, [v]
        vals = list(vals)
        for i, (_, set_, _) in enumerate(tg):
            set_(vals[i] if i < len(vals) else None)
        self.frozen = save
        return "%s = %s" % (", ".join(x for x, _, _ in tg), rs), res

    def stmt(self):
        g = self.g
        self.log = []
        self.budget = 8
        wrap = g.weighted([(8, None), (2, "1.times { %s }"), (1, "[0].each do |q9| %s end"), (1, "lambda { %s }.call"), (1, "proc { |q9| %s }.call(1)"), (1, "eval('%s')"), (1, "begin; %s; ensure; id(0); end"),
                           (1, "if true; %s; end"), (1, "for q8 in [1]; %s; end")])
        self.new_ok = wrap in (None, "if true; %s; end", "begin; %s; ensure; id(0); end")
        form = g.weighted([(10, "asg"), (5, "masgn"), (2, "mod"), (2, "raise"), (2, "brk"), (2, "rescmod")])
        use = g.bool()
        nt = True
        if form == "asg":
            s, v = self.assign(2, g.weighted([(5, "scalar"), (2, "arr")]))
            nt = not (s.split(" = ")[0].isalnum() and s.split(" = ")[-1].isalnum())
        elif form == "masgn":
            s, v = self.masgn()
        elif form == "mod":
            c = g.bool()
            if not c:
                self.dry += 1
            kw = g.choice(["if", "unless"])
            s, v = self.assign(1, "scalar")
            if not c:
                self.dry -= 1
                v = None
            s = "%s %s %s" % (s, kw, "true" if c == (kw == "if") else "nil")
        elif form == "rescmod":
            ts, get, set_, name = self.target(1, "scalar", traced=False)
            if name and name[0] == "K":
                raise Skip()
            i = self.tick()
            if name is None:
                self.log = []
            self.emit_log(i)
            s, v = self.lit("scalar")
            set_(v)
            s = "%s = bad(%d) rescue %s" % (ts, i, s)
        elif form == "raise":
            ts, get, set_, name = self.target(1, "scalar")
            if name and name[0] == "K":
                raise Skip()
            cur = get()
            op = g.choice(["||", "&&", "+"])
            logs = True
            if op == "+" and type(cur) is not int:
                op = "||"
            i = self.tick()
            if op != "+" and truthy(cur) == (op == "||"):
                v = cur
            else:
                self.emit_log(i)
                v = None
            s = "begin; %s %s= bad(%d); rescue; nil; end" % (ts, op, i)
        else:
            ts, get, set_, name = self.target(1, "scalar")
            if name and name[0] == "K" or wrap == "eval('%s')":
                raise Skip()
            op = "="
            if g.bool(2, 3):
                cur = get()
                if cur is not None and type(cur) is not int:
                    raise Skip()
                op = "||=" if cur is None else g.choice(["+=", "&&=", "-="])
            e, v = self.expr("scalar", 1)
            s = "while true; %s %s (true ? (break %s) : 1); end" % (ts, op, e)
        if wrap and "times" in wrap or wrap and "each" in wrap or wrap and "for" in wrap:
            v2 = {"1": 1}.get(wrap[0], [0] if wrap[0] == "[" else [1])
            v = v2
        if wrap:
            if wrap.startswith("eval") and "'" in s:
                raise Skip()
            s = wrap % s
        if use or form in ("raise", "brk"):
            paren = "(%s)" % s
            if form == "asg" and not wrap and g.bool(1, 3):
                full = "p [(%s), $l]" % s
                self.src.append(full)
                self.src.append("$l = []")
            else:
                self.src.append("r = %s; p [r, $l]; $l = []" % paren)
                self.loc["r"] = None
            self.out.append(insp([v, self.log]))
        else:
            self.src.append("%s; p $l; $l = []" % s)
            self.out.append(insp(self.log))
        self.units.append((s, nt))
        st = self.all_vars()
        self.src.append("p [%s, $hh, $r1.raw, $r2.raw, $r1.w, $r2.w]" % ", ".join(st))
        self.out.append(insp(list(st.values()) + [self.hh] + [[m.v, list(m.h.values())] for m in self.rec.values()] + [m.w for m in self.rec.values()]))
        self.units.append((s, nt))
        if self.co:
            self.src.append("p [%s]" % ", ".join(self.co))
            self.out.append(insp(list(self.co.values())))
            self.units.append((s, nt))


class Skip(Exception):
    pass


def truthy(v):
    return v is not None and v is not False


def same(a, b):
    return type(a) is type(b) and a == b


def arith(op, a, b):
    return {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]


def build(g, part):
    m = Gen(g)
    where = g.weighted([(5, "top"), (2, "method")])
    m.const_ok = where == "top"
    n = g.int(1, 8)
    import copy
    for _ in range(n):
        snap = copy.deepcopy((m.loc, m.iv, m.gv, m.co, m.rec, m.hh))
        lens = len(m.src), len(m.out), len(m.units)
        try:
            m.stmt()
        except Skip:
            m.loc, m.iv, m.gv, m.co, m.rec, m.hh = snap
            m.dry = 0
            m.frozen = set()
            del m.src[lens[0]:], m.out[lens[1]:], m.units[lens[2]:]
    pre = PRE
    if where == "method":
        i = pre.index("r = nil\n")
        src = pre[:i] + "def go\n" + pre[i:] + "\n" + "\n".join(m.src) + "\nend\ngo"
    else:
        src = pre + "\n" + "\n".join(m.src)
    return Case(src, m.out, m.units, labels=[where], variant=part)


def strategy(part):
    return from_g(lambda g: build(g, part))
