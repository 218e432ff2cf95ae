"""C22: case/when and rescue select the first matching clause."""
from driver import Case
from gen import from_g

ID = "C22"
EXAMPLES = dict(quick=1500, thorough=45000)
VARIANTS = ["std", "stress"]
PARTS = ["case", "case", "case", "rescue", "rescue", "rescue", "mix", "stress"]
RULE = ("One evaluation = one call of a generated method, block or loop containing case expressions (literal, dense, sparse and mixed labels, splat-free lists, objects with ===) or rescue lists with one subject or raised exception: "
        "the clause selected, the pattern operands evaluated, the === calls made, the value and the exception left are compared with the model. Non-trivial: at least two patterns are tried, or the clause is selected by a jump table.")
ASSUMPTIONS = ["`when *array`, `retry` and `then` bodies with pattern matching (case/in) are not supported by ruruby and not generated",
               "=== and == of builtin classes are not redefined"]

PRE = """module U; def inspect; nm; end; end
def sh(v)
  if U === v
    v.nm
  elsif v.is_a?(Exception)
    v.class.inspect
  elsif v.class == Array
    r = "["
    v.each { |x| r << sh(x) << "," }
    r << "]"
  elsif v.is_a?(String)
    v.inspect
  else
    v.inspect
  end
end
$h = {}
class Q; attr_accessor :e; end
$q = Q.new
def t(n, v = n); $l << n; v; end
def pr(b, x); $l << ("p" + sh(x)); b; end
def o; $l = []; v = begin; sh(yield); rescue Exception => e; "!" + sh(e); end; puts(v + " " + $l.join(";")); end
"""


class V:
    """a Ruby value: source text, kind and model value"""
    __slots__ = ("src", "kind", "py", "sh", "cls")

    def __init__(self, src, kind, py, sh=None, cls=None):
        self.src, self.kind, self.py, self.sh, self.cls = src, kind, py, sh or src, cls


def I(n):
    return V(str(n), "int", n)


def F(x):
    return V(repr(x), "float", x)


def S(s):
    q = '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("#{", "\\#{") + '"'
    return V(q, "str", s)


def Y(s):
    return V(":" + s, "sym", s)


NIL, TRUE, FALSE = V("nil", "nil", None), V("true", "bool", True), V("false", "bool", False)
BIG = [4611686018427387903, -4611686018427387904, 4611686018427387904, -4611686018427387905, 9223372036854775807, 2 ** 64, 10 ** 20, -10 ** 20]
STRS = ["", "a", "b", "ab", "abc", "A", "a b", "é", "日本", "1", "0", "nil", "\n", "#{x}", "foo", "a\\b"]
SYMS = ["a", "b", "ab", "abc", "foo", "A", "nil", "x1"]


class Rais(Exception):
    def __init__(self, cls, obj=None):
        self.cls, self.obj = cls, obj


class Ret(Exception):
    pass


class Nxt(Exception):
    pass


class Brk(Exception):
    pass


BUILTIN = {"Integer": ("int",), "Float": ("float",), "String": ("str",), "Symbol": ("sym",), "NilClass": ("nil",), "Array": ("arr",), "Hash": ("hash",), "Numeric": ("int", "float"), "Proc": (), "Range": ("range",),
           "Regexp": (), "TrueClass": (), "FalseClass": (), "Object": None, "Kernel": None, "BasicObject": None, "Exception": ("exc",), "Class": ("cls",), "Module": ("cls",)}


class K:
    """user class of objects with === / =="""

    def __init__(self, name):
        self.name, self.teq, self.eq, self.steq, self.sup, self.mods = name, None, None, None, None, []

    def anc(self):
        c, out = self, []
        while c:
            out.append(c.name)
            out += c.mods
            c = c.sup
        return out

    def find(self, a):
        c = self
        while c:
            if getattr(c, a) is not None:
                return getattr(c, a)
            c = c.sup
        return None


# rules: Ruby source of a predicate over x and its model
RULES = [("x == 3", lambda v: v.kind in ("int", "float") and v.py == 3), ("true", lambda v: True), ("nil", lambda v: False), ("x.is_a?(Integer)", lambda v: v.kind == "int"), ("false", lambda v: False), ("x == \"a\"", lambda v: v.kind == "str" and v.py == "a"),
         ("x == :a ? 0 : nil", lambda v: v.kind == "sym" and v.py == "a"), ("x.nil?", lambda v: v.kind == "nil"), ("raise(TypeError)", None), ("x ? \"\" : false", lambda v: not (v.kind == "nil" or (v.kind == "bool" and not v.py)))]

# exceptions
EXC = {"Exception": None, "StandardError": "Exception", "ScriptError": "Exception", "SyntaxError": "ScriptError", "LoadError": "ScriptError", "ArgumentError": "StandardError", "TypeError": "StandardError", "IndexError": "StandardError",
       "StopIteration": "IndexError", "NameError": "StandardError", "NoMethodError": "NameError", "RuntimeError": "StandardError", "FrozenError": "RuntimeError", "ZeroDivisionError": "StandardError", "RangeError": "StandardError",
       "FloatDomainError": "RangeError", "FiberError": "StandardError", "RegexpError": "StandardError", "LocalJumpError": "StandardError", "SystemExit": "Exception"}
INTERNAL = [("1 / 0", "ZeroDivisionError"), ('Integer("x")', "ArgumentError"), ("1 + nil", "TypeError"), ("zork", "NameError"), ('eval("1 +")', "SyntaxError"), ("500.chr", "RangeError"), ('Regexp.new("(")', "RegexpError"),
            ('[3, "a"].sort', "ArgumentError"), ('raise "s"', "RuntimeError"), ("Zork", "NameError"), ("sh", "ArgumentError"), ("nil.zork", "NameError"), ("raise 3", "TypeError")]


class Gen:
    def __init__(self, g, part):
        self.g, self.part = g, part
        self.out = [PRE]
        self.exp, self.units, self.labels = [], [], []
        self.ks, self.objs, self.classes = [], [], {}
        self.ec = dict(EXC)          # exception class -> superclass
        self.emods = {}              # exception class -> modules
        self.eteq = {}               # module or class with its own ===
        self.n = 0
        self.sites = []
        self.trivial = True
        self.log = []

    def tag(self):
        self.n += 1
        return self.n

    # -- declarations
    def decl(self):
        g = self.g
        self.out.append("module M0; end\nmodule M1; end")
        for i in range(g.int(1, 3)):
            k = K("K%d" % i)
            k.sup = g.choice(self.ks) if self.ks and g.bool(1, 3) else None
            self.ks.append(k)
            self.classes[k.name] = k
            body = []
            if not k.sup:
                body.append("include U; def nm; @n; end; def initialize(n); @n = n; end")
            if g.bool(1, 3):
                m = "M%d" % g.int(0, 1)
                body.append("include " + m)
                k.mods.append(m)
            body += self.defs(k)
            self.out.append("class %s%s\n%s\nend" % (k.name, " < " + k.sup.name if k.sup else "", "\n".join(body)))
        for i in range(g.int(1, 4)):
            k = g.choice(self.ks)
            v = V("$u%d" % i, "obj", i, "u%d" % i, k)
            self.out.append("$u%d = %s.new(\"u%d\")" % (i, k.name, i))
            self.objs.append(v)
        self.out.append("class SS < String; end\nmodule EM0; end\nmodule EM1; end")
        for i in range(g.int(2, 5)):
            sup = g.choice([c for c in self.ec if c != "SystemExit"])
            if g.bool():
                sup = g.weighted([(3, "StandardError"), (1, "Exception"), (2, "RuntimeError")] + [(4, "E%d" % j) for j in range(i)])
            self.ec["E%d" % i] = sup
            ms = [m for m in ("EM0", "EM1") if g.bool(1, 4)]
            self.emods["E%d" % i] = ms
            self.out.append("class E%d < %s%s; end" % (i, sup, "".join("; include " + m for m in ms)))

    def defs(self, k):
        g, body = self.g, []
        if g.bool(2, 3):
            r = g.choice(RULES)
            k.teq = (r, k.name)
            body.append("def ===(x); $l << (\"%s=\" + @n + sh(x)); %s; end" % (k.name, r[0]))
        if g.bool(1, 3):
            r = g.choice(RULES[:-2])
            k.eq = (r, k.name)
            body.append("def ==(x); $l << (\"%s:\" + @n + sh(x)); %s; end" % (k.name, r[0].replace("x == 3", "3 == x").replace('x == "a"', '"a" == x').replace("x == :a", ":a == x")))
        if g.bool(1, 5):
            r = g.choice(RULES)
            k.steq = (r, k.name)
            body.append("def self.===(x); $l << (\"%s.\" + sh(x)); %s; end" % (k.name, r[0]))
        return body

    # -- values
    def value(self):
        g = self.g
        w = g.weighted([(6, "int"), (2, "float"), (5, "str"), (4, "sym"), (2, "nil"), (2, "bool"), (1, "arr"), (1, "hash"), (3, "obj"), (1, "ss"), (1, "big"), (1, "cls"), (1, "range")])
        if w == "int":
            return I(g.weighted([(8, g.int(-3, 12)), (2, g.int(-1100, 1100)), (1, g.choice([65, 97, 255, 256, 1023, 1024, 1025, 2047, 100000, -100000]))]))
        if w == "float":
            return F(g.choice([0.0, 1.0, 2.5, 3.0, -1.0, 7.5, 1e10, 100.0]))
        if w == "str":
            return S(g.choice(STRS))
        if w == "sym":
            return Y(g.choice(SYMS))
        if w == "nil":
            return NIL
        if w == "bool":
            return g.choice([TRUE, FALSE])
        if w == "arr":
            l = [g.choice([I(1), I(2), S("a"), NIL]) for _ in range(g.int(0, 2))]
            return V("[" + ", ".join(x.src for x in l) + "]", "arr", [(x.kind, x.py) for x in l], "[" + "".join(x.sh + "," for x in l) + "]")
        if w == "hash":
            x = g.choice([I(1), S("a"), NIL])
            return V("{1=>%s}" % x.src, "hash", (x.kind, x.py))
        if w == "obj":
            return g.choice(self.objs)
        if w == "ss":
            s = S(g.choice(STRS))
            return V("SS.new(%s)" % s.src, "str", s.py, s.sh, "SS")
        if w == "big":
            n = g.choice(BIG)
            return I(n)
        if w == "cls":
            c = g.choice(["Integer", "String", "Object"])
            return V(c, "cls", c)
        return g.choice([V("(1..3)", "range", (1, 3), "1..3")])

    # -- patterns: (source, function(subject) -> bool)
    def same(self, a, b):
        """a == b for builtin values"""
        num = ("int", "float")
        if a.kind in num and b.kind in num:
            return a.py == b.py
        if a.kind != b.kind:
            return False
        return a.py == b.py and type(a.py) is type(b.py)

    def rule(self, d, s, prefix):
        (src, f), nm = d
        if "==" in src and s.kind == "obj" and s.cls.find("eq"):
            raise Skip()
        self.log.append(prefix)
        if f is None:
            raise Rais("TypeError")
        return f(s)

    def pattern(self, subjvals, kinds=None):
        g = self.g
        w = kinds or g.weighted([(6, "lit"), (3, "range"), (4, "class"), (2, "re"), (2, "lam"), (4, "obj"), (2, "strexp"), (1, "raise"), (1, "expr"), (1, "kcls")])
        near = subjvals and g.bool(1, 3)
        if w == "lit":
            v = g.choice(subjvals) if near else self.value()
            if v.kind == "obj":
                w = "obj"
            elif v.kind in ("cls",):
                w = "class"
            elif v.kind == "range":
                return "(1..3)", lambda s: s.kind in ("int", "float") and 1 <= s.py <= 3
            else:
                src = v.src
                neg = src.startswith("-")
                return src, lambda s: self.litmatch(v, s)
        if w == "strexp":
            s0 = g.choice(STRS[:8])
            c = S(s0)
            return '"#{%s}%s"' % (c.src if '"' not in c.src[1:-1] else '""', ""), (lambda s: s.kind == "str" and s.py == s0) if "#" not in s0 else (lambda s: s.kind == "str" and s.py == s0)
        if w == "range":
            ty = g.weighted([(5, "i"), (2, "f"), (2, "s")])
            if ty == "s":
                a, b = sorted([g.choice(["a", "b", "c", "foo"]), g.choice(["a", "b", "abc", "z"])])
                ex = g.bool(1, 4)
                return '("%s"%s"%s")' % (a, "..." if ex else "..", b), lambda s: s.kind == "str" and a.encode() <= s.py.encode() and (s.py.encode() < b.encode() if ex else s.py.encode() <= b.encode())
            a, b = g.int(-3, 9), g.int(-3, 12)
            if ty == "f":
                a, b = a + 0.5, b + 0.5
            ex = g.bool(1, 4)
            sa = str(a)
            sb = str(b)
            src = "(%s%s%s)" % (sa, "..." if ex else "..", sb)
            if a >= 0 and b >= 0 and g.bool() and ty == "i":
                src = src[1:-1]
            return src, lambda s: s.kind in ("int", "float") and a <= s.py and (s.py < b if ex else s.py <= b)
        if w == "class":
            n = g.choice(list(BUILTIN) + [k.name for k in self.ks] * 2 + ["M0", "M1", "SS"])
            return n, lambda s: self.isa(s, n)
        if w == "kcls":
            n = g.choice(self.ks).name
            return n, lambda s: self.isa(s, n)
        if w == "re":
            import re
            r = g.choice(["a", "^a", "b$", "\\d", "[a-b]+", "^$", "o+", "."])
            return "/%s/" % r, lambda s: s.kind in ("str", "sym") and re.search(r.replace("$", "(?=\\n|\\Z)").replace("^(?=", "(?m:^)(?=") if r != "^$" else r"(?m:^$)", s.py) is not None
        if w == "lam":
            r = g.choice(RULES)
            t = self.tag()
            src = g.choice(["->(x) { $l << \"L%d\"; %s }", "proc { |x| $l << \"L%d\"; %s }", "lambda { |x| $l << \"L%d\"; %s }"]) % (t, r[0])
            if g.bool(1, 3):
                src = "(" + src + ")"
            elif src.startswith("proc") or src.startswith("lambda"):
                src = "(" + src + ")"
            return src, lambda s: self.rule((r, None), s, "L%d" % t)
        if w == "obj":
            v = g.choice(self.objs)
            return v.src, lambda s: self.objmatch(v, s)
        if w == "raise":
            return "raise(TypeError)", self.raiser
        # an expression evaluated for its value
        v = self.value()
        while v.kind in ("obj", "cls", "range"):
            v = self.value()
        src = g.choice(["[%s][0]", "(%s)", "begin; %s; end", "(true && %s)", "(1; %s)", "({a: %s}[:a])", "(if true then %s end)"]) % v.src
        return src, lambda s: self.litmatch(v, s)

    def raiser(self, s):
        raise Rais("TypeError")

    def isa(self, s, n):
        if n in self.classes:
            d = self.classes[n].find("steq")
            if d:
                return self.rule(d, s, "%s.%s" % (d[1], s.sh))
        if s.kind == "obj":
            return n in s.cls.anc() or n in ("Object", "Kernel", "BasicObject")
        if n == "SS":
            return s.cls == "SS"
        if n in self.classes or n in ("M0", "M1"):
            return False
        if n == "TrueClass":
            return s.py is True and s.kind == "bool"
        if n == "FalseClass":
            return s.py is False and s.kind == "bool"
        ks = BUILTIN[n]
        return ks is None or s.kind in ks

    def litmatch(self, v, s):
        if s.kind == "obj" and v.kind in ("int", "float", "str") and s.cls.find("eq"):
            raise Skip()
        if s.kind == "obj":
            return False
        return self.same(v, s)

    def objmatch(self, v, s):
        d = v.cls.find("teq")
        if d:
            return self.rule(d, s, "%s=%s%s" % (d[1], v.sh, s.sh))
        if s.kind == "obj" and s.py == v.py:
            return True
        d = v.cls.find("eq")
        if d:
            return self.rule(d, s, "%s:%s%s" % (d[1], v.sh, s.sh))
        return False

    # -- case expressions
    def labels_for(self, style):
        """list of lists of patterns for the clauses and suggested subjects"""
        g = self.g
        n = g.weighted([(3, 1), (4, 2), (3, 3), (2, 5), (1, 9)])
        subs = []
        cl = []
        if style in ("dense", "sparse", "lit"):
            for _ in range(n):
                ps = []
                for _ in range(g.weighted([(5, 1), (2, 2), (1, 4)])):
                    if style == "dense":
                        v = I(g.int(-4, 12) if g.bool(3, 4) else g.choice([1019, 1020, 900, -900]))
                    elif style == "sparse":
                        v = I(g.choice([0, 1, -1, 5, 1023, 1024, 1025, 2048, -2048, 1 << 31, -(1 << 31), 1 << 40] + BIG[:2] + BIG[2:]))
                    else:
                        v = g.choice([lambda: S(g.choice(STRS)), lambda: Y(g.choice(SYMS)), lambda: I(g.int(-3, 9)), lambda: NIL, lambda: TRUE, lambda: FALSE, lambda: I(g.choice(BIG))])()
                    subs.append(v)
                    ps.append((v.src, (lambda v: lambda s: self.litmatch(v, s))(v)))
                cl.append(ps)
            x = g.int(-5, 20)
            subs += [I(x), I(x + 1)]
            if style == "sparse":
                subs += [I(1024), I(1 << 31)]
        else:
            for _ in range(n):
                ps = []
                for _ in range(g.weighted([(5, 1), (3, 2), (1, 3)])):
                    src, f = self.pattern(subs)
                    if g.bool(1, 4):
                        t = self.tag()
                        src, f = "t(%d, %s)" % (t, src if not src.startswith("raise") else "nil"), (lambda t, f, r: lambda s: self.traced(t, f if not r else (lambda s: self.litmatch(NIL, s)), s))(t, f, src.startswith("raise"))
                    ps.append((src, f))
                cl.append(ps)
        return cl, subs

    def traced(self, t, f, s):
        self.log.append(str(t))
        return f(s)

    def case(self, subj, depth, inloop, value=True):
        """returns source lines (string) and an evaluator env -> value string"""
        g = self.g
        style = g.weighted([(3, "dense"), (3, "lit"), (2, "sparse"), (6, "mixed"), (2, "nosubj")])
        ns = style == "nosubj"
        self.labels.append("case:" + style)
        sep = g.choice(["then", ";", "\n"])
        if ns:
            cl, subs = [], []
            for _ in range(g.int(1, 4)):
                ps = []
                for _ in range(g.weighted([(4, 1), (2, 2)])):
                    k = g.int(0, 3)
                    if k == 0:
                        t, b = self.tag(), g.bool()
                        ps.append(("t(%d, %s)" % (t, "true" if b else g.choice(["nil", "false"])), (lambda t, b: lambda s: self.traced(t, lambda s: b, s))(t, b)))
                    else:
                        v = self.value()
                        while v.kind in ("obj", "arr", "hash", "cls", "range"):
                            v = self.value()
                        subs.append(v)
                        op = g.choice(["%s == %s", "%s.eql?(%s)"] if False else ["%s == %s"])
                        ps.append((op % (v.src, subj), (lambda v: lambda s: self.litmatch(v, s))(v)))
                cl.append(ps)
        else:
            cl, subs = self.labels_for(style)
        bodies = [self.body(subj, depth, inloop) for _ in cl]
        els = self.body(subj, depth, inloop) if g.bool(2, 3) else None
        t = self.tag() if g.bool(1, 5) and not ns else None
        sx = "t(%d, %s)" % (t, subj) if t else subj
        lines = "case" + ("" if ns else " " + sx) + g.choice([";", "\n", "\n"])
        for ps, b in zip(cl, bodies):
            sp = g.choice(["then", ";", "\n"]) if g.bool(1, 4) else sep
            lines += "when " + g.choice([", ", ",", ",\n"]).join(p[0] for p in ps) + (" then " if sp == "then" else sp + " ") + b[0] + "\n"
        if els:
            lines += "else" + g.choice(["\n", " ", ";"]) + els[0] + "\n"
        lines += "end"
        table = style in ("dense", "lit", "sparse")

        def run(s):
            if t:
                self.log.append(str(t))
            if table:
                self.trivial = False
            tried = 0
            for ps, b in zip(cl, bodies):
                for _, f in ps:
                    tried += 1
                    if tried > 1:
                        self.trivial = False
                    if f(s):
                        return b[1](s)
            if els:
                return els[1](s)
            return "nil"
        return lines, run, subs

    def body(self, subj, depth, inloop):
        g = self.g
        w = g.weighted([(8, "tag"), (2, "log"), (1, "subj"), (1, "empty"), (2, "case" if depth > 0 else "tag"), (1, "return"), (1, "next" if inloop else "tag"), (1, "break" if inloop else "tag"), (1, "raise"),
                        (2, "begin" if depth > 0 else "tag")])
        n = self.tag()
        if w == "tag":
            return ":b%d" % n, lambda s: ":b%d" % n
        if w == "log":
            def f(s):
                self.log.append(str(n))
                return str(n)
            return g.choice(["t(%d)", "t(%d)", "(x = t(%d); x)", "y = t(%d)"]).replace("x", "zz") % n, f
        if w == "subj":
            return "[%s]" % subj, lambda s: "[" + s.sh + ",]"
        if w == "empty":
            return "", lambda s: "nil"
        if w == "return":
            def f(s):
                raise Ret(":r%d" % n)
            return "return :r%d" % n, f
        if w == "next":
            def f(s):
                raise Nxt(":n%d" % n)
            return "next :n%d" % n, f
        if w == "break":
            def f(s):
                raise Brk(":k%d" % n)
            return "break :k%d" % n, f
        if w == "raise":
            c = g.choice(list(self.ec))

            def f(s):
                raise Rais(c)
            return "raise " + c, f
        if w == "case":
            src, run, _ = self.case(subj, depth - 1, inloop)
            return self.wrap(src, run)
        src, run = self.begin(subj, depth - 1, inloop)
        return self.wrap(src, run)

    def wrap(self, src, run):
        g = self.g
        k = g.int(0, 5)
        n = self.tag()
        if k == 0:
            return "x%d = %s\n[x%d, 1]" % (n, src, n), lambda s: "[" + run(s) + ",1,]"
        if k == 1:
            return "[1, (%s), 2]" % src, lambda s: "[1," + run(s) + ",2,]"
        if k == 2:
            def f(s):
                v = run(s)
                self.log.append(v)
                return ":l%d" % n
            return "$l << sh((%s)); :l%d" % (src, n), f
        if k == 3:
            def f(s):
                run(s)
                return ":w%d" % n
            return "%s\n:w%d" % (src, n), f
        return src, run

    # -- rescue
    def eanc(self, c):
        out = []
        while c:
            out.append(c)
            out += self.emods.get(c, [])
            c = self.ec[c]
        return out + ["Object", "Kernel", "BasicObject"]

    def ematch(self, n, e):
        if n in self.eteq:
            r, t = self.eteq[n]
            self.log.append("q%s" % t)
            if r == "raise":
                raise Rais("TypeError")
            return r
        return n in self.eanc(e)

    def rclass(self):
        """one element of a rescue list: source, evaluator() -> list of names"""
        g = self.g
        n = g.weighted([(6, g.choice(list(self.ec))), (3, "E%d" % g.int(0, len([c for c in self.ec if c[0] == "E" and c[1:].isdigit()]) - 1)), (1, g.choice(["EM0", "EM1"])), (1, g.choice(["Object", "Kernel"])),
                        (1, g.choice(list(self.eteq)) if self.eteq else "StandardError")])
        k = g.weighted([(6, "plain"), (2, "t"), (2, "splat"), (1, "bad"), (1, "raise"), (1, "expr")])
        if k == "plain":
            return n, lambda: [n]
        if k == "t":
            t = self.tag()

            def f():
                self.log.append(str(t))
                return [n]
            return "t(%d, %s)" % (t, n), f
        if k == "expr":
            return g.choice(["(%s)", "[%s][0]", "(nil || %s)", "::%s", "Object.const_get(:%s)"]) % n, lambda: [n]
        if k == "splat":
            l = [g.choice(list(self.ec)) for _ in range(g.int(0, 3))]
            return "*[%s]" % ", ".join(l), lambda: l
        if k == "bad":
            b = g.choice(["3", "nil", '"a"', "$u0", ":a"])
            return b, lambda: [None]

        def f():
            raise Rais("FrozenError")
        return "raise(FrozenError)", f

    def raising(self):
        """source of something that may raise and its model"""
        g = self.g
        k = g.weighted([(5, "user"), (4, "std"), (3, "internal"), (2, "none"), (1, "obj"), (1, "deep")])
        n = self.tag()
        if k == "none":
            return ":v%d" % n, lambda s: ":v%d" % n
        if k == "internal":
            src, c = g.choice(INTERNAL)
        else:
            c = g.choice([x for x in self.ec if x[0] == "E" and x[1:].isdigit()]) if k == "user" else g.choice(list(self.ec))
            src = g.choice(["raise %s", "raise %s, \"m\"", "raise %s.new", "raise %s.new(\"m\")", "raise(%s)", "t(raise(%s))", "[1, raise(%s)]", "[1].each { |zz| raise %s }", "proc { raise %s }.call", "1.times { 1.times { raise %s } }"]) % c
            if c == "StopIteration" and False:
                pass

        def f(s):
            raise Rais(c)
        return src, f

    def begin(self, subj, depth, inloop):
        g = self.g
        self.labels.append("begin")
        if depth > 0 and g.bool(1, 3):
            bsrc, brun = self.body(subj, depth - 1, inloop)
            if g.bool():
                a = self.raising()
                b0 = (bsrc, brun)
                bsrc, brun = (bsrc or "nil") + "\n" + a[0], lambda s: (b0[1](s), a[1](s))[1]
        else:
            bsrc, brun = self.raising()
        clauses = []
        for _ in range(g.weighted([(4, 1), (3, 2), (2, 3), (1, 0)])):
            lst = [self.rclass() for _ in range(g.weighted([(2, 0), (5, 1), (2, 2), (1, 3)]))]
            var = g.weighted([(2, None), (2, "e%d" % self.tag()), (1, "@e"), (1, "$e"), (1, "$h[%d]" % g.int(0, 2)), (1, "$q.e")])
            if lst and lst[-1][0] == "raise(FrozenError)":
                pass
            bod = self.body(subj, depth - 1, inloop)
            if var and g.bool(2, 3):
                b1 = bod
                bod = ("$l << sh(%s); %s" % (var, b1[0] or "nil"), None, b1[1])
            clauses.append((lst, var, bod))
        els = self.body(subj, depth - 1, inloop) if g.bool(1, 3) and clauses else None
        ens = None
        if g.bool(1, 3) or not clauses:
            n = self.tag()
            ens = ("t(%d)" % n, n)
        src = "begin" + g.choice(["\n", "; "]) + bsrc + "\n"
        for lst, var, bod in clauses:
            h = "rescue" + (" " + ", ".join(x[0] for x in lst) if lst else "") + (" => " + var if var else "")
            src += h + g.choice(["\n", ";", " then "]) + bod[0] + "\n"
        if els:
            src += "else\n" + els[0] + "\n"
        if ens:
            src += "ensure\n" + ens[0] + "\n"
        src += "end"

        def run(s):
            try:
                try:
                    v = brun(s)
                except Rais as e:
                    if clauses:
                        self.trivial = self.trivial and len(clauses) < 2 and all(len(c[0]) < 2 for c in clauses)
                    for lst, var, bod in clauses:
                        hit = False
                        if not lst:
                            hit = "StandardError" in self.eanc(e.cls)
                        for _, f in lst:
                            for n in f():
                                if n is None:
                                    raise Rais("TypeError")
                                if self.ematch(n, e.cls):
                                    hit = True
                                    break
                            if hit:
                                break
                        if hit:
                            if bod[1] is None:
                                self.log.append(e.cls)
                                return bod[2](s)
                            return bod[1](s)
                    raise
                if els:
                    return els[1](s)
                return v
            finally:
                if ens:
                    self.log.append(str(ens[1]))
        return src, run

    def redefs(self):
        g = self.g
        if self.part != "rescue" and g.bool():
            k = g.choice(self.ks)
            self.out.append("class %s\n%s\nend" % (k.name, "\n".join(self.defs(k))))
        else:
            n = g.choice(["EM0", "EM1"] + [c for c in self.ec if c[0] == "E" and c[1:].isdigit()])
            r = g.choice([True, False, "raise"])
            t = n + str(self.tag())
            subs = [c for c in self.ec if n in self.eanc(c)] if n in self.ec else [n]
            self.out.append("def %s.===(e); $l << \"q%s\"; %s; end" % (n, t, "raise TypeError" if r == "raise" else g.choice(["true", "e", "0"]) if r else g.choice(["nil", "false"])))
            self.eown = getattr(self, "eown", {})
            self.eown[n] = (r, t)
            self.eteq = {}
            for c in list(self.ec) + ["EM0", "EM1"]:
                for a in ([x for x in self.chain(c)]):
                    if a in self.eown:
                        self.eteq[c] = self.eown[a]
                        break

    def chain(self, c):
        out = []
        while c:
            out.append(c)
            c = self.ec.get(c)
        return out

    # -- sites
    def site(self):
        g = self.g
        k = len(self.sites)
        form = g.weighted([(5, "def"), (2, "map"), (2, "while"), (1, "lam"), (1, "each")])
        inloop = form in ("map", "while", "each")
        what = {"case": "case", "rescue": "begin"}.get(self.part) or g.choice(["case", "begin"])
        if what == "case":
            src, run, subs = self.case("x", 2, inloop)
        else:
            src, run = self.begin("x", 3, inloop)
            subs = [I(1)]
        bs, br = self.wrap(src, run)
        if form == "def":
            d = "def s%d(x)\n%s\nend" % (k, bs)
        elif form == "lam":
            d = "def s%d(x)\nf = lambda { |x|\n%s\n}\n[f.call(x)]\nend" % (k, bs)
        elif form == "map":
            d = "def s%d(x)\n[x, x].map { |x|\n%s\n}\nend" % (k, bs)
        elif form == "each":
            d = "def s%d(x)\n[[x]].each { |(x)|\n%s\n}\n:e\nend" % (k, bs)
            d = "def s%d(x)\n[1].each { |yy|\n%s\n}\n:e\nend" % (k, bs)
        else:
            d = "def s%d(x)\nii = 0\nwhile ii < 2\nii += 1\n%s\nend\nend" % (k, bs)

        def call(s):
            try:
                if form == "def":
                    return br(s)
                if form == "lam":
                    try:
                        v = br(s)
                    except Ret as r:
                        v = r.args[0]
                    return "[" + v + ",]"
                if form == "map":
                    r = "["
                    for _ in range(2):
                        try:
                            r += br(s) + ","
                        except Nxt as x:
                            r += x.args[0] + ","
                        except Brk as x:
                            return x.args[0]
                    return r + "]"
                if form == "each":
                    try:
                        br(s)
                    except Nxt:
                        pass
                    except Brk:
                        pass
                    return ":e"
                for _ in range(2):
                    try:
                        br(s)
                    except Nxt:
                        pass
                    except Brk as x:
                        return x.args[0]
                return "nil"
            except Ret as r:
                return r.args[0]
        self.out.append(d)
        self.sites.append((k, call, subs, d))
        self.labels.append("site:" + form)

    def step(self):
        g = self.g
        if self.sites and g.bool(1, 14):
            self.redefs()
            return
        if not self.sites or (len(self.sites) < 5 and g.bool(1, 4)):
            self.site()
        k, call, subs, d = g.choice(self.sites)
        s = g.choice(subs) if subs and g.bool() else self.value()
        self.log, self.trivial = [], True
        try:
            v = call(s)
        except Rais as e:
            v = "!" + e.cls
        except Skip:
            return
        self.exp.append(v + " " + ";".join(self.log))
        self.out.append("o { s%d(%s) }" % (k, s.src))
        self.units.append((d + s.src, not self.trivial))


class Skip(Exception):
    pass


def build(g, part):
    p = "mix" if part == "stress" else part
    G_ = Gen(g, p)
    G_.decl()
    g.rep(3, 24, G_.step)
    return Case("\n".join(G_.out) + "\n", "\n".join(G_.exp).split("\n") if G_.exp else [], units=G_.units, labels=G_.labels, variant="stress" if part == "stress" else "std")


def strategy(part):
    return from_g(lambda g: build(g, part))
