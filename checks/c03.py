"""C03: an operator expression is the method call, in every syntactic position and for every receiver."""
from driver import Case
from gen import from_g

ID = "C03"
EXAMPLES = dict(quick=1300, thorough=40000)
VARIANTS = ["std", "stress"]
PARTS = ["std", "std", "std", "stress"]
RULE = ("One evaluation = one operator expression (binary, unary, index, index assignment; in value, condition, op-assign, case, explicit-call, send, Method-object or literal-operand position) applied at a reused call site to one "
        "pair of operands, its value and the log of user-defined operator calls compared with the model of the user's definitions or, for builtin definitions, with what __send__ gives. Non-trivial: an operand is an instance of a "
        "user-defined class, or the form is not the plain value form.")
ASSUMPTIONS = ["operators of builtin classes themselves are not redefined (by design ruruby inlines them)", "for operators the user's class does not define only the agreement with __send__ is decided here; builtin semantics are C01, C02, C12-C15"]

BIN = ["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "==", "!=", "<", "<=", ">", ">=", "<=>", "===", "=~", "!~"]
DEFB = [o for o in BIN if o != "!~"]
OPA = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"]
UN = {"-": "-@", "~": "~", "!": "!"}
OBJ = ("==", "!=", "===", "=~", "<=>", "!")
PRE = """class Boom < StandardError; end
module U; def inspect; nm; end; end
def sh(v)
  if U === v
    v.nm
  elsif v.is_a?(Proc)
    "P"
  elsif v.is_a?(Regexp)
    "R"
  elsif v.class == Array
    r = "["
    v.each { |x| r << sh(x) << "," }
    r << "]"
  else
    v.inspect
  end
end
def o; $l = []; v = begin; sh(yield); rescue StandardError => e; sh(e.class); end; v + " " + $l.join(";"); end
def two(a, b); puts(a == b ? "ok" : a + " // " + b); end"""

INTS = ["0", "1", "-1", "7", "2", "2147483647", "-2147483648", "2147483648", "4611686018427387903", "-4611686018427387904", "4611686018427387904", "100000000000000000000", "-100000000000000000000"]
SMALL = ["0", "1", "2", "3", "7", "13", "62", "64"]
VALS = ["0.0", "1.5", "-2.0", "2.0", '"ab"', '""', '"b"', '"%d"', "[1, 2]", "[]", "[[1], nil]", "{1 => 2}", "nil", "true", "false", ":a", ":b", "(1..3)", "(1...3)", "/a/", "/^$/", "Integer", "String", "Object",
        "Comparable", "proc { |x| x }", "Complex(1, 2)"]
FLO = ["0.0", "1.5", "-2.0", "2.0"]
LITS = ["1", "0", "-1", "7", "2147483647", "-2147483648", "2147483648", "1.5", "0.0", '"ab"', "nil", "true", ":a", "[1, 2]", "/a/", "4611686018427387903"]
BASES = {"Array": "([1, 2])", "String": '("ab")', "Hash": "", "StandardError": '("m")', "Struct.new(:a, :b)": "(1, 2)"}
RETS = [("nil", False), ("true", True), ("false", False), ("1", True), ('"s"', True), (":q", True), ("[3]", True), ("$u", True), ("oo", None), ("raise", None)]


BIGR = ("*", "**", "<<", ">>", "[]", "[]=")


def shlit(s):
    if s == "[3]":
        return "[3,]"
    if s == "$u":
        return "Uobj"
    return s


class D:
    def __init__(self, ret, truthy, arity, tag):
        self.ret, self.truthy, self.arity, self.tag = ret, truthy, arity, tag


class Cls:
    pass


class Gen:
    def __init__(self, g):
        self.g = g
        self.out = [PRE, "class UU; include U; def nm; 'Uobj'; end; end; $u = UU.new"]
        self.exp = []
        self.units = []
        self.cls = []
        self.sites = []
        self.n = 0
        self.labels = []

    def tag(self):
        self.n += 1
        return "t%d" % self.n

    def mkdef(self, op, c):
        """source of a definition of op and its model"""
        g = self.g
        ret, tr = g.choice(RETS)
        t = self.tag()
        name = op
        if op in ("-@", "~", "!"):
            if ret == "oo":
                ret, tr = "1", True
            ps, ar = "", (0, 0)
            args = ""
        elif op == "[]":
            ps, ar = g.choice([("oo", (1, 1)), ("*oo", (0, 9)), ("oo, z = 4", (1, 2))])
        elif op == "[]=":
            ps, ar = g.choice([("x, oo", (2, 2)), ("*oo", (0, 9))])
        else:
            ps, ar = g.weighted([(8, ("oo", (1, 1))), (1, ("oo = 5", (0, 1))), (1, ("*oo", (0, 9))), (1, ("oo, b", (2, 2))), (1, ("", (0, 0)))])
        body = "$l << \"%s\"%s; %s" % (t, " << sh(oo)" if "oo" in ps else "", "raise Boom" if ret == "raise" else "oo" if ret == "oo" and "oo" in ps else "nil" if ret == "oo" else ret)
        if ret == "oo" and "oo" not in ps:
            ret, tr = "nil", False
        d = D(ret, tr, ar, t)
        d.splat = "*oo" in ps
        d.arg = "oo" in ps
        d.multi = "z" in ps
        d.setter = ps == "x, oo"
        return name, ps, body, d

    def newclass(self):
        g = self.g
        c = Cls()
        i = len(self.cls)
        c.name = "C%d" % i
        c.base = g.weighted([(8, None), (2, "Array"), (2, "String"), (1, "Hash"), (1, "StandardError"), (1, "Struct.new(:a, :b)")])
        c.sup = None
        if c.base is None and self.cls and g.bool(1, 3):
            c.sup = g.choice(self.cls)
            if c.sup.base is not None:
                c.sup = None
        c.args = BASES.get(c.base, "")
        c.m = {}      # direct
        c.inc = {}
        c.pre = {}
        c.sing = {}
        c.mm = c.base is None and c.sup is None and g.bool(1, 4)
        L = []
        head = "class %s%s" % (c.name, " < " + (c.base or c.sup.name) if c.base or c.sup else "")
        mods = []
        for kind, tab in (("include", c.inc), ("prepend", c.pre)):
            if g.bool(1, 4):
                mn = "%s%d" % ("I" if kind == "include" else "P", i)
                L.append("module %s\n%s\nend" % (mn, "\n".join(self.defs(tab, g.int(1, 4)))))
                mods.append("  %s %s" % (kind, mn))
        L.append(head)
        L.append("  include U")
        L += mods
        L.append("  def nm; '%s'; end" % c.name)
        L += self.defs(c.m, g.int(1, 7))
        if c.mm:
            L.append("  def method_missing(n, *a); $l << \"mm\" << n.to_s << sh(a); 9; end")
        L.append("end")
        c.hs = g.bool(1, 4)
        if c.hs:
            L.append("def mk%d\n  zz = %s.new%s" % (i, c.name, c.args))
            if g.bool():
                L += self.defs(c.sing, g.int(1, 3), "zz.")
            else:
                L.insert(0, "module S%d\n%s\nend" % (i, "\n".join(self.defs(c.sing, g.int(1, 3)))))
                L.append("  zz.extend(S%d)" % i)
            L.append("  zz\nend")
        self.out.append("\n".join(L))
        self.cls.append(c)
        self.labels.append("base:" + (c.base or "Object"))

    def defs(self, tab, k, pfx=""):
        r = []
        for _ in range(k):
            op = self.g.choice(DEFB + ["-@", "~", "!", "[]", "[]=", "[]", "[]="])
            if pfx and op in ("!=",):
                op = "=="
            name, ps, body, d = self.mkdef(op, None)
            r.append("  def %s%s%s; %s; end" % (pfx, name, "(%s)" % ps if ps else "", body))
            tab[op] = d
        return r

    def find(self, c, sing, op):
        """('def', D) | ('mm',) | None (builtin)"""
        tabs = [c.sing] if sing else []
        k = c
        while k is not None:
            tabs += [k.pre, k.m, k.inc]
            if k.sup is None:
                root = k
            k = k.sup
        for t in tabs:
            if op in t:
                return ("def", t[op])
        if root.mm and op not in OBJ:
            return ("mm",)
        return None

    def operand(self, right=None, op=None):
        """(source, shown, class or None, singleton)"""
        g = self.g
        if self.cls and g.bool(3, 5) and not (right and op in ("*", "**", "<<", ">>") and False):
            c = g.choice(self.cls)
            if c.hs and g.bool():
                return "mk%s" % c.name[1:], c.name, c, True
            return c.name + ".new" + c.args, c.name, c, False
        if right and op in BIGR:
            v = g.choice(SMALL) if g.bool() else g.choice(VALS)
        else:
            v = g.choice(INTS) if g.bool() else g.choice(VALS)
        return v, v, None, False

    def call(self, recv, op, args):
        """outcome of the user-defined call: (value shown, truthy, log) or None when builtin"""
        src, shown, c, sing = recv
        if c is None:
            return None
        f = self.find(c, sing, op)
        if f is None:
            return None
        if f[0] == "mm":
            return "9", True, "mm;%s;[%s]" % (op, "".join(self.shown(a) + "," for a in args))
        d = f[1]
        if not d.arity[0] <= len(args) <= d.arity[1]:
            return "ArgumentError", "raise", ""
        log = d.tag
        arg = None
        if d.arg:
            if d.splat:
                arg = "[" + "".join(self.shown(a) + "," for a in args) + "]"
            elif d.setter:
                arg = self.shown(args[1])
            else:
                arg = self.shown(args[0]) if args else "5"
            log += ";" + arg
        if d.ret == "raise":
            return "Boom", "raise", log
        if d.ret == "oo":
            if d.splat:
                return arg, True, log
            if d.setter:
                return arg, True, log
            a = args[0] if args else ("5", "5", None, False)
            return arg, a[0] not in ("nil", "false"), log
        return shlit(d.ret), d.truthy, log

    SHOWN = {"/a/": "R", "/^$/": "R", "[1, 2]": "[1,2,]", "[[1], nil]": "[[1,],nil,]", "{1 => 2}": "{1=>2}", "(1..3)": "1..3", "(1...3)": "1...3"}

    def shown(self, a):
        return self.SHOWN.get(a[1], a[1])

    def usable(self, a):
        return a[2] is not None or not a[0].startswith(("proc", "Complex"))

    # ---- sites
    def newsite(self):
        """method definition 'def sK(l, r)' with the form; kind tells how to derive the expectation"""
        g = self.g
        k = len(self.sites)
        what = g.weighted([(10, "bin"), (3, "un"), (3, "idx"), (3, "set"), (2, "oset")])
        lit = None
        if what == "bin":
            op = g.choice(BIN)
            r = "r"
            if g.bool(2, 5):
                lit = g.choice(LITS)
                if op in BIGR and len(lit) > 5:
                    lit = "7"
                r = lit
            e = "l %s %s" % (op, r)
            form = g.weighted([(4, "plain"), (5, "cond"), (3, "opa"), (2, "call"), (1, "send"), (1, "meth"), (1, "case"), (1, "blk"), (1, "nested")])
            if form == "opa" and op not in OPA:
                form = "cond"
            if form == "case" and op != "===":
                form = "cond"
            if form == "call" and op in ("!=", "!~"):
                form = "plain"
            if form == "meth" and op == "!~":
                form = "plain"
            call = "l.%s(%s)"
            if form == "plain":
                b = g.choice(["%s", "(%s)", "return %s", "x = %s; x", "x, y = (%s), 1; x", "[%s][0]", "begin; %s; ensure; 1; end", "{a: (%s)}[:a]"]) % e
                kind = "val"
            elif form == "nested":
                b = "a = 1; b = 2; [a, (%s), b][1]" % e
                kind = "val"
            elif form == "blk":
                b = g.choice(["[r].map { |r| %s }[0]", "x = nil; 1.times { x = (%s) }; x", "proc { %s }.call", "[l].each { |l| return(%s) }"]) % e
                kind = "val"
            elif form == "cond":
                b, kind = self.cond(e), "cond"
            elif form == "case":
                b = g.choice(["case %s\nwhen l then :T\nelse :F\nend", "case %s\nwhen l\n:T\nelse\n:F\nend", "x = %s; case x; when l; :T; else :F; end"]) % r
                kind = "cond"
            elif form == "opa":
                b = g.choice(["x = l; x %s= %s; x", "@x = l; @x %s= %s; @x", "$x = l; $x %s= %s; $x", "h = [l]; h[0] %s= %s; h[0]", "h = {1 => l}; h[1] %s= %s; h[1]", "x = l; y = (x %s= %s); y",
                              "x = l; 1.times { x %s= %s }; x", "h = [0, l]; i = 1; h[i] %s= %s; h[1]", "x = nil; x ||= l; x %s= %s; x"]) % (op, r)
                kind = "val"
            elif form == "call":
                b = g.choice([call % (op, r), "l.%s %s" % (op, r), "l&.%s(%s)" % (op, r), "l .%s(*[%s])" % (op, r), "l\n.%s(%s)" % (op, r)])
                if "&." in b:
                    b = "l.nil? ? (%s) : (%s)" % (e, b)
                kind = "val"
            elif form == "send":
                b = g.choice(["l.send(:%s, %s)", "l.send(\"%s\", %s)", "l.send(*[:%s, %s])"]) % (op, r)
                kind = "val"
            else:
                b = g.choice(["l.method(:%s).call(%s)", "m = l.method(:%s); m[%s]", "m = l.method(:%s); m.(%s)"]) % (op, r)
                kind = "meth"
            if r != "r" and g.bool(1, 6) and form in ("plain", "cond"):
                b = b.replace("l " + op + " " + r, ("(%s)" % r if r[0] == "-" else r) + " " + op + " r")
                s = dict(op=op, form=form, kind=kind, lit=lit, swap=True, body=b, what=what)
            else:
                s = dict(op=op, form=form, kind=kind, lit=lit, swap=False, body=b, what=what)
        elif what == "un":
            o = g.choice(["-", "~", "!", "!"])
            op = UN[o]
            e = o + "l"
            form = g.weighted([(3, "plain"), (3, "cond"), (1, "call"), (1, "send")])
            if form == "plain":
                b, kind = g.choice(["%s", "x = %s; x", "[%s][0]", "return(%s)"]) % e, "val"
            elif form == "cond":
                b, kind = self.cond(e), "cond"
            elif form == "call":
                b, kind = "l." + op, "val"
            else:
                b, kind = "l.send(:%s)" % op, "val"
            s = dict(op=op, form=form, kind=kind, lit=None, swap=False, body=b, what=what)
        elif what == "idx":
            op = "[]"
            r = "r"
            if g.bool():
                lit = g.choice(["0", "1", "3", "-1", "-5", "65536", "4294967296", ":a", "nil", '"a"'])
                r = lit
            e = "l[%s]" % r
            form = g.weighted([(4, "plain"), (3, "cond"), (1, "call"), (1, "send"), (1, "meth")])
            if form == "plain":
                b, kind = g.choice(["%s", "x = %s; x", "[%s][0]", "return %s"]) % e, "val"
            elif form == "cond":
                b, kind = self.cond(e), "cond"
            elif form == "call":
                b, kind = "l.[](%s)" % r, "val"
            elif form == "send":
                b, kind = "l.send(:[], %s)" % r, "val"
            else:
                b, kind = "l.method(:[]).call(%s)" % r, "meth"
            s = dict(op=op, form=form, kind=kind, lit=lit, swap=False, body=b, what=what)
        elif what == "set":
            op = "[]="
            r = "r"
            if g.bool():
                lit = g.choice(["0", "1", "3", "-1", "-5", ":a", "nil", '"a"'])
                r = lit
            form = g.weighted([(4, "plain"), (2, "cond"), (1, "masgn"), (1, "stmt"), (1, "send")])
            if form == "plain":
                b = g.choice(["x = (l[%s] = 6); [x, l]", "x = l[%s] = 6; [x, l]", "x = [(l[%s] = 6)]; [x[0], l]"]) % r
            elif form == "cond":
                b = "x = nil; if (l[%s] = 6) then x = 6 else x = 7 end; [x, l]" % r
            elif form == "masgn":
                b = g.choice(["l[%s], y = 6, 7; [6, l]", "y, l[%s] = 7, 6; [6, l]"]) % r
            elif form == "stmt":
                b = g.choice(["l[%s] = 6; [6, l]", "1.times { l[%s] = 6 }; [6, l]"]) % r
            else:
                b = "l.send(:[]=, %s, 6); [6, l]" % r
            s = dict(op=op, form=form, kind="set", lit=lit, swap=False, body=b, what=what)
        else:
            op = g.choice(OPA)
            r = "r"
            if g.bool():
                lit = g.choice(["0", "1", "-1", ":a"])
                r = lit
            b = g.choice(["x = (l[%s] %s= 6); [x, l]", "l[%s] %s= 6; [0, l]"]) % (r, op)
            s = dict(op=op, form="oset", kind="oset", lit=lit, swap=False, body=b, what=what)
        s["k"] = k
        self.sites.append(s)
        self.out.append("def s%d(l, r)\n  %s\nend" % (k, s["body"]))
        self.labels.append(s["form"] + ":" + s["op"])
        return s

    def cond(self, e):
        g = self.g
        return g.choice(["if %s then :T else :F end", "unless %s then :F else :T end", "%s ? :T : :F", "x = :F; while %s; x = :T; break; end; x", "x = :T; until %s; x = :F; break; end; x", "x = :F; x = :T if %s; x",
                         "x = :T; x = :F unless %s; x", "(%s) && :T || :F", "if (%s) && true then :T else :F end", "if true && %s then :T else :F end" if not e.startswith("x") else "if %s then :T else :F end",
                         "if (%s) || false\n:T\nelse\n:F\nend", "case\nwhen %s then :T\nelse :F\nend", "if false then 1 elsif %s then :T else :F end", "x = :F; begin; x = :T; end if %s; x", "if nil || (%s) then :T else :F end",
                         "x = :F; i = 0; while i < 1 && (%s); x = :T; i += 1; end; x", "return :T if %s; :F"]).replace("%s", e)

    def one(self):
        g = self.g
        if self.cls and g.bool(1, 12):
            # (re)definition after the sites have been used
            c = g.choice(self.cls)
            tab, mod = g.choice([(c.m, "class " + c.name)] + ([(c.inc, "module I%s" % c.name[1:])] if c.inc else []) + ([(c.pre, "module P%s" % c.name[1:])] if c.pre else []))
            self.out.append("%s\n%s\nend" % (mod, "\n".join(self.defs(tab, g.int(1, 2)))))
            return
        if not self.sites or (len(self.sites) < 8 and g.bool(2, 5)):
            s = self.newsite()
        else:
            s = g.choice(self.sites)
        l = self.operand(False, s["op"])
        r = self.operand(True, "[]=" if s["what"] == "oset" else s["op"])
        if s["lit"] is not None:
            lv = (s["lit"], s["lit"], None, False)
            if s["swap"]:
                l, rr = lv, r
                if s["op"] in BIGR and len(r[0]) > 5 and r[2] is None:
                    r = rr = ("3", "3", None, False)
            else:
                rr = lv
        else:
            rr = r
        L, R = l, rr
        k = s["k"]
        callsrc = "s%d(%s, %s)" % (k, l[0], r[0])
        if g.bool(1, 6):
            callsrc = "z = nil; 2.times { $l = []; z = %s }; z" % callsrc
        nt = L[2] is not None or R[2] is not None or s["form"] != "plain"
        op = s["op"]
        absv = None
        if op in ("==", "!=") and L[2] is None and L[0] in FLO and (R[2] is not None or R[0] not in FLO + INTS):
            return
        if s["kind"] in ("val", "cond", "meth"):
            args = [] if s["what"] == "un" else [R]
            if all(self.usable(a) for a in args):
                if op == "!~" or (op == "!=" and self.call(L, "!=", args) is None):
                    x = self.call(L, "=~" if op == "!~" else "==", args)
                    if op == "!~" and L[2] is not None and self.find(L[2], L[3], "!~"):
                        x = None
                    if x and x[1] != "raise":
                        x = ("false" if x[1] else "true", not x[1], x[2])
                    absv = x
                else:
                    absv = self.call(L, op, args)
                if s["kind"] == "meth" and absv and L[2] is not None and op != "!=" and self.find(L[2], L[3], op)[0] == "mm":
                    absv = None
                    s = dict(s, kind="skip")
            if absv is not None:
                v, t, log = absv
                if s["kind"] == "cond" and t != "raise":
                    v = ":T" if t else ":F"
                self.exp.append(v + " " + log)
                self.out.append("puts(o { %s })" % callsrc)
            elif s["kind"] != "skip":
                a = "l.__send__(:%s%s)" % (op, "" if s["what"] == "un" else ", r")
                if s["kind"] == "cond":
                    a = "(%s) ? :T : :F" % a
                elif s["kind"] == "meth" and L[2] is not None:
                    a = "l.method(:%s); %s" % (op, a)
                self.exp.append("ok")
                self.out.append("two(o { l = %s; r = %s; %s }, o { %s })" % (L[0], R[0], a, callsrc))
            else:
                return
        elif s["kind"] == "set":
            six = ("6", "6", None, False)
            if self.usable(R):
                absv = self.call(L, "[]=", [R, six])
            if absv is not None and not (L[2].base in ("Array", "String", "Hash", "Struct.new(:a, :b)")):
                v, t, log = absv
                self.exp.append(("[6,%s,]" % L[2].name if t != "raise" else v) + " " + log)
                self.out.append("puts(o { %s })" % callsrc)
            else:
                self.exp.append("ok")
                self.out.append("two(o { l = %s; r = %s; l.__send__(:[]=, r, 6); [6, l] }, o { %s })" % (L[0], R[0], callsrc))
        else:
            v = "[x, l]" if s["body"].startswith("x = ") else "[0, l]"
            self.exp.append("ok")
            self.out.append("two(o { l = %s; r = %s; x = l.__send__(:[], r).__send__(:%s, 6); l.__send__(:[]=, r, x); %s }, o { %s })" % (L[0], R[0], op, v, callsrc))
        self.units.append((callsrc + "|" + s["body"] + "|" + (absv[2] if absv else ""), nt))


def build(g, part):
    G_ = Gen(g)
    for _ in range(g.int(1, 3)):
        G_.newclass()
    g.rep(3, 24, G_.one)
    return Case("\n".join(G_.out) + "\n", G_.exp, units=G_.units, labels=G_.labels, variant=part)


def strategy(part):
    return from_g(lambda g: build(g, part))
