"""C11: constants, class variables, instance variables and globals resolve in their scopes, whatever was cached before."""
from driver import Case
from gen import from_g

ID = "C11"
EXAMPLES = dict(quick=3500, thorough=100000)
VARIANTS = ["std", "stress"]
PARTS = ["const", "const", "const", "cvar", "cvar", "ivar", "mix", "stress"]
RULE = ("One evaluation = one read (bare, scoped, conditional, defined?, reflective) of a constant, class variable, instance variable or global from one site (class body, instance, singleton or module method, block, proc, eval, default "
        "argument, class << self) at one point of the history of definitions, assignments, inclusions and reopenings, compared with a model of Ruby's lookup rules. Non-trivial: the name is defined in at least two scopes, or the site "
        "was used before, or the lookup goes through an ancestor.")
ASSUMPTIONS = ["const_missing, private_constant, remove_const and class_variable_get are not supported by ruruby; autoload is not generated (files)",
               "a class variable is never defined in two classes of one ancestor chain (Ruby reports it as overtaken)"]

PRE = """def sh(v)
  v.is_a?(Module) ? v.inspect : v.inspect
end
def o; v = begin; sh(yield); rescue NameError; "!N"; rescue RuntimeError; "!R"; rescue TypeError; "!T"; end; puts v; end
def blk; yield; end
"""
NAMES = ["A", "B", "C", "D"]
CONSTS = ["X", "Y", "Z"]


class Mod:
    def __init__(self, name, kind, parent, sup=None):
        self.name, self.kind, self.parent, self.sup = name, kind, parent, sup
        self.consts, self.cv, self.iv = {}, {}, {}
        self.inc, self.pre, self.ext = [], [], []
        self.subs = []

    @property
    def path(self):
        return self.name if self.parent is None or self.parent.name == "Object" else self.parent.path + "::" + self.name

    def anc(self):
        out = list(self.pre)
        out.append(self)
        for m in self.inc:
            out += m.anc()
        if self.sup:
            out += self.sup.anc()
        return out


class NE(Exception):
    pass


class Gen:
    def __init__(self, g, part):
        self.g, self.part = g, part
        self.out = [PRE]
        self.exp, self.units, self.labels = [], [], []
        self.obj = Mod("Object", "class", None)
        self.mods = []
        self.n = 0
        self.v = 0
        self.sites = []          # dict(call src function, eval fn, used)
        self.gv = {}
        self.objs = []
        self.loc = []

    def uid(self):
        self.n += 1
        return self.n

    def val(self):
        self.v += 1
        return self.v

    # -- lookups
    def lex(self, cref, name):
        """bare constant: lexical, then ancestors of the innermost, then Object"""
        for m in reversed(cref):
            if name in m.consts:
                return m.consts[name]
        base = cref[-1] if cref else self.obj
        return self.inh(base, name, True)

    def inh(self, base, name, with_obj):
        """own table first, then ancestors"""
        if name in base.consts:
            return base.consts[name]
        for m in base.anc():
            if m is self.obj and not with_obj and base is not self.obj:
                continue
            if name in m.consts:
                return m.consts[name]
        if with_obj and name in self.obj.consts:
            return self.obj.consts[name]
        raise NE("!N")

    def show(self, v):
        return v.path if isinstance(v, Mod) else str(v)

    def cvfind(self, cref, name):
        if not cref:
            raise NE("!R")
        for m in cref[-1].anc():
            if name in m.cv:
                return m
        return None

    def conflicts(self, base, name):
        """would defining name in base put it twice into some ancestor chain?"""
        for m in self.mods + [self.obj]:
            a = m.anc()
            if base in a and any(name in x.cv for x in a):
                return True
        return False

    # -- definitions
    def newmod(self, parent):
        g = self.g
        name = g.choice(NAMES)
        if name in parent.consts:
            return parent.consts[name]
        kind = g.choice(["class", "module"])
        m = Mod(name, kind, parent)
        if kind == "class":
            m.sup = self.obj
            cl = [c for c in self.mods if c.kind == "class"]
            if cl and g.bool(2, 3):
                m.sup = g.choice(cl)
        parent.consts[name] = m
        self.mods.append(m)
        m.fresh = True
        return m

    def header(self, m, style):
        s = "%s %s" % (m.kind, style)
        if getattr(m, "fresh", False):
            m.fresh = False
            if m.kind == "class" and m.sup is not self.obj:
                s += " < ::" + m.sup.path
        return s

    def chunk(self):
        """a top-level reopening of some scope chain"""
        self.body(self.obj, [], 0, top=True)

    def open(self, cref, cur, depth):
        g = self.g
        if not cref and self.mods and g.bool(1, 3):
            m = g.choice(self.mods)
            h = self.header(m, m.path)
        else:
            m = self.newmod(cur)
            h = self.header(m, m.name)
        self.out.append(h)
        self.body(m, cref + [m], depth + 1)
        self.out.append("end")

    def body(self, cur, cref, depth, top=False):
        g = self.g

        def stmt():
            c = []
            if depth < 3:
                c.append((5 if top or depth == 0 else 2, "open"))
            P = self.part
            if P in ("const", "mix"):
                c += [(4, "set"), (4, "site"), (2, "imm"), (1, "orset")]
            if P in ("cvar", "mix"):
                c += [(4, "cset"), (5, "csite"), (1, "cimm")]
            if P in ("ivar", "mix"):
                c += [(4, "isite"), (2, "cls_iv")]
            if not top:
                c += [(5 if P == "cvar" else 2, "mixin")]
            c += [(1, "anon")]
            w = g.weighted(c)
            getattr(self, "s_" + w)(cur, cref, depth)
        g.rep(1, 5, stmt)

    def s_open(self, cur, cref, depth):
        self.open(cref, cur, depth)

    def s_set(self, cur, cref, depth):
        g = self.g
        n, v = g.choice(CONSTS), self.val()
        k = g.int(0, 5)
        t = cur
        if k == 0 and self.mods:
            t = g.choice(self.mods)
            src = "::%s::%s = %d" % (t.path, n, v)
        elif k == 1:
            src = "%s, zz = %d, 1" % (n, v)
        elif k == 2:
            src = "blk { %s = %d }" % (n, v)
        elif k == 3 and cref:
            src = "eval(\"%s = %d\")" % (n, v)
        elif k == 4 and not cref:
            src = "Object::%s = %d" % (n, v)
        else:
            src = "%s = %d" % (n, v)
        t.consts[n] = v
        self.out.append(src)

    def s_orset(self, cur, cref, depth):
        n, v = self.g.choice(CONSTS), self.val()
        k = self.g.int(0, 2)
        if k == 0 and cref:
            t = self.g.choice(cref)
            self.out.append("o { ::%s::%s ||= %d }" % (t.path, n, v))
            try:
                r = self.inh(t, n, False)
            except NE:
                t.consts[n] = r = v
        else:
            self.out.append("o { %s ||= %d }" % (n, v))
            try:
                r = self.lex(cref, n)
            except NE:
                cur.consts[n] = r = v
        self.emit(self.show(r), n + "||=" + str(len(cref)), True)

    def emit(self, s, key, nt):
        self.exp.append(s)
        self.units.append((key + "#" + "|".join(self.out[-6:]), nt))

    # a constant read expression: source, eval
    def cexpr(self, cref):
        g = self.g
        k = g.weighted([(6, "bare"), (2, "mod"), (2, "scoped"), (1, "rel"), (2, "def"), (1, "get"), (1, "top"), (1, "defs"), (1, "reldef")])
        n = g.choice(CONSTS)
        if k == "mod":
            n = g.choice(NAMES)
            k = "bare"
        if k == "bare":
            f = lambda: self.show(self.lex(cref, n))
            src = g.choice(["%s", "%s", "[%s][0]", "(zz = %s; zz)", "(true ? %s : 0)", "blk { %s }", "proc { %s }.call", "eval(\"%s\")", "[0].map { |a| %s }[0]", "lambda { |a = %s| a }.call", "{a: %s}[:a]", "(%s || 0)", "blk { blk { %s } }"]) % n
            return src, f, n
        if k == "top":
            return "::" + n, lambda: self.show(self.inh(self.obj, n, True)), n
        if k == "def":
            def f():
                try:
                    self.lex(cref, n)
                    return '"constant"'
                except NE:
                    return "nil"
            return "defined?(%s)" % n, f, n
        if k in ("scoped", "get", "defs") and self.mods:
            m = g.choice(self.mods)
            if k == "get":
                return "::%s.const_get(:%s)" % (m.path, n), lambda: self.show(self.inh(m, n, True)), n
            if k == "scoped":
                return "::%s::%s" % (m.path, n), lambda: self.show(self.inh(m, n, False)), n

            def f():
                try:
                    self.inh(m, n, False)
                    return '"constant"'
                except NE:
                    return "nil"
            return "defined?(::%s::%s)" % (m.path, n), f, n
        m = g.choice(NAMES)

        def f():
            b = self.lex(cref, m)
            return self.show(self.inh(b, n, False))

        def fd():
            try:
                f()
                return '"constant"'
            except NE:
                return "nil"
        if k == "reldef":
            return "defined?(%s::%s)" % (m, n), fd, n
        return "%s::%s" % (m, n), f, n

    def s_imm(self, cur, cref, depth):
        src, f, n = self.cexpr(cref)
        self.out.append("o { %s }" % src if self.g.bool(2, 3) else "begin; puts(sh(%s)); rescue NameError; puts \"!N\"; end" % src)
        self.emit(self.run(f), src, len([m for m in self.mods + [self.obj] if n in m.consts]) > 1)

    def run(self, f):
        try:
            return f()
        except NE as e:
            return e.args[0]

    def receivers(self, cur, cref, sing):
        """call receivers for a method defined in cur"""
        if sing:
            l = ["::" + cur.path]
            if cur.kind == "class":
                l += ["::" + c.path for c in self.mods if c.kind == "class" and c is not cur and cur in c.anc()]
            return l
        l = []
        for c in self.mods:
            if c.kind == "class" and cur in c.anc():
                l.append("::%s.new" % c.path)
        for c in self.mods:
            if cur in c.ext or any(cur in m.anc() for m in c.ext):
                l.append("::" + c.path)
        if cur.kind == "module":
            l.append("Object.new.extend(::%s)" % cur.path)
        return l

    def site(self, cur, cref, src, f, n, kinds=None):
        g = self.g
        k = self.uid()
        if not cref:
            form = g.weighted([(3, "topdef"), (2, "proc"), (1, "lam")])
        else:
            form = g.weighted([(5, "inst"), (3, "self"), (3, "scls"), (2, "proc"), (1, "default"), (1, "modfn" if cur.kind == "module" else "inst"), (1, "ceval"), (1, "alias"), (1, "evaldef")])
        if src.startswith("eval") and form == "evaldef":
            form = "inst"
        s = dict(f=f, n=n, used=0, form=form, cur=cur, src=src)
        if form == "topdef":
            self.out.append("def m%d; %s; end" % (k, src))
            s["recv"] = lambda: ["m%d" % k] + ["::%s.send(:m%d)" % (c.path, k) for c in self.mods] + ["::%s.new.send(:m%d)" % (c.path, k) for c in self.mods if c.kind == "class"]
        elif form == "proc":
            self.out.append(g.choice(["$p%d = proc { %s }", "$p%d = lambda { %s }", "def pp%d(&b); b; end"][:2]) % (k, src))
            s["recv"] = lambda: ["$p%d.call" % k, "blk(&$p%d)" % k] + ["Object.new.instance_exec(&$p%d)" % k]
            if n.startswith("@"):
                s["recv"] = lambda: ["$p%d.call" % k, "blk(&$p%d)" % k]
        elif form == "lam":
            self.out.append("$p%d = [1].map { proc { %s } }[0]" % (k, src))
            s["recv"] = lambda: ["$p%d.call" % k]
        elif form == "inst":
            self.out.append("def m%d; %s; end" % (k, src))
            s["recv"] = lambda: [r + ".m%d" % k for r in self.receivers(cur, cref, False)]
        elif form == "alias":
            self.out.append("def q%d; %s; end; alias m%d q%d" % (k, src, k, k))
            s["recv"] = lambda: [r + ".m%d" % k for r in self.receivers(cur, cref, False)]
        elif form == "evaldef":
            if '"' in src:
                self.out.append("def m%d; %s; end" % (k, src))
            else:
                self.out.append("eval(\"def m%d; %s; end\")" % (k, src))
            s["recv"] = lambda: [r + ".m%d" % k for r in self.receivers(cur, cref, False)]
        elif form == "default":
            self.out.append("def m%d(a = (%s)); a; end" % (k, src))
            s["recv"] = lambda: [r + ".m%d" % k for r in self.receivers(cur, cref, False)]
        elif form == "modfn":
            self.out.append("def m%d; %s; end; module_function :m%d" % (k, src, k))
            s["recv"] = lambda: [r + ".m%d" % k for r in self.receivers(cur, cref, False) + ["::" + cur.path]]
        elif form == "ceval":
            # a block does not change the scope, a string does
            if g.bool() or '"' in src:
                self.out.append("def m%d; %s; end" % (k, src))
                if self.mods:
                    other = g.choice(self.mods).path
                    self.out[-1] = "def m%d; ::%s.class_eval { %s }; end" % (k, other, src)
            else:
                self.out.append("::%s.class_eval(\"def m%d; %s; end\")" % (cur.path, k, src))
            s["recv"] = lambda: [r + ".m%d" % k for r in self.receivers(cur, cref, False)]
        elif form == "self":
            self.out.append(g.choice(["def self.m%d; %s; end" % (k, src), "def self.m%d; blk { %s }; end" % (k, src)]))
            s["recv"] = lambda: [r + ".m%d" % k for r in self.receivers(cur, cref, True)]
        else:
            self.out.append("class << self; def m%d; %s; end; end" % (k, src))
            s["recv"] = lambda: [r + ".m%d" % k for r in self.receivers(cur, cref, True)]
            if not n.startswith("@"):
                # the singleton class is the innermost scope: ancestors of cur are not searched
                def f2():
                    for m in cur.anc()[0:] if cur.kind == "class" else []:
                        pass
                    return f()
                s["scls"] = True
        self.sites.append(s)

    def s_site(self, cur, cref, depth):
        src, f, n = self.cexpr(cref)
        self.site(cur, cref, src, f, n)
        s = self.sites[-1]
        if s.get("scls") and ("::" not in src or src[0] != ":"):
            # bare names below class << self: only what the lexical scopes or Object define is decided
            base = cref[-1]
            names = [x for x in CONSTS + NAMES if x in src.replace("eval", "")]

            def g2():
                for x in names:
                    inlex = any(x in m.consts for m in cref)
                    up = [m for m in base.anc() if m is not self.obj] + [e for m in base.anc() for y in m.ext for e in y.anc()]
                    if not inlex and any(x in m.consts for m in up):
                        return None
                return f()
            s["f"] = g2

    def s_mixin(self, cur, cref, depth):
        g = self.g
        ms = [m for m in self.mods if m.kind == "module" and m is not cur and not m.pre]
        if not ms:
            return
        m = g.choice(ms)
        if cur in m.anc():
            return
        how = g.weighted([(4, "include"), (2, "prepend"), (1, "extend")])
        if how == "extend":
            if m in cur.ext or any(x in y.anc() for y in cur.ext for x in m.anc()):
                return
            cur.ext.append(m)
            self.out.append("extend ::" + m.path)
            return
        # keep the linearisation simple: nothing is mixed in twice, modules are complete before they are mixed in
        users = [c for c in self.mods if cur in c.anc()] + [c for c in self.mods if cur in c.ext]
        if cur.kind == "module" and (len(users) > 1 or how == "prepend" or any(cur in c.ext for c in self.mods)):
            return
        if how == "prepend" and len(m.anc()) > 1:
            return
        for c in [cur] + [c for c in self.mods if cur in c.anc()]:
            a = c.anc()
            if any(x in a for x in m.anc()):
                return
            if any(v in x.cv for v in self.allcv(m.anc()) for x in a):
                return
        (cur.inc if how == "include" else cur.pre).insert(0, m)
        self.out.append("%s ::%s" % (how, m.path))
        if self.part == "cvar" and self.allcv(m.anc()):
            for _ in range(g.int(1, 3)):
                getattr(self, g.choice(["s_cimm", "s_csite", "s_cset"]))(cur, cref, depth)

    def allcv(self, ms):
        return set(v for m in ms for v in m.cv)

    def s_anon(self, cur, cref, depth):
        """a class without a scope of its own"""
        g = self.g
        if self.part == "cvar":
            src, f, n = self.cvexpr(cref)
            if src is None:
                return
        else:
            src, f, n = self.cexpr(cref)
        k = self.uid()
        sup = [c for c in self.mods if c.kind == "class"]
        s = "(::%s)" % g.choice(sup).path if sup and g.bool() else ""
        self.out.append("$k%d = Class.new%s { def m%d; %s; end }" % (k, s, k, src))
        self.sites.append(dict(f=f, n=n, used=0, form="anon", cur=cur, src=src, recv=lambda: ["$k%d.new.m%d" % (k, k)]))

    # -- class variables
    def cvexpr(self, cref):
        g = self.g
        n = "@@" + g.choice(["a", "b", "c"])
        if cref and g.bool():
            # a name some ancestor already has
            n = g.choice([x for m in cref[-1].anc() if m is not cref[-1] for x in m.cv] or [n])

        def get():
            m = self.cvfind(cref, n)
            if m is None:
                raise NE("!N")
            return m.cv[n]

        def rd():
            return str(get())
        k = g.weighted([(6, "rd"), (2, "def"), (3, "wr"), (2, "op"), (2, "or")])
        if k == "rd":
            return g.choice(["%s", "%s", "[%s][0]", "blk { %s }", "proc { %s }.call", "eval(\"%s\")", "(%s + 0)", "[1].each { |q| return(%s) }[0]" if False else "%s"]) % n, rd, n
        if k == "def":
            def f():
                if not cref:
                    return "nil"
                return '"class variable"' if self.cvfind(cref, n) else "nil"
            return "defined?(%s)" % n, f, n
        v = self.val()

        def wr(x):
            m = self.cvfind(cref, n)
            if m is None:
                if self.conflicts(cref[-1], n):
                    raise Skip()
                m = cref[-1]
            m.cv[n] = x
            return str(x)
        if k == "wr":
            return g.choice(["(%s = %d)", "blk { %s = %d }", "(%s, zz = %d, 1; %s)", "eval(\"%s = %d\")"]).replace("; %s)", "; " + n + ")") % (n, v), lambda: wr(v), n
        if k == "op":
            return "(%s += %d)" % (n, v), lambda: wr(get() + v), n

        def orr():
            if not cref:
                raise NE("!R")
            m = self.cvfind(cref, n)
            return str(m.cv[n]) if m else wr(v)
        return "(%s ||= %d)" % (n, v), orr, n

    def s_cset(self, cur, cref, depth):
        if not cref:
            return
        n = "@@" + self.g.choice(["a", "b", "c"])
        if self.g.bool(1, 3):
            n = self.g.choice([x for m in cref[-1].anc() if m is not cref[-1] for x in m.cv] or [n])
        m = self.cvfind(cref, n)
        if m is None:
            if self.conflicts(cref[-1], n):
                return
            m = cref[-1]
        v = self.val()
        m.cv[n] = v
        self.out.append("%s = %d" % (n, v))

    def s_csite(self, cur, cref, depth):
        src, f, n = self.cvexpr(cref)
        self.site(cur, cref, src, f, n)

    def s_cimm(self, cur, cref, depth):
        src, f, n = self.cvexpr(cref)
        try:
            r = self.run(f)
        except Skip:
            return
        self.out.append("o { %s }" % src)
        self.emit(r, src, bool(cref))

    # -- instance variables
    def s_isite(self, cur, cref, depth):
        g = self.g
        if not cref:
            return
        n = "@" + g.choice("abcde")
        k = self.uid()
        v = self.val()
        if g.bool():
            self.out.append("def m%d; %s; end" % (k, g.choice([n, "blk { %s }" % n, "eval(\"%s\")" % n, "[%s][0]" % n, "instance_variable_get(:%s)" % n])))
            f = lambda iv: str(iv[n]) if iv.get(n) is not None else "nil"
        else:
            w = g.int(0, 4)
            if w == 0:
                self.out.append("def m%d; %s = %d; end" % (k, n, v))
            elif w == 1:
                self.out.append("def m%d; blk { %s = %d }; end" % (k, n, v))
            elif w == 2:
                self.out.append("def m%d; %s ||= %d; end" % (k, n, v))
            elif w == 3:
                self.out.append("def m%d; instance_variable_set(:%s, %d); end" % (k, n, v))
            else:
                self.out.append("def m%d; %s, zz = %d, 2; %s; end" % (k, n, v, n))

            def f(iv):
                if w == 2 and iv.get(n) is not None:
                    return str(iv[n])
                iv[n] = v
                return str(v)
        if not hasattr(self, "ims"):
            self.ims = []
        self.ims.append((cur, k, f))

    def s_cls_iv(self, cur, cref, depth):
        if not cref:
            return
        g = self.g
        n, v, k = "@" + g.choice("abcde"), self.val(), self.uid()
        self.out.append("%s = %d; def self.c%d; %s; end" % (n, v, k, n))
        cur.iv[n] = v
        self.sites.append(dict(n=n, used=0, form="clsiv", cur=cur, src=n + "@cls" + str(k), f=lambda: str(cur.iv[n]) if n in cur.iv else "nil", recv=lambda: ["::%s.c%d" % (cur.path, k)]))
        subs = [c for c in self.mods if c.kind == "class" and c is not cur and cur in c.anc() and cur.kind == "class"]
        if subs:
            s = g.choice(subs)
            self.sites.append(dict(n=n, used=0, form="clsiv", cur=cur, src=n + "@sub" + str(k), f=lambda: str(s.iv[n]) if n in s.iv else "nil", recv=lambda: ["::%s.c%d" % (s.path, k)]))

    def iv(self):
        g = self.g
        ims = getattr(self, "ims", [])
        if not ims:
            return
        if not self.objs or (len(self.objs) < 6 and g.bool(1, 4)):
            i = self.uid()
            if self.objs and g.bool(1, 3):
                o = g.choice(self.objs)
                self.out.append("$o%d = $o%d.%s" % (i, o[0], g.choice(["dup", "clone"])))
                self.objs.append((i, o[1], dict(o[2])))
            else:
                cl = [c for c in self.mods if c.kind == "class"]
                if not cl:
                    return
                c = g.choice(cl)
                self.out.append("$o%d = ::%s.new" % (i, c.path))
                self.objs.append((i, c, {}))
        i, c, iv = g.choice(self.objs)
        ok = [x for x in ims if x[0] in c.anc()]
        if not ok or g.bool(1, 6):
            self.out.append("o { $o%d.instance_variables }" % i)
            self.emit("[" + ", ".join(":" + x for x in iv) + "]", "ivars", len(iv) > 1)
            return
        cur, k, f = g.choice(ok)
        self.out.append("o { $o%d.m%d }" % (i, k))
        self.emit(f(iv), "iv%d" % k, c is not cur or len(iv) > 1)

    def read(self):
        g = self.g
        if self.part in ("ivar", "mix") and g.bool(3 if self.part == "ivar" else 1, 4):
            return self.iv()
        if not self.sites:
            return
        s = g.choice(self.sites)
        rs = s["recv"]()
        if not rs:
            return
        r = g.choice(rs)
        try:
            v = self.run(s["f"])
        except Skip:
            return
        if v is None:
            return
        self.out.append("o { %s }" % r)
        cnt = len([m for m in self.mods + [self.obj] if s["n"] in m.consts or s["n"] in m.cv])
        self.emit(v, s["form"] + s["src"] + r, cnt > 1 or s["used"] > 0)
        s["used"] += 1
        self.labels.append("site:" + s["form"])

    def glob(self):
        g = self.g
        n = "$g" + g.choice("abc")
        v = self.val()
        k = g.int(0, 4)
        if k == 0:
            self.out.append("%s = %d" % (n, v))
            self.gv[n] = v
        elif k == 1:
            self.out.append("o { %s }" % n)
            self.emit(str(self.gv[n]) if n in self.gv else "nil", n, False)
        elif k == 2:
            self.out.append("o { %s ||= %d }" % (n, v))
            self.gv.setdefault(n, v)
            self.emit(str(self.gv[n]), n + "or", n in self.gv)
        elif k == 3:
            self.out.append("o { defined?(%s) }" % n)
            self.emit('"global-variable"' if n in self.gv else "nil", n + "def", False)
        else:
            self.out.append("def gg%d; %s = %d; end; o { gg%d }" % (v, n, v, v))
            self.gv[n] = v
            self.emit(str(v), n + "w", True)

    def step(self):
        g = self.g
        k = g.weighted([(3, "chunk"), (6, "read"), (1, "set"), (1, "glob")])
        if k == "chunk":
            self.chunk()
        elif k == "read":
            g.rep(2, 9, self.read)
        elif k == "glob":
            self.glob()
        elif self.part in ("const", "mix"):
            self.s_set(self.obj, [], 0)


class Skip(Exception):
    pass


def build(g, part):
    G_ = Gen(g, "mix" if part == "stress" else part)
    g.rep(6, 30, G_.step)
    return Case("\n".join(G_.out) + "\n", G_.exp, units=G_.units, labels=G_.labels, variant="stress" if part == "stress" else "std")


def strategy(part):
    return from_g(lambda g: build(g, part))
