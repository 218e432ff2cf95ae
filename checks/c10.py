"""C10: method resolution and dispatch against a model of the ancestor chains, over histories that (re)define methods and modules."""
from driver import Case
from gen import from_g

ID = "C10"
EXAMPLES = dict(quick=4000, thorough=80000)
RULE = ("One evaluation = one call (or one reflection query) whose result is compared with the model, at a call site that has been executed before in the same history. "
        "Non-trivial: the call resolved outside the receiver's own class, or went through super / method_missing / an alias / a singleton, or its resolution changed since the site was last executed.")
ASSUMPTIONS = ["a module never occurs twice in one ancestor chain (super from a repeated module is a known finding)",
               "a module is not extended by further modules after it was itself included somewhere", "visibility is not modelled",
               "only the reflection methods ruruby implements are generated"]
NAMES = ["fa", "fb", "fc"]
RD = "ra"
KEEP = 60


class Meth:
    __slots__ = ("tag", "kind", "call", "name", "owner")

    def __init__(self, tag, kind, call, name, owner):
        self.tag, self.kind, self.call, self.name, self.owner = tag, kind, call, name, owner


class Mod:
    def __init__(self, name, cls, sup=None, builtin=False, expr=None):
        self.name, self.cls, self.sup, self.builtin = name, cls, sup, builtin
        self.expr = expr or name
        self.m = {}
        self.pre = []
        self.inc = []
        self.used = False
        self.sing = None
        self.singleton = False
        self.iv = None
        self.obj = False

    def anc(self):
        o = self.pre + [self] + self.inc
        if self.sup:
            o = o + self.sup.anc()
        return o


class Obj:
    def __init__(self, expr, cls, user):
        self.expr, self.cls, self.user = expr, cls, user
        self.sing = None
        self.iv = None
        self.obj = True


def cat(v):
    return "" if v is None else v


class Deep(Exception):
    pass


class NM(Exception):
    pass


class W:
    def __init__(self, g):
        self.g = g
        self.undo = []
        b = self.b = {}
        BO = b["BasicObject"] = Mod("BasicObject", True, None, True)
        K = b["Kernel"] = Mod("Kernel", False, None, True)
        O = b["Object"] = Mod("Object", True, BO, True)
        O.inc = [K]
        Co = b["Comparable"] = Mod("Comparable", False, None, True)
        b["Module"] = Mod("Module", True, O, True)
        b["Class"] = Mod("Class", True, b["Module"], True)
        N = b["Numeric"] = Mod("Numeric", True, O, True)
        N.inc = [Co]
        b["Integer"] = Mod("Integer", True, N, True)
        b["String"] = Mod("String", True, O, True)
        b["NilClass"] = Mod("NilClass", True, O, True)
        b["Symbol"] = Mod("Symbol", True, O, True)
        b["Float"] = Mod("Float", True, N, True)
        b["Array"] = Mod("Array", True, O, True)
        K.used = Co.used = True
        self.mods = []          # user modules
        self.classes = []       # user classes
        self.objs = []
        self.nobj = 0
        self.tags = 0
        self.steps = 0

    # ---- chains
    def sing(self, x):
        """The singleton class of an object, class or module (created in the model only)."""
        if x.sing is None:
            if isinstance(x, Mod):
                if x.cls:
                    if x.sup is None:
                        s = self.b["Class"]
                    else:
                        s = self.sing(x.sup)
                else:
                    s = self.b["Module"]
            else:
                s = x.cls
            m = Mod("#<Class:%s>" % x.expr, True, s, False, "%s.singleton_class" % x.expr)
            m.singleton = True
            x.sing = m
        return x.sing

    def chain(self, x):
        if isinstance(x, Mod):
            return self.sing(x).anc()
        if x.sing is not None:
            return x.sing.anc()
        return x.cls.anc()

    def allmods(self):
        o = list(self.mods) + list(self.classes) + [self.b[k] for k in self.b]
        for x in list(o) + self.objs:
            if x.sing is not None:
                o.append(x.sing)
        return o

    def dup(self):
        for m in self.allmods():
            a = m.anc()
            if len(set(map(id, a))) != len(a):
                return True
        for x in self.objs:
            a = self.chain(x)
            if len(set(map(id, a))) != len(a):
                return True
        return False

    # ---- undoable primitive updates
    def setm(self, mod, name, meth):
        old = mod.m.get(name)
        if old is not None and old.owner is mod and old.name == name:
            for x in self.allmods():
                if x is not mod and old in x.m.values():
                    raise Deep()    # excluded: super from an alias whose original was replaced (known finding)
        mod.m[name] = meth

        def u():
            if old is None:
                del mod.m[name]
            else:
                mod.m[name] = old
        self.undo.append(u)

    def setiv(self, x, v):
        old = x.iv
        x.iv = v

        def u():
            x.iv = old
        self.undo.append(u)

    def mix(self, mod, n, prepend):
        """include / prepend n into mod. False when the model excludes the operation."""
        if mod.used and not (mod.builtin and mod.cls) or mod is n or mod in n.anc():
            return False
        if mod.builtin and not mod.cls:
            return False
        oi, op = mod.inc, mod.pre
        if prepend:
            if n in mod.anc() or any(x in mod.anc() for x in n.anc()):
                return False
            mod.pre = n.anc() + mod.pre
        else:
            inc = list(mod.inc)
            supa = mod.sup.anc() if mod.sup else []
            pos = 0
            for x in n.anc():
                if x in inc:
                    i = inc.index(x)
                    if i >= pos:
                        pos = i + 1
                elif x in supa:
                    pass
                else:
                    inc.insert(pos, x)
                    pos += 1
            mod.inc = inc
        nu = n.used
        n.used = True

        def u():
            mod.inc, mod.pre = oi, op
            n.used = nu
        self.undo.append(u)
        return not self.dup()

    # ---- calls
    def find(self, ch, name, after=None):
        i = 0
        if after is not None:
            i = next(k for k, m in enumerate(ch) if m is after) + 1
        for m in ch[i:]:
            if name in m.m:
                return m.m[name]
        return None

    def call(self, x, name, a, blk, depth=0):
        self.steps += 1
        if depth > 25 or self.steps > 4000:
            raise Deep()
        ch = self.chain(x)
        self.path.append(name)
        return self.enter(x, ch, self.find(ch, name), name, a, blk, depth)

    def enter(self, x, ch, me, name, a, blk, depth, super_=False):
        self.steps += 1
        if depth > 25 or self.steps > 4000:
            raise Deep()
        if me is None:
            mm = self.find(ch, "method_missing")
            if mm is None:
                raise NM()
            self.mark = True
            return self.mm(x, ch, mm, name, 0 if a is None else 1, blk, depth)
        self.owner = me.owner
        return self.body(x, ch, me, a, blk, depth)

    def mm(self, x, ch, me, name, nargs, blk, depth):
        if depth > 25:
            raise Deep()
        if me.kind == "sel" and name == me.call:
            return "%s-%s%d" % (me.tag, name, nargs)
        if me.kind == "all":
            return "%s:%s%d%s" % (me.tag, name, nargs, blk(7) if blk else "")
        nxt = self.find(ch, "method_missing", me.owner)
        if nxt is None:
            raise NM()
        return self.mm(x, ch, nxt, name, nargs, blk, depth + 1)

    def body(self, x, ch, me, a, blk, depth):
        t = me.tag
        k = me.kind
        if k == "attr":
            return x.iv
        if a is None:
            z = ""
        else:
            z = str(a)
        if k == "plain":
            return t + z
        if k == "yield":
            return t + z + (blk(a) if blk else "-")
        if k == "call":
            self.mark = True
            c = me.call
            if c == RD:
                return t + cat(self.call(x, c, None, None, depth + 1))
            return t + z + cat(self.call(x, c, (a or 0) + 1, lambda v: "z" + str(v), depth + 1))
        # super kinds
        self.mark = True
        nxt = self.find(ch, me.name, me.owner)
        if a is None:
            return t + cat(self.enter(x, ch, nxt, me.name, None, blk, depth + 1, True))
        if k == "zsuper":
            return t + cat(self.enter(x, ch, nxt, me.name, a, blk, depth + 1, True))
        if k == "zsupermod":
            return t + cat(self.enter(x, ch, nxt, me.name, a + 1, blk, depth + 1, True))
        if k == "superargs":
            return t + z + cat(self.enter(x, ch, nxt, me.name, a + 2, blk, depth + 1, True))
        if k == "superblk":
            return t + cat(self.enter(x, ch, nxt, me.name, a + 3, blk, depth + 1, True))
        if k == "zsuperblk":
            return t + cat(self.enter(x, ch, nxt, me.name, a, blk, depth + 1, True))
        if k == "superownblk":
            return t + cat(self.enter(x, ch, nxt, me.name, a, lambda v: "w" + str(v), depth + 1, True))
        if k == "superresc":
            try:
                return t + cat(self.enter(x, ch, nxt, me.name, a, blk, depth + 1, True))
            except NM:
                return t + "!"
        raise AssertionError(k)

    def result(self, x, name):
        self.steps = 0
        self.mark = False
        self.owner = None
        self.path = []
        try:
            if name == RD:
                r = self.call(x, name, None, None)
            else:
                r = self.call(x, name, 1, lambda v: "y" + str(v))
        except NM:
            r = "nm"
        return r


def bodysrc(me, name):
    t = me.tag
    k = me.kind
    mc = str(me.call)
    if name == RD:
        b = {"plain": '"%s"' % t, "zsuper": '"%s#{super}"' % t, "superargs": '"%s#{super()}"' % t,
             "call": '"%s#{%s}"' % (t, RD if mc == RD else mc + "(1) { |v| \"z#{v}\" }")}[k]
        return "def %%s%s; %s; end" % (name, b)
    b = {
        "plain": '"%s#{a}"' % t,
        "yield": '"%s#{a}#{block_given? ? yield(a) : "-"}"' % t,
        "zsuper": '"%s#{super}"' % t,
        "zsupermod": 'a += 1; "%s#{super}"' % t,
        "superargs": '"%s#{a}" + super(a + 2)' % t,
        "superblk": '"%s" + [a].map { |q| super(q + 3) }[0]' % t,
        "zsuperblk": '"%s" + [5].map { |q| super }[0]' % t,
        "superownblk": '"%s" + super(a) { |v| "w#{v}" }' % t,
        "superresc": 'begin; "%s" + super; rescue NameError; "%s!"; end' % (t, t),
        "call": '"%s#{a}" + %s' % (t, RD if mc == RD else mc + '(a + 1) { |v| "z#{v}" }'),
    }[k]
    if k == "call" and me.call == RD:
        b = '"%s#{%s}"' % (t, RD)
    return "def %%s%s(a = 0); %s; end" % (name, b)


def mmsrc(me):
    if me.kind == "sel":
        return 'def %%smethod_missing(n, *r, &b); n == :%s ? "%s-#{n}#{r.size}" : super; end' % (me.call, me.tag)
    return 'def %%smethod_missing(n, *r, &b); [:fa, :fb, :fc, :ra].include?(n) ? "%s:#{n}#{r.size}#{b ? b.call(7) : ""}" : super; end' % me.tag


class H(W):
    def __init__(self, g):
        W.__init__(self, g)
        self.src = ["def nm; yield; rescue NameError; \"nm\"; end"]
        self.exp = []
        self.units = []
        self.last = {}
        self.labels = set()
        for e, c in (("5", "Integer"), ("\"s\"", "String"), ("nil", "NilClass"), (":q", "Symbol"), ("1.5", "Float"), ("[]", "Array")):
            o = Obj(e, self.b[c], False)
            if c in ("Integer", "String", "NilClass") or g.bool(1, 3):
                self.objs.append(o)
        n = g.int(1, 2)
        for _ in range(n):
            self.op_newclass(True)
        for _ in range(g.int(1, 2)):
            self.op_newmod()
        self.op_newobj()
        self.op_newobj()
        self.src += ["def s_fa(o) o.fa(1) { |v| \"y#{v}\" }; rescue NameError; \"nm\"; end",
                     "def s_fb(o) o.fb(1) { |v| \"y#{v}\" }; rescue NameError; \"nm\"; end",
                     "def s_fc(o) o.fc(1) { |v| \"y#{v}\" }; rescue NameError; \"nm\"; end",
                     "def s_ra(o) o.ra; rescue NameError; \"nm\"; end"]
        self.sites = set()
        self.undo = []
        for _ in g.rep(3, 14, lambda: self.step()):
            pass

    def tag(self):
        self.tags += 1
        return "t%d" % self.tags

    # ---- receivers
    def receivers(self):
        return self.objs + [c for c in self.classes] + self.mods[:1]

    def target(self):
        """A module or class to define into."""
        g = self.g
        r = g.int(0, 9)
        if r < 5 or not self.mods:
            return g.choice(self.classes)
        if r < 8:
            return g.choice(self.mods)
        return self.b[g.choice(["Object", "Kernel", "Integer", "Comparable", "Class", "Module", "String", "Numeric", "NilClass"])]

    def starget(self):
        g = self.g
        l = [o for o in self.objs if o.user] + self.classes + self.mods
        return g.choice(l)

    def newmeth(self, name, owner):
        g = self.g
        if name == RD:
            k = g.weighted([(3, "plain"), (3, "zsuper"), (1, "superargs"), (1, "call")])
        else:
            k = g.weighted([(4, "plain"), (2, "yield"), (4, "zsuper"), (2, "zsupermod"), (2, "superargs"), (1, "superblk"), (1, "zsuperblk"), (1, "superownblk"), (1, "superresc"), (3, "call")])
        c = None
        if k == "call":
            i = NAMES.index(name) if name in NAMES else 3
            c = g.choice((NAMES + [RD])[i + 1:] or [RD]) if i < 3 else "fc"
        return Meth(self.tag(), k, c, name, owner)

    def body_in(self, mod, text):
        """Source that evaluates text inside mod's body."""
        g = self.g
        if mod.singleton:
            return "class << %s; %s; end" % (mod.expr[:-len(".singleton_class")], text)
        r = g.int(0, 5)
        if r == 0:
            return "%s.class_eval do; %s; end" % (mod.expr, text)
        if r == 1 and "#" not in text and '"' not in text:
            return "%s.class_eval(\"%s\")" % (mod.expr, text)
        return "%s %s; %s; end" % ("class" if mod.cls else "module", mod.name, text)

    # ---- operations; each returns source lines or None
    def op_newclass(self, first=False):
        g = self.g
        if len(self.classes) >= 5:
            return None
        n = "A%d" % len(self.classes)
        sup = self.b["Object"]
        if self.classes and (not first or g.bool()) and g.bool(4, 5):
            sup = g.choice(self.classes)
        elif not first and g.bool(1, 8):
            sup = self.b["BasicObject"]
            sup = self.b["Object"]
        c = Mod(n, True, sup)
        r = g.int(0, 2)
        s = "" if sup.name == "Object" else " < " + sup.name
        if r == 0:
            line = "%s = Class.new%s" % (n, "(%s)" % sup.name if s else "")
        elif r == 1:
            me = self.newmeth(g.choice(NAMES), c)
            c.m[me.name] = me
            line = "%s = Class.new%s { %s }" % (n, "(%s)" % sup.name if s else "", bodysrc(me, me.name) % "")
        else:
            line = "class %s%s; end" % (n, s)
        self.classes.append(c)
        self.undo.append(lambda: self.classes.remove(c))
        if first:
            self.src.append(line)
        return [line]

    def op_newmod(self):
        if len(self.mods) >= 4:
            return None
        n = "M%d" % len(self.mods)
        m = Mod(n, False)
        self.mods.append(m)
        self.undo.append(lambda: self.mods.remove(m))
        line = "module %s; end" % n
        if not hasattr(self, "sites"):
            self.src.append(line)
        return [line]

    def op_newobj(self):
        g = self.g
        if self.nobj >= 5:
            return None
        c = g.choice(self.classes)
        o = Obj("$o%d" % self.nobj, c, True)
        self.nobj += 1
        self.objs.append(o)

        def u():
            self.nobj -= 1
            self.objs.remove(o)
        self.undo.append(u)
        line = "%s = %s.new" % (o.expr, c.name)
        if not hasattr(self, "sites"):
            self.src.append(line)
        return [line]

    def op_dupobj(self):
        g = self.g
        l = [o for o in self.objs if o.user]
        if self.nobj >= 5:
            return None
        s = g.choice(l)
        o = Obj("$o%d" % self.nobj, s.cls, True)
        o.iv = s.iv
        self.nobj += 1
        self.objs.append(o)

        def u():
            self.nobj -= 1
            self.objs.remove(o)
        self.undo.append(u)
        return ["%s = %s.dup" % (o.expr, s.expr)]

    def op_def(self):
        g = self.g
        m = self.target()
        name = g.choice(NAMES + [RD])
        me = self.newmeth(name, m)
        self.setm(m, name, me)
        src = bodysrc(me, name) % ""
        if m.name == "Object" and g.bool():
            return [src]
        return [self.body_in(m, src)]

    def op_sdef(self):
        g = self.g
        x = self.starget()
        m = self.sing(x)
        name = g.choice(NAMES + [RD])
        me = self.newmeth(name, m)
        self.setm(m, name, me)
        r = g.int(0, 2)
        if r == 0:
            return [self.body_in(m, bodysrc(me, name) % "")]
        if r == 1 and isinstance(x, Mod):
            return ["%s %s; %s; end" % ("class" if x.cls else "module", x.name, bodysrc(me, name) % "self.")]
        return [bodysrc(me, name) % (x.expr + ".")]

    def op_mm(self):
        g = self.g
        m = self.target() if g.bool(3, 4) else self.sing(self.starget())
        if m.builtin:
            return None
        me = Meth(self.tag(), g.choice(["sel", "all"]), g.choice(NAMES), "method_missing", m)
        self.setm(m, "method_missing", me)
        return [self.body_in(m, mmsrc(me) % "")]

    def op_attr(self):
        g = self.g
        m = self.target() if g.bool(3, 4) else self.sing(self.starget())
        self.setm(m, RD, Meth("", "attr", None, RD, m))
        return [self.body_in(m, g.choice(["attr_reader :ra", "attr_accessor :ra", "attr_reader :zz, :ra"]))]

    def op_iv(self):
        g = self.g
        x = self.starget()
        v = self.tag()
        self.setiv(x, v)
        return ["%s.instance_variable_set(:@ra, \"%s\")" % (x.expr, v)]

    def op_include(self):
        g = self.g
        if not self.mods:
            return None
        n = g.choice(self.mods)
        m = self.target()
        if not self.mix(m, n, False):
            return None
        return [g.choice(["%s.include(%s)" % (m.expr, n.name), self.body_in(m, "include %s" % n.name)])]

    def op_prepend(self):
        g = self.g
        n = g.choice(self.mods)
        m = self.target()
        if m.builtin or not self.mix(m, n, True):
            return None
        return [g.choice(["%s.prepend(%s)" % (m.expr, n.name), self.body_in(m, "prepend %s" % n.name)])]

    def op_extend(self):
        g = self.g
        n = g.choice(self.mods)
        x = self.starget()
        m = self.sing(x)
        pre = g.bool(1, 4)
        if not self.mix(m, n, pre):
            return None
        if pre:
            return ["class << %s; prepend %s; end" % (x.expr, n.name)]
        if g.bool(1, 4):
            return ["class << %s; include %s; end" % (x.expr, n.name)]
        return ["%s.extend(%s)" % (x.expr, n.name)]

    def op_alias(self):
        g = self.g
        m = self.target() if g.bool(4, 5) else self.sing(self.starget())
        a, b = g.choice(NAMES), g.choice(NAMES)
        me = self.find(m.anc(), b)
        if me is None or a == b:
            return None
        self.setm(m, a, me)
        self.labels.add("alias")
        f = g.choice(["alias %s %s", "alias :%s :%s", "alias_method :%s, :%s"])
        return [self.body_in(m, f % (a, b))]

    def op_modfunc(self):
        g = self.g
        m = g.choice(self.mods)
        l = [n for n in NAMES if n in m.m and m.m[n].kind in ("plain", "yield") and m.m[n].owner is m]
        if not l:
            return None
        n = g.choice(l)
        s = self.sing(m)
        o = m.m[n]
        self.setm(s, n, Meth(o.tag, o.kind, o.call, n, s))
        return ["module %s; module_function :%s; end" % (m.name, n)]

    def op_attrset(self):
        return self.op_iv()

    OPS = [(9, "def"), (5, "sdef"), (2, "mm"), (2, "attr"), (2, "iv"), (6, "include"), (4, "prepend"), (4, "extend"), (4, "alias"),
           (1, "modfunc"), (3, "newclass"), (2, "newmod"), (2, "newobj"), (1, "dupobj")]

    def step(self):
        g = self.g
        self.undo = []
        op = g.weighted(self.OPS)
        try:
            lines = getattr(self, "op_" + op)()
        except Deep:
            lines = None
        rv = self.receivers()
        names = NAMES + [RD]
        res = {}
        if lines is not None:
            try:
                for x in rv:
                    for n in names:
                        r = self.result(x, n)
                        if r and len(r) > 400:
                            raise Deep()
                        res[x.expr, n] = (r, self.mark or self.owner is not None and (self.owner is not getattr(x, "cls", None) or isinstance(x, Mod)))
            except Deep:
                lines = None
        if lines is None:
            for u in reversed(self.undo):
                u()
            self.undo = []
            return
        self.labels.add(op)
        self.src += lines
        # call everything again
        n = g.choice(names)
        for nm in (names if g.bool() else [n]):
            self.src.append("p [%s]" % ", ".join("s_%s(%s)" % (nm, x.expr) for x in rv))
            self.exp.append("[%s]" % ", ".join(q(res[x.expr, nm][0], nm) for x in rv))
            for x in rv:
                r, nt = res[x.expr, nm]
                if self.last.get((x.expr, nm), r) != r:
                    nt = True
                self.last[x.expr, nm] = r
                self.units.append((("c", nm, r, x.expr, len(self.src)), nt))
        for _ in range(g.int(1, 3)):
            self.probe(g.choice(rv), g.choice(names), res)

    def probe(self, x, n, res):
        g = self.g
        r, nt = res[x.expr, n]
        e = q(r, n)
        k = g.int(0, 9)
        ch = self.chain(x)
        arg = "" if n == RD else "(1) { |v| \"y#{v}\" }"
        sarg = "(:%s)" % n if n == RD else "(:%s, 1) { |v| \"y#{v}\" }" % n
        if k <= 2:
            # a monomorphic site of its own
            s = "m_%s_%s" % (x.expr.strip("$\"[]:").replace(".", "_"), n)
            if s not in self.sites:
                self.sites.add(s)
                self.src.append("def %s; %s.%s%s; rescue NameError; \"nm\"; end" % (s, x.expr, n, arg))
            self.emit(s, e, nt, "mono")
        elif k == 3:
            self.emit("nm { %s.%s%s }" % (x.expr, g.choice(["send", "__send__"]), sarg), e, nt, "send")
        elif k == 4:
            me = self.find(ch, n)
            if me is None:
                self.emit("(begin; %s.method(:%s); rescue NameError; 0; end)" % (x.expr, n), "0", True, "method")
            elif n != RD:
                self.emit("nm { %s.method(:%s).call(1) { |v| \"y#{v}\" } }" % (x.expr, n), e, nt, "method")
        elif k == 5:
            self.emit("%s.respond_to?(:%s)" % (x.expr, n), "true" if self.find(ch, n) else "false", True, "respond_to")
        elif k == 6:
            m = g.choice(self.classes + self.mods)
            self.emit("%s.ancestors" % m.name, "[%s]" % ", ".join(y.name for y in m.anc()), bool(m.inc or m.pre), "ancestors")
        elif k == 7:
            m = g.choice(self.classes + self.mods + [self.b["Object"], self.b["Kernel"], self.b["Integer"], self.b["Comparable"]])
            self.emit(g.choice(["%s.is_a?(%s)", "%s.kind_of?(%s)", "%s"]) % (x.expr, m.name) if False else
                      g.choice(["(%s).is_a?(%s)" % (x.expr, m.name), "%s === (%s)" % (m.name, x.expr)]), "true" if m in ch else "false", True, "is_a")
        elif k == 8:
            m = g.choice(self.classes + self.mods)
            if g.bool():
                self.emit("%s.method_defined?(:%s)" % (m.name, n), "true" if self.find(m.anc(), n) else "false", True, "method_defined")
            else:
                l = sorted(z for z in m.m if z in NAMES)
                self.emit("%s.instance_methods(false).select { |z| [:fa, :fb, :fc].include?(z) }.sort" % m.name, "[%s]" % ", ".join(":" + z for z in l), bool(l), "instance_methods")
        else:
            m = g.choice(self.classes)
            if g.bool():
                self.emit("%s.superclass" % m.name, m.sup.name, bool(m.pre or m.inc), "superclass")
            else:
                self.emit("%s.included_modules" % m.name, "[%s]" % ", ".join(y.name for y in m.anc() if not y.cls), True, "included_modules")

    def emit(self, s, e, nt, lab):
        self.src.append("p((%s))" % s if s.startswith("m_") else "p(%s)" % s)
        self.exp.append(e)
        self.units.append(((s, e, len(self.src)), nt))
        self.labels.add(lab)

    def case(self):
        return Case("\n".join(self.src), self.exp, self.units, self.labels)


def q(r, n):
    if r is None:
        return "nil"
    return '"%s"' % r


def strategy():
    return from_g(lambda g: H(g).case())
