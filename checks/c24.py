"""C24: objects -- instance variables, attributes, identity, copies, singleton methods, introspection -- against a model of an object store."""
from driver import Case
from gen import from_g
from model import Sym, insp

ID = "C24"
EXAMPLES = dict(quick=1600, thorough=40000)
RULE = ("One evaluation = one operation of a history (new, attribute read/write/op-assign, method that reads and writes instance variables, instance_variable_get/set, "
        "dup, clone, singleton def, extend, reopening or copying a class, send, Method objects, queries) over up to 9 objects of 3-6 related classes; its result and, at the "
        "end, the complete state of every object are compared with a model. Non-trivial: the operation was executed when at least three objects existed, or it copied an object or changed a class.")
ASSUMPTIONS = ["the order of instance_variables is the order in which the object got them", "objects are named by identity (equal?), addresses are not compared",
               "initialize_copy, visibility and freezing are not supported by ruruby and not generated", "builtin subclasses are created without arguments"]

PRELUDE = """$R = []
def sh(v)
  i = 0
  while i < $R.size
    return "o#{i}" if $R[i].equal?(v)
    i += 1
  end
  return "[" + v.map { |x| sh(x) }.join(", ") + "]" if v.is_a?(Array)
  v.inspect
end
def reg(v)
  $R << v
  v
end
def dump
  i = 0
  while i < $R.size
    o = $R[i]
    puts "o#{i} #{o.class} " + (o.instance_variables - [:@message, :@backtrace]).map { |n| "#{n}=#{sh(o.instance_variable_get(n))}" }.join(" ")
    i += 1
  end
end
"""

IVS = ["a", "b", "c", "d", "x", "_y", "Zed"]
MNAMES = ["m", "n", "k", "w"]


class NM(Exception):
    pass


class AE(Exception):
    pass


class Cls:
    def __init__(self, name, sup, mods=(), kind="obj", is_mod=False):
        self.name, self.sup, self.mods, self.is_mod = name, sup, [], is_mod
        self.kind = sup.kind if sup and sup.kind != "obj" else kind
        self.meths = {}       # name -> Body
        self.ivs = {}
        self.members = None
        for m in mods:
            self.include(m)

    def include(self, m):
        if m not in self.mro():
            self.mods.append(m)

    def mro(self):
        r = [self] + self.mods[::-1]
        return r + (self.sup.mro() if self.sup else [])


class Body:
    """fn(run, obj, args, where) -> value; where = (mro, index of the owner)"""

    def __init__(self, fn, argc):
        self.fn, self.argc = fn, argc


class Obj:
    def __init__(self, cls):
        self.cls, self.ivs, self.single, self.ext = cls, {}, {}, []
        self.content = "" if cls.kind == "str" else []
        self.has_single = False

    def mro(self):
        s = Cls.__new__(Cls)
        s.name, s.meths, s.sup, s.mods, s.is_mod = None, self.single, None, [], False
        return [s] + self.ext[::-1] + self.cls.mro()

    def find(self, name, mro=None, start=0):
        mro = mro or self.mro()
        for i in range(start, len(mro)):
            if name in mro[i].meths:
                return mro[i].meths[name], (mro, i)
        return None, None

    def copy(self, clone):
        o = Obj(self.cls)
        o.ivs = dict(self.ivs)
        o.content = self.content if isinstance(self.content, str) else list(self.content)
        if clone:
            o.single, o.ext, o.has_single = dict(self.single), list(self.ext), self.has_single
        return o


class H:
    def __init__(self, g):
        self.g = g
        self.src, self.out, self.units, self.labels = [], [], [], []
        self.objs, self.classes, self.mods = [], [], []
        self.nc = 0
        self.methobjs = []

    # ---- model execution
    def call(self, o, name, args):
        b, where = o.find(name)
        if b is None:
            raise NM()
        return self.run(o, b, where, name, args)

    def run(self, o, b, where, name, args):
        if b.argc is not None and b.argc != len(args):
            raise AE()
        return b.fn(o, args, where, name)

    def show(self, v):
        for i, o in enumerate(self.objs):
            if o is v:
                return "o%d" % i
        if isinstance(v, list):
            return "[" + ", ".join(self.show(x) for x in v) + "]"
        if isinstance(v, Cls):
            return v.name
        return insp(v)

    # ---- code generation
    def attr_code(self, cls):
        g = self.g
        kind = g.choice(["attr_accessor", "attr_accessor", "attr_reader", "attr_writer"])
        ns = list(dict.fromkeys(g.choice(IVS[:6]) for _ in range(g.int(1, 3))))
        for n in ns:
            self.def_attr(cls, kind, n)
        return "  %s %s" % (kind, ", ".join(":" + n for n in ns))

    def def_attr(self, cls, kind, n):
        if kind != "attr_writer":
            cls.meths[n] = Body(lambda o, a, w, nm, n=n: o.ivs.get(n), 0)
        if kind != "attr_reader":
            def wr(o, a, w, nm, n=n):
                o.ivs[n] = a[0]
                return a[0]
            cls.meths[n + "="] = Body(wr, 1)

    def val(self, params=(), objs=True):
        """-> (source, fn(env))"""
        g = self.g
        k = g.int(0, 9)
        if params and k <= 4:
            p = g.choice(list(params))
            return p, lambda env, p=p: env[p]
        if k <= 6:
            i = g.int(-3, 99)
            return str(i), lambda env, i=i: i
        if k == 7:
            s = Sym(g.choice(["q", "r", "a"]))
            return insp(s), lambda env, s=s: s
        if k == 8:
            return "nil", lambda env: None
        s = g.choice(["s", "", "tt"])
        return insp(s), lambda env, s=s: s

    def body_code(self, indent, name, allow_super=True):
        """a method body -> (lines, argc, fn)"""
        g = self.g
        argc = g.choice([1, 1, 0, 2])
        ps = ["u", "v"][:argc]
        lines, steps = [], []
        sup = allow_super and g.bool(1, 3)
        suppos = g.int(0, 2)
        for i in range(g.int(1, 3)):
            if sup and suppos == i:
                bare = g.bool()
                al = [] if bare else [self.val(ps) for _ in range(argc)]
                lines.append("r = super" if bare else "r = super(%s)" % ", ".join(a[0] for a in al))

                def st(o, env, w, nm, bare=bare, al=al):
                    args = [env[p] for p in ps] if bare else [a[1](env) for a in al]
                    b, wh = o.find(nm, w[0], w[1] + 1)
                    if b is None:
                        raise NM()
                    env["r"] = self.run(o, b, wh, nm, args)
                steps.append(st)
            iv = g.choice(IVS)
            k = g.int(0, 6)
            if k <= 2:
                s, f = self.val(ps)
                lines.append("@%s = %s" % (iv, s))
                steps.append(lambda o, env, w, nm, iv=iv, f=f: o.ivs.__setitem__(iv, f(env)))
            elif k == 3:
                s, f = self.val(ps)
                lines.append("@%s ||= %s" % (iv, s))

                def st(o, env, w, nm, iv=iv, f=f):
                    if o.ivs.get(iv) is None:
                        o.ivs[iv] = f(env)
                steps.append(st)
            elif k == 4:
                iv = "cnt"
                lines.append("@cnt = (@cnt || 0) + 1")
                steps.append(lambda o, env, w, nm: o.ivs.__setitem__("cnt", (o.ivs.get("cnt") or 0) + 1))
            elif k == 5:
                s, f = self.val([])
                lines.append("(@lst ||= []) << %s" % s)

                def st(o, env, w, nm, f=f):
                    if "lst" not in o.ivs or o.ivs["lst"] is None:
                        o.ivs["lst"] = []
                    o.ivs["lst"].append(f(env))
                steps.append(st)
            else:
                iv2 = g.choice(IVS)
                lines.append("@%s, @%s = @%s, @%s" % (iv, iv2, iv2, iv))

                def st(o, env, w, nm, iv=iv, iv2=iv2):
                    p, q = o.ivs.get(iv2), o.ivs.get(iv)
                    o.ivs[iv] = p
                    o.ivs[iv2] = q
                steps.append(st)
        if sup and suppos >= i + 1:
            sup = False
        rets = [g.choice(IVS) for _ in range(g.int(1, 2))]
        self_ret = g.bool(1, 8)
        lines.append("self" if self_ret else "[%s]" % ", ".join((["r"] if sup else []) + ["@" + r for r in rets]))

        def fn(o, args, w, nm):
            env = dict(zip(ps, args))
            for s in steps:
                s(o, env, w, nm)
            if self_ret:
                return o
            return ([env["r"]] if sup else []) + [o.ivs.get(r) for r in rets]
        return [indent + x for x in lines], ps, argc, fn

    def def_code(self, target, name, indent="  ", prefix="", allow_super=True):
        lines, ps, argc, fn = self.body_code(indent + "  ", name, allow_super)
        target[name] = Body(fn, argc)
        return ["%sdef %s%s%s" % (indent, prefix, name, "(%s)" % ", ".join(ps) if ps else "")] + lines + [indent + "end"]

    def new_class(self):
        g = self.g
        self.nc += 1
        name = "K%d" % self.nc
        k = g.int(0, 9)
        sup = None
        bases = [c for c in self.classes]
        if bases and k <= 4:
            sup = g.choice(bases)
        kind = "obj"
        if sup is None and k == 5:
            kind = g.choice(["arr", "str", "exc", "hash"])
        if sup is None and k in (6, 7):
            mem = list(dict.fromkeys(g.choice("abcd") for _ in range(g.int(1, 3))))
            c = Cls(name, None, kind="struct")
            c.members = mem
            for m in mem:
                self.def_attr(c, "attr_accessor", m)
            head = "%s = Struct.new(%s)" % (name, ", ".join(":" + m for m in mem))
            if g.bool():
                self.src.append(head)
                self.classes.append(c)
                return
            base = c
            base.name = None
            c = Cls(name, base, kind="struct")
            self.src.append("class %s < Struct.new(%s)" % (name, ", ".join(":" + m for m in mem)))
        else:
            c = Cls(name, sup, kind=kind)
            base = {"arr": "Array", "str": "String", "exc": "StandardError", "hash": "Hash"}.get(kind)
            self.src.append("class %s%s" % (name, " < " + (sup.name if sup else base) if sup or base else ""))
        if self.mods and g.bool(1, 3):
            m = g.choice(self.mods)
            c.include(m)
            self.src.append("  include " + m.name)
        self.class_body(c, g.int(1, 3))
        if c.kind == "obj" and g.bool(1, 3):
            iv = [g.choice(IVS) for _ in range(g.int(1, 3))]
            self.src.append("  def initialize(u = 5)")
            for n in iv:
                self.src.append("    @%s = u" % n)
            self.src.append("  end")

            def init(o, args, w, nm, iv=iv):
                u = args[0] if args else 5
                for n in iv:
                    o.ivs[n] = u
            c.meths["initialize"] = Body(init, None)
        self.src.append("end")
        self.classes.append(c)

    def class_body(self, c, n):
        g = self.g
        for _ in range(n):
            k = g.int(0, 5)
            if k <= 1:
                self.src.append(self.attr_code(c))
            else:
                self.src += self.def_code(c.meths, g.choice(MNAMES))

    def new_mod(self):
        self.nc += 1
        m = Cls("M%d" % self.nc, None, is_mod=True)
        self.src.append("module %s" % m.name)
        self.class_body(m, self.g.int(1, 2))
        self.src.append("end")
        self.mods.append(m)

    def emit(self, code, out, label, nt=None):
        self.src.append(code)
        self.out += out
        self.labels.append(label)
        self.units.append((code + "|" + ",".join(out), len(self.objs) >= 3 if nt is None else nt))

    def attempt(self, expr, f, label, nt=None):
        """print the value of expr, or the class of error"""
        try:
            v = self.show(f())
        except NM:
            v = "nomethod"
        except AE:
            v = "argument"
        self.emit("begin; r = %s; puts sh(r); rescue ArgumentError; puts 'argument'; rescue NameError; puts 'nomethod'; end" % expr, [v], label, nt)

    def step(self):
        g = self.g
        k = g.int(0, 33)
        if len(self.objs) < 2 or (k <= 2 and len(self.objs) < 9):
            c = g.choice(self.classes)
            i = len(self.objs)
            args, o = [], Obj(c)
            if c.kind == "obj":
                b, w = o.find("initialize")
                if b:
                    args = [self.val() for _ in range(g.int(0, 1))]
                    b.fn(o, [a[1]({}) for a in args], w, "initialize")
            elif c.kind == "struct":
                s = c
                while s.members is None:
                    s = s.sup
                args = [self.val() for _ in range(g.int(0, len(s.members)))]
                for n, a in zip(s.members, args):
                    o.ivs[n] = a[1]({})
            self.objs.append(o)
            self.emit("o%d = reg(%s.new(%s))" % (i, c.name, ", ".join(a[0] for a in args)), [], "new")
            return
        i = g.int(0, len(self.objs) - 1)
        o = self.objs[i]
        n = "o%d" % i
        if k <= 4 and len(self.objs) < 9:
            cl = g.bool()
            self.objs.append(o.copy(cl))
            how = "clone" if cl else "dup"
            self.emit("o%d = reg(%s.%s)" % (len(self.objs) - 1, n, how), [], how, True)
        elif k <= 8:
            a = g.choice(self.attrs(o))
            if g.bool():
                self.attempt("%s.%s" % (n, a), lambda: self.call(o, a, []), "attr")
            else:
                s, f = self.argval()
                v = f({})

                def wr():
                    self.call(o, a + "=", [v])
                    return v
                if g.bool(1, 3):
                    self.attempt("%s.send(:%s=, %s)" % (n, a, s), lambda: self.call(o, a + "=", [v]), "attr= by send")
                else:
                    self.attempt("(%s.%s = %s)" % (n, a, s), wr, "attr=")
        elif k == 9:
            a = g.choice(self.attrs(o))
            op = g.choice(["||=", "&&="])
            s, f = self.argval()
            v = f({})

            def opa():
                cur = self.call(o, a, [])
                t = cur is not None and cur is not False
                if t == (op == "||="):
                    return cur
                self.call(o, a + "=", [v])
                return v
            self.attempt("(%s.%s %s %s)" % (n, a, op, s), opa, "attr op=")
        elif k <= 15:
            m = g.choice(MNAMES)
            b, _ = o.find(m)
            argc = b.argc if b and g.bool(14, 15) else g.int(0, 2)
            al = [self.argval() for _ in range(argc)]
            form = "%s.%s(%s)" % (n, m, ", ".join(a[0] for a in al)) if g.bool(2, 3) else \
                "%s.send(:%s%s)" % (n, m, "".join(", " + a[0] for a in al))
            vs = [a[1]({}) for a in al]
            self.attempt(form, lambda: self.call(o, m, vs), "call")
        elif k == 16:
            # one call site, several receivers
            m = g.choice(MNAMES)
            sel = [g.int(0, len(self.objs) - 1) for _ in range(g.int(2, 5))]
            outs = []
            for j in sel:
                try:
                    outs.append(self.show(self.call(self.objs[j], m, [7])))
                except NM:
                    outs.append("nomethod")
                except AE:
                    outs.append("argument")
            self.emit("[%s].each { |x| begin; puts sh(x.%s(7)); rescue ArgumentError; puts 'argument'; rescue NameError; puts 'nomethod'; end }" %
                      (", ".join("o%d" % j for j in sel), m), outs, "polymorphic call")
        elif k == 17:
            a = g.choice(IVS[:6])
            sel = [g.int(0, len(self.objs) - 1) for _ in range(g.int(2, 5))]
            outs = []
            for q, j in enumerate(sel):
                try:
                    self.call(self.objs[j], a + "=", [q])
                    outs.append(self.show(self.call(self.objs[j], a, [])))
                except NM:
                    outs.append("nomethod")
            self.emit("q = -1; [%s].each { |x| q += 1; begin; x.%s = q; puts sh(x.%s); rescue NameError; puts 'nomethod'; end }" %
                      (", ".join("o%d" % j for j in sel), a, a), outs, "polymorphic attr")
        elif k == 18:
            a = g.choice(IVS)
            s, f = self.argval()
            v = f({})
            key = g.choice([":@%s", "'@%s'"]) % a
            o.ivs[a] = v
            self.attempt("%s.instance_variable_set(%s, %s)" % (n, key, s), lambda: v, "ivar_set")
        elif k == 19:
            a = g.choice(IVS)
            key = g.choice([":@%s", "'@%s'"]) % a
            self.attempt("%s.instance_variable_get(%s)" % (n, key), lambda: o.ivs.get(a), "ivar_get")
        elif k == 20:
            self.emit("puts (%s.instance_variables - [:@message, :@backtrace]).inspect" % n, ["[" + ", ".join(":@" + x for x in o.ivs) + "]"], "ivars")
        elif k <= 22:
            if g.bool(2, 3):
                nm = g.choice(MNAMES + ["sg"])
                lines = self.def_code(o.single, nm, "", n + ".")
            elif g.bool():
                lines = ["class << %s" % n]
                mark = self.src
                self.src = []
                c = Cls.__new__(Cls)
                c.meths = o.single
                lines.append(self.attr_code(c))
                self.src = mark
                lines.append("end")
            else:
                nm = g.choice(MNAMES)
                lines = ["class << %s" % n] + self.def_code(o.single, nm) + ["end"]
            o.has_single = True
            self.emit("\n".join(lines), [], "singleton def", True)
        elif k == 23 and self.mods:
            m = g.choice(self.mods)
            if m not in o.mro():
                o.ext.append(m)
            self.emit("%s.extend(%s)" % (n, m.name), [], "extend", True)
        elif k == 24:
            c = g.choice(self.classes + self.mods)
            mark, self.src = self.src, []
            self.class_body(c, 1)
            body, self.src = self.src, mark
            self.emit("\n".join(["%s %s" % ("module" if c.is_mod else "class", c.name)] + body + ["end"]), [], "reopen", True)
        elif k == 25:
            c = g.choice([x for x in self.classes])
            if g.bool(1, 2) and self.nc < 14:
                self.nc += 1
                d = Cls("K%d" % self.nc, c.sup, kind=c.kind)
                d.mods, d.meths, d.ivs, d.members = list(c.mods), dict(c.meths), dict(c.ivs), c.members
                self.classes.append(d)
                self.emit("%s = %s.%s" % (d.name, c.name, g.choice(["dup", "clone"])), [], "copy class", True)
            elif g.bool():
                a = g.choice(IVS)
                s, f = self.argval()
                c.ivs[a] = f({})
                self.emit("%s.instance_variable_set(:@%s, %s)" % (c.name, a, s), [], "class ivar")
            else:
                a = g.choice(IVS)
                self.attempt("%s.instance_variable_get(:@%s)" % (c.name, a), lambda: c.ivs.get(a), "class ivar")
        elif k <= 28:
            self.query(i, o, n)
        elif k == 29:
            m = g.choice(MNAMES)
            b, w = o.find(m)
            if b:
                self.methobjs.append((b, w, o, m))
                self.emit("mo%d = %s.method(:%s)" % (len(self.methobjs) - 1, n, m), [], "method object")
            else:
                self.attempt("%s.method(:%s)" % (n, m), lambda: self.call(o, m, []), "method object")
        elif k == 30 and self.methobjs:
            j = g.int(0, len(self.methobjs) - 1)
            b, w, o2, m = self.methobjs[j]
            al = [self.argval() for _ in range(b.argc)]
            vs = [a[1]({}) for a in al]
            self.attempt("mo%d%s(%s)" % (j, g.choice([".call", ".call", "."]), ", ".join(a[0] for a in al)) if b.argc else "mo%d.call" % j,
                         lambda: self.run(o2, b, w, m, vs), "method object call")
        elif k == 31 and o.cls.kind in ("arr", "str"):
            if o.cls.kind == "arr":
                o.content.append(k)
                self.emit("%s << %d; p %s.size" % (n, k, n), [str(len(o.content))], "content")
            else:
                o.content += "z"
                self.emit("%s << 'z'; p %s.to_s" % (n, n), [insp(o.content)], "content")
        else:
            self.emit("dump", self.dump(), "dump")

    def attrs(self, o):
        have = [x for c in o.mro() for x in c.meths if x in IVS]
        return have * 2 + IVS[:6]

    def argval(self):
        g = self.g
        if g.bool(1, 4):
            j = g.int(0, len(self.objs) - 1)
            o = self.objs[j]
            return "o%d" % j, lambda env, o=o: o
        return self.val()

    def query(self, i, o, n):
        g = self.g
        k = g.int(0, 9)
        j = g.int(0, len(self.objs) - 1)
        t = lambda b: "true" if b else "false"
        q = self.objs[j]
        if k == 0:
            op = g.choice(["equal?", "equal?", "==", "eql?"]) if o.cls.kind in ("obj", "struct") else "equal?"
            self.emit("p %s.%s(o%d)" % (n, op, j), [t(o is q)], "identity")
        elif k == 1:
            m = g.choice(MNAMES + IVS[:4] + [x + "=" for x in IVS[:4]] + ["sg"])
            self.emit("p %s.respond_to?(:%s)" % (n, m), [t(o.find(m)[0] is not None)], "respond_to?")
        elif k == 2:
            c = g.choice(self.classes + self.mods)
            r = c in o.mro()
            self.emit(g.choice(["p %s.is_a?(%s)" % (n, c.name), "p(%s === %s)" % (c.name, n), "p %s.kind_of?(%s)" % (n, c.name)]), [t(r)], "is_a?")
        elif k == 3:
            c = g.choice(self.classes)
            self.emit("p %s.instance_of?(%s), %s.class.equal?(%s)" % (n, c.name, n, c.name), [t(c is o.cls)] * 2, "instance_of?")
        elif k == 4:
            self.emit("p %s.class" % n, [o.cls.name], "class")
        elif k == 5:
            m = g.choice(MNAMES)
            b, w = o.find(m)
            if b and w[0][w[1]].name:
                self.emit("p %s.method(:%s).owner" % (n, m), [w[0][w[1]].name], "owner")
            elif b and w[1] == 0:
                self.emit("p %s.method(:%s).owner.equal?(%s.singleton_class)" % (n, m, n), ["true"], "owner")
        elif k == 6:
            self.emit("p %s.singleton_methods(false)" % n, ["[" + ", ".join(":" + m for m in o.single) + "]"], "singleton_methods")
        elif k == 7:
            self.emit("p(%s.object_id == o%d.object_id)" % (n, j), [t(o is q)], "object_id")
        elif k == 8 and o.cls.kind in ("obj", "struct") and q.cls.kind in ("obj", "struct"):
            self.emit("h = {%s => 1}; p h[o%d], [%s].include?(o%d)" % (n, j, n, j), ["1" if o is q else "nil", t(o is q)], "key identity")
        else:
            c = g.choice(self.classes)
            self.emit("p %s.instance_methods(false).select { |x| %s.include?(x) }" % (c.name, insp([Sym(m) for m in MNAMES])),
                      ["[" + ", ".join(":" + m for m in c.meths if m in MNAMES) + "]"], "instance_methods")

    def dump(self):
        return [("o%d %s " % (i, o.cls.name) + " ".join("@%s=%s" % (k, self.show(v)) for k, v in o.ivs.items())) for i, o in enumerate(self.objs)]


def build(g):
    h = H(g)
    for _ in range(g.int(0, 2)):
        h.new_mod()
    for _ in range(g.int(2, 4)):
        h.new_class()
    for _ in range(g.int(8, 30)):
        h.step()
    h.emit("dump", h.dump(), "dump")
    return Case(PRELUDE + "\n".join(h.src) + "\n", h.out, units=h.units, labels=sorted(set(h.labels)),
                variant="stress" if g.bool(1, 10) else "std")


PARTS = ["objects"]
VARIANTS = ["std", "stress"]


def strategy(part):
    return from_g(build)


def regressions():
    return []
