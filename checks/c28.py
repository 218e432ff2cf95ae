"""C28: programs of several files -- require, require_relative, load, autoload, the load path -- against a model of the loader."""
import os, shutil, tempfile
from driver import Case, compare
from gen import from_g

ID = "C28"
EXAMPLES = dict(quick=700, thorough=15000)
RULE = ("One evaluation = one require / require_relative / load / constant reference which may autoload / call of a method or lambda defined in another file, in a program "
        "of 4-8 generated files in nested directories; the whole trace is compared with a model of the loader. Non-trivial: the operation crosses files "
        "and the file was already loaded, is being loaded (a cycle), fails, is found through the load path, or runs for the first time below another file.")
ASSUMPTIONS = ["symbolic links, .so files and $LOADED_FEATURES are not generated", "files are read from a scratch directory which the check creates and removes"]
PATHS = ["f0.rb", "d/f1.rb", "d/e/f2.rb", "v1.2.rb", "lib/f4.rb", "d/f0.rb", "lib/sub/f1.rb", "d/x.y.rb"]
D = "@@DIR@@"


class Boom(Exception):
    pass


class Ret(Exception):
    pass


class LoadErr(Exception):
    pass


class Fuel(Exception):
    pass


class H:
    def __init__(self, g):
        self.g = g
        self.n = g.int(4, len(PATHS))
        self.files = {}       # path -> statements
        self.auto = [g.int(1, 99) for _ in range(g.int(0, 2))]
        self.nm = 0
        self.lambdas = 0

    # --- generation: statement = (kind, ..., source lines are made by render)
    def target(self, me):
        return PATHS[self.g.int(0, self.n - 1)]

    def req(self, me):
        """-> (form, argument as written, resolved path or None, is_load)"""
        g = self.g
        t = self.target(me)
        noext = t[:-3]
        k = g.int(0, 9)
        if g.bool(1, 20):
            return ("require", D + "/nope", None, False)
        if k <= 3 and me != "main":
            rel = os.path.relpath(noext, os.path.dirname(me) or ".")
            if g.bool(1, 4):
                rel = "./" + rel
            if g.bool(1, 4):
                rel += ".rb"
            return ("require_relative", rel, t, False)
        if k <= 6:
            a = D + "/" + g.choice([noext, noext, t, "d/../" + noext, "./" + noext, "d/e/../../" + t])
            return ("require", a, t, False)
        if k == 7:
            base = g.choice(["f0", "f1", "f4", "f2", "sub/f1", "x.y", "f4.rb"])
            return ("require", base, "?" + base, False)
        if me != "main" and PATHS.index(t) <= PATHS.index(me):
            return ("require", D + "/" + t, t, False)
        return ("load", D + "/" + t, t, True)

    def stmt(self, me, i):
        g = self.g
        k = g.int(0, 15)
        if k <= 5:
            return ("req", self.req(me), g.bool(1, 3))
        if k == 6:
            return ("local", g.choice("xyz"), g.int(0, 9))
        if k == 7:
            return ("show", g.choice("xyz"))
        if k == 8:
            self.nm += 1
            body = self.req(me) if g.bool() else None
            return ("defm", "m%d" % g.int(0, 4), self.nm, body)
        if k == 9:
            return ("callm", "m%d" % g.int(0, 4))
        if k == 10:
            return ("lam", g.int(0, 2), g.choice("xyz"))
        if k == 11:
            return ("calllam", g.int(0, 2))
        if k == 12:
            return ("where", g.choice(["file", "dir", "line"])) if me != "main" else ("show", "x")
        if k == 13 and me != "main":
            return ("raise", g.int(1, 3))
        if k == 14 and me != "main":
            return ("ret", g.int(1, 3))
        if self.auto and g.bool(1, 4):
            return ("autoload", g.int(0, len(self.auto) - 1))
        if self.auto:
            return ("auto", g.int(0, len(self.auto) - 1))
        return ("cls", g.int(0, 1), g.int(0, 2))

    def gen(self):
        g = self.g
        for i in range(self.n):
            p = PATHS[i]
            self.files[p] = [("enter",)] + g.rep(0, 5, lambda: self.stmt(p, i)) + [("leave",)]
        for j, v in enumerate(self.auto):
            self.files["auto%d.rb" % j] = [("autodef", j, v)]
        lp = list(dict.fromkeys(g.choice(["lib", "d", "d/e", "."]) for _ in range(g.int(0, 2))))
        self.files["main"] = [("path", p) for p in lp] + [("autoload", j) for j in range(len(self.auto))] + \
            [("top", self.stmt("main", 0)) for _ in range(g.int(4, 12))]

    # --- rendering
    def call_src(self, r):
        return '%s("%s")' % (r[0], r[1])

    def src_of(self, s, me, line):
        k = s[0]
        gv = "$g%d" % PATHS.index(me) if me in PATHS else None
        if k == "enter":
            return ["%s = (%s || 0) + 1" % (gv, gv), 'puts "enter %s #{%s}"' % (me, gv)]
        if k == "leave":
            return ['puts "leave %s"' % me]
        if k == "req":
            c = self.call_src(s[1])
            return ["begin", "  p(%s)" % c, "rescue LoadError", "  p :le", "rescue => e", '  puts "rescued " + e.message', "end"] if s[2] else ["p(%s)" % c]
        if k == "local":
            return ["%s = %d" % (s[1], s[2])]
        if k == "show":
            return ["p defined?(%s)" % s[1]]
        if k == "defm":
            return ["def %s" % s[1], '  puts "method %d of %s"' % (s[2], me)] + (["  p(%s)" % self.call_src(s[3])] if s[3] else []) + ["  :r%d" % s[2], "end"]
        if k == "callm":
            return ["p((%s rescue :none))" % s[1]]
        if k == "lam":
            return ["%s ||= 0" % s[2], '$l%d = lambda { %s += 1; "%s:#{%s}" }' % (s[1], s[2], me, s[2])]
        if k == "calllam":
            return ["p($l%d ? $l%d.call : nil)" % (s[1], s[1])]
        if k == "where":
            return ["p __%s__" % (s[1].upper() if s[1] != "dir" else "dir")]
        if k == "raise":
            return ['raise "boom %s" if %s == %d' % (me, gv, s[1])]
        if k == "ret":
            return ["return if %s == %d" % (gv, s[1])]
        if k == "auto":
            return ["p AM::Z%d" % s[1]]
        if k == "cls":
            return ["class CC%d" % s[1], "  def k%d; @v = (@v || 0) + 1; [\"%s\", @v]; end" % (s[2], me), "end",
                    "p CC%d.new.k%d" % (s[1], s[2])]
        if k == "autodef":
            return ['puts "auto %d"' % s[1], "module AM", "  Z%d = %d" % (s[1], s[2]), "end"]
        if k == "path":
            return ['$: << "%s/%s"' % (D, s[1])]
        if k == "autoload":
            return ["module AM", '  autoload :Z%d, "%s/auto%d"' % (s[1], D, s[1]), "end"]
        if k == "top":
            return ["begin"] + ["  " + x for x in self.src_of(s[1], me, line + 1)] + ["rescue LoadError", "  p :le", "rescue => e", '  puts "E " + e.message', "end"]
        raise AssertionError(k)

    def render(self):
        self.line = {}
        out = {}
        for p, ss in self.files.items():
            lines = []
            for i, s in enumerate(ss):
                self.line[p, i] = len(lines) + 1
                lines += self.src_of(s, p, len(lines) + 1)
            out[p] = lines
        return out

    # --- model
    def run(self):
        self.out, self.units, self.labels = [], [], set()
        self.loaded, self.cnt, self.meths, self.lams = set(), {}, {}, {}
        self.lp, self.fuel, self.depth = [], 300, 0
        self.exec_file("main")

    def exec_file(self, p):
        loc = {}
        self.depth += 1
        if self.depth > 40:
            raise Fuel()
        try:
            for i, s in enumerate(self.files[p]):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Fuel()
                self.step(s, p, loc, i)
        except Ret:
            pass
        finally:
            self.depth -= 1

    def require(self, r):
        """-> value printed"""
        form, arg, t, is_load = r
        if t is None:
            self.unit(r, "missing", True)
            raise LoadErr()
        nt = False
        if t.startswith("?"):
            base = t[1:]
            base = base[:-3] if base.endswith(".rb") else base
            nt = True
            for d in self.lp:
                q = os.path.normpath(os.path.join(d, base + ".rb"))
                if q in self.files:
                    t = q
                    break
            else:
                self.unit(r, "not in load path", True)
                raise LoadErr()
        if is_load:
            self.unit(r, "load", nt or t in self.cnt or self.depth > 1)
            self.exec_file(t)
            return "true"
        if t in self.loaded:
            self.unit(r, "again", True)
            return "false"
        self.unit(r, "first", nt or t in self.cnt or self.depth > 1)
        self.loaded.add(t)
        try:
            self.exec_file(t)
        except (Boom, LoadErr):
            self.loaded.discard(t)
            raise
        return "true"

    def unit(self, r, label, nt):
        self.labels.add(label)
        self.units.append(("%s|%s|%s|%d" % (r[0], r[1], label, len(self.out)), nt))

    def step(self, s, me, loc, i):
        k = s[0]
        o = self.out.append
        if k == "enter":
            self.cnt[me] = self.cnt.get(me, 0) + 1
            o("enter %s %d" % (me, self.cnt[me]))
        elif k == "leave":
            o("leave " + me)
        elif k == "req":
            if s[2]:
                try:
                    o(self.require(s[1]))
                except LoadErr:
                    o(":le")
                except Boom as e:
                    o("rescued " + str(e))
            else:
                o(self.require(s[1]))
        elif k == "local":
            loc[s[1]] = s[2]
        elif k == "show":
            o('"local-variable"' if s[1] in loc else "nil")
        elif k == "defm":
            self.meths[s[1]] = (me, s[2], s[3])
        elif k == "callm":
            if s[1] not in self.meths:
                o(":none")
                return
            f, n, body = self.meths[s[1]]
            o("method %d of %s" % (n, f))
            self.depth += 1
            try:
                if self.depth > 40:
                    raise Fuel()
                if body:
                    o(self.require(body))
                o(":r%d" % n)
            except Boom:
                o(":none")
            finally:
                self.depth -= 1
        elif k == "lam":
            loc.setdefault(s[2], 0)
            self.lams[s[1]] = (me, loc, s[2])
        elif k == "calllam":
            if s[1] not in self.lams:
                o("nil")
                return
            f, l, v = self.lams[s[1]]
            l[v] += 1
            self.units.append(("lam%s%d" % (f, l[v]), f != me))
            o('"%s:%d"' % (f, l[v]))
        elif k == "where":
            o({"file": '"%s/%s"' % (D, me), "dir": '"%s"' % os.path.normpath(os.path.join(D, os.path.dirname(me))), "line": str(self.line[me, i])}[s[1]])
        elif k == "raise":
            if self.cnt[me] == s[1]:
                raise Boom("boom " + me)
        elif k == "ret":
            if self.cnt[me] == s[1]:
                raise Ret()
        elif k == "auto":
            f = "auto%d.rb" % s[1]
            self.units.append(("auto%d %d" % (s[1], len(self.out)), True))
            if f not in self.loaded:
                self.loaded.add(f)
                o("auto %d" % s[1])
            o(str(self.auto[s[1]]))
        elif k == "cls":
            o('["%s", 1]' % me)
        elif k == "path":
            self.lp.append(s[1])
        elif k == "top":
            try:
                self.step(s[1], me, loc, i)
            except LoadErr:
                o(":le")
            except Boom as e:
                o("E " + str(e))


def build(g):
    h = H(g)
    h.gen()
    files = h.render()
    try:
        h.run()
    except Fuel:
        return Case("#=== main\np 1\n", ["1"], units=[("fuel", False)], labels=["fuel"])
    src = "".join("#=== %s\n%s\n" % (p, "\n".join(l)) for p, l in files.items())
    return Case(src, h.out, units=h.units or [(src, False)], labels=sorted(h.labels))


def check(case, ctx):
    d = os.path.realpath(tempfile.mkdtemp(prefix="c28-"))
    try:
        main = None
        for part in case.src.split("#=== ")[1:]:
            p, body = part.split("\n", 1)
            body = body.replace(D, d)
            if p == "main":
                main = body
                continue
            f = os.path.normpath(os.path.join(d, p))
            assert f.startswith(d + "/")
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as fh:
                fh.write(body)
        os.makedirs(os.path.join(d, "d/e"), exist_ok=True)
        res = ctx.runner(case.variant).run(main, case.cpu)
        exp = case.expected if isinstance(case.expected, list) else case.expected.split("\n")
        return compare(res, [l.replace(D, d) for l in exp])
    finally:
        shutil.rmtree(d, ignore_errors=True)


PARTS = ["files"]
VARIANTS = ["std"]
KNOWN_BY_CHECK = True


def strategy(part=None):
    return from_g(build)


def regressions():
    return []
