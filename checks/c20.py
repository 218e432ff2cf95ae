"""C20: Regexp matching and regexp-based String methods against Python's re."""
import os, re, subprocess
import driver
from driver import Case
from gen import from_g
from model import *

ID = "C20"
EXAMPLES = dict(quick=1500, thorough=40000)
RULE = ("One evaluation = one regexp operation on one subject string (match operators with $~-variables, scan, sub/gsub with replacement/back references/block, split with captures, index, "
        "slice!, case/when, Regexp.new/escape) compared with Python's re. Non-trivial: the pattern matched at least once.")
ASSUMPTIONS = ["patterns are from the common subset of Ruby's and Python's syntax: literals, classes, groups, alternation, greedy/lazy quantifiers, anchors, lookaround, back references to groups that always participate",
               "quantified sub-patterns do not match the empty string; shorthand classes are applied to ASCII subjects only",
               "subjects do not end in a newline (Ruby's ^/$ rules for the empty last line are engine-specific)"]


def crate_disagrees(pairs):
    """Does the regex engine ruruby uses (a dependency), asked directly, disagree with Python on one of these patterns and subjects?"""
    inp = "".join("%s\n%s\n" % (rp.encode().hex(), s.encode().hex()) for rp, _, _, s in pairs)
    exe = os.path.join(driver.ROOT, "target", "std", "debug", "rxoracle")
    r = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, text=True, timeout=60)
    lines = r.stdout.split("\n")
    for (rp, py, fl, s), l in zip(pairs, lines):
        rx = re.compile(py, fl)
        o = []
        for p in range(len(s) + 1):
            m = rx.search(s, p)
            o.append("-" if not m else ";".join("n" if m.start(k) < 0 else "%d,%d" % m.span(k) for k in range(rx.groups + 1)))
        if " ".join(o) != l:
            return True
    return False


def check(case, ctx):
    msg = driver.compare(ctx.runner(case.variant).run(case.src, case.cpu), case.expected)
    if msg not in (None, "inconclusive") and case.extra and crate_disagrees(case.extra):
        return None
    return msg


class P:
    """A generated pattern: Ruby source, Python source."""

    def __init__(self, g, ascii_):
        self.g = g
        self.ascii = ascii_
        self.ng = 0
        self.sure = []
        self.alpha = "abc1" if ascii_ else "abé1"
        x = g.int(0, 3)
        self.rb, self.py, self.null = self.alt(3, True, x == 0)

    def lit(self):
        g = self.g
        c = g.choice(self.alpha + "  -" if g.bool(1, 5) else self.alpha)
        return c, c

    def atom(self, d, sure):
        """(rb, py, nullable)"""
        g = self.g
        x = g.int(0, 13)
        if x <= 4 or d <= 0:
            a, b = self.lit()
            return a, b, False
        if x == 5:
            return ".", ".", False
        if x <= 7:
            n = g.bool(1, 3)
            cs = "".join(g.list(lambda: g.choice(["a", "b", "c", "1", "a-c", "0-9", "é", "-" if False else "x", " "]), 1, 3))
            if not n and self.ascii:
                cs = cs.replace("é", "c")
            s = "[" + ("^" if n else "") + cs + "]"
            return s, s, False
        if x == 8 and self.ascii:
            a, b = g.choice([("\\d", "[0-9]"), ("\\w", "[a-zA-Z0-9_]"), ("\\s", "[ \\t\\n]"), ("\\D", "[^0-9]"), ("\\W", "[^a-zA-Z0-9_]"), ("\\S", "[^ \\t\\n]"),
                             ("\\h", "[0-9a-fA-F]"), ("[[:alpha:]]", "[a-zA-Z]"), ("[[:digit:]x]", "[0-9x]"), ("[\\da]", "[0-9a]")])
            return a, b, False
        if x == 9:
            a, b = g.choice([("\\.", "\\."), ("\\+", "\\+"), ("\\*", "\\*"), ("\\n", "\\n"), ("\\(", "\\("), ("\\[", "\\["), ("\\/", "/"), ("\\\\", "\\\\"), ("\\?", "\\?")])
            return a, b, False
        if x == 10 and self.sure and g.bool():
            k = g.choice(self.sure)
            return "(?:\\%d)" % k, "(?:\\%d)" % k, True
        if x <= 12:
            self.ng += 1
            k = self.ng
            a, b, n = self.alt(d - 1, sure, True)
            if sure:
                self.sure.append(k)
            if g.bool(1, 8) and self.ng == 1 and False:
                pass
            return "(" + a + ")", "(" + b + ")", n
        a, b, n = self.alt(d - 1, sure, True)
        return "(?:" + a + ")", "(?:" + b + ")", n

    def piece(self, d, sure):
        g = self.g
        x = g.int(0, 15)
        if x == 0:
            a = g.choice(["^", "$", "\\A", "\\z"] + (["\\b", "\\B"] if self.ascii else []))
            return a, {"\\z": "\\Z", "\\B": "(?!\\b)", "^": "(?m:^)", "$": "(?m:$)"}.get(a, a), True
        if x == 1 and d > 0:
            w = g.choice(["?=", "?!", "?<=", "?<!"])
            if w in ("?<=", "?<!"):
                a, b = self.lit()
                if g.bool():
                    a2, b2 = self.lit()
                    a, b = a + a2, b + b2
            else:
                ng = self.ng
                sv = list(self.sure)
                a, b, _ = self.alt(d - 1, False, True)
                if self.ng != ng:      # no captures inside lookaround
                    a, b = self.lit()
                    self.ng, self.sure = ng, sv
            return "(%s%s)" % (w, a), "(%s%s)" % (w, b), True
        q = ""
        ng0, s0 = self.ng, len(self.sure)
        if g.bool(1, 3):
            q = g.choice(["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{0,1}", "{2,}"])
        zero = q[:1] in ("*", "?") or q == "{0,1}"
        a, b, n = self.atom(d, sure and not q)
        if q and n:
            q = ""
            zero = False
        if q and len(a) > 1 and not (a[0] == "\\" or a[0] in "(["):
            a, b = "(?:%s)" % a, "(?:%s)" % b
        return a + q, b + q, n or zero

    def seq(self, d, sure, nullable):
        ps = self.g.list(lambda: self.piece(d, sure), 1, 4 if d > 1 else 2)
        return "".join(p[0] for p in ps), "".join(p[1] for p in ps), all(p[2] for p in ps)

    def alt(self, d, sure, nullable):
        if d > 0 and self.g.bool(1, 4):
            xs = [self.seq(d - 1, False, True) for _ in range(self.g.int(2, 3))]
            return "|".join(x[0] for x in xs), "|".join(x[1] for x in xs), any(x[2] for x in xs)
        return self.seq(d, sure, True)


def scan(r, s):
    """All successive matches, Ruby's way."""
    i = 0
    while i <= len(s):
        m = r.search(s, i)
        if not m:
            return
        yield m
        i = m.end() + (1 if m.end() == m.start() else 0)


def gsub(r, s, f, once=False):
    o, p = "", 0
    for m in scan(r, s):
        o += s[p:m.start()] + f(m)
        p = m.end()
        if once:
            break
    return o + s[p:]


def expand(rep, m):
    o, i = "", 0
    while i < len(rep):
        c = rep[i]
        if c != "\\" or i + 1 == len(rep):
            o += c
            i += 1
            continue
        d = rep[i + 1]
        i += 2
        if d.isdigit():
            k = int(d)
            if k <= m.re.groups:
                o += m.group(k) or ""
        elif d == "&":
            o += m.group(0)
        elif d == "\\":
            o += "\\"
        else:
            o += "\\" + d
    return o


def split(r, s, lim=0):
    res = []
    if not s:
        return res
    count, beg, start, last_null = 1, 0, 0, False
    while start <= len(s) and (lim <= 0 or count < lim):
        m = r.search(s, start)
        if not m:
            break
        if m.start() == start and m.end() == start:
            if not last_null:
                start += 1
                last_null = True
                continue
            res.append(s[beg:start])
            beg = start
        else:
            res.append(s[beg:m.start()])
            beg = start = m.end()
        last_null = False
        count += 1
        res += [x for x in m.groups() if x is not None]
    res.append(s[beg:])
    if lim == 0:
        while res and res[-1] == "":
            res.pop()
    return res


def bad_split(r, s):
    """An empty match with last_null pending but text skipped: engines agree only on the simple cases."""
    return False


class H:
    def __init__(self, g):
        self.g = g
        self.src, self.out, self.units = [], [], []
        self.last = None        # (subject, match) or None
        self.ascii = g.bool(3, 4)
        self.pairs = []

    def subj(self):
        g = self.g
        al = ["a", "b", "c", "1", " ", "ab", "aa", "x", "\n", "-", "A", "."] if self.ascii else ["a", "b", "é", "あ", "1", "ab", "\n", "😀"]
        s = "".join(g.rep(0, 12, lambda: g.choice(al)))
        while s.endswith("\n"):
            s = s[:-1]
        return s

    def pat(self):
        """(ruby regexp expression, compiled python)"""
        g = self.g
        while True:
            p = P(g, self.ascii)
            fl = ""
            f = re.UNICODE
            if g.bool(1, 6):
                fl += "i"
                f |= re.IGNORECASE
            if not fl and g.bool(1, 6):
                fl += "m"
                f |= re.DOTALL
            try:
                r = re.compile(p.py, f)
            except re.error:
                continue
            break
        x = g.int(0, 7)
        rb = p.rb
        self.rp = ("(?m%s)" % fl.replace("m", "s") + re.sub(r"\\Z\Z", r"\\z", rb.replace("\\/", "/")), p.py, f)
        if x == 0 and not fl:
            return "Regexp.new(%s)" % sinsp(rb.replace("\\/", "/")), r
        if x == 1 and rb and not fl and "/" not in rb:
            return "%%r{%s}%s" % (rb, fl) if "{" not in rb else "/%s/%s" % (rb, fl), r
        if x == 2 and not p.ng and rb.isalnum() and len(rb) > 1:
            self.src.append("w = %s" % lit(rb[1:]))
            return "/%s#{w}/%s" % (rb[0], fl), r
        if rb.startswith("=") or rb.startswith(" "):
            rb = "(?:)" + rb
        return "/%s/%s" % (rb, fl), r

    def specials(self):
        self.src.append("p [$&, $1, $2, $3, $']")
        if self.last is None:
            self.out.append("[nil, nil, nil, nil, nil]")
        else:
            s, m = self.last
            gs = [m.group(k) if k <= m.re.groups else None for k in (1, 2, 3)]
            self.out.append(insp([m.group(0)] + gs + [s[m.end():]]))

    def op(self):
        g = self.g
        s = self.subj()
        ps, r = self.pat()
        if g.bool(1, 3):
            self.src.append("r = %s" % ps)
            ps = "r"
        sl = lit(s)
        if g.bool(1, 3):
            self.src.append("s = %s" % sl)
            sl = "s"
        rp, py, fl = self.rp
        self.pairs.append((rp, py, int(fl), s))
        m = r.search(s)
        nt = m is not None
        sp = g.bool()
        x = g.int(0, 15)

        def setl(k):
            self.last = (s, k) if k else None
        if x <= 2:
            setl(m)
            e, v = g.choice([("(%s =~ %s)" % (sl, ps), m.start() if m else None), ("(%s =~ %s)" % (ps, sl), m.start() if m else None), ("(%s !~ %s)" % (sl, ps), m is None),
                             ("(%s === %s)" % (ps, sl), m is not None), ("%s.match(%s)" % (sl, ps), ([m.group(0)] + list(m.groups())) if m else None),
                             ("(case %s; when %s; 1; else 2; end)" % (sl, ps), 1 if m else 2), ("(if %s =~ %s then 1 else 2 end)" % (sl, ps), 1 if m else 2)])
            if "!~" in e:
                sp = True
            if "match" in e and s == "":
                return
            sp = True
        elif x <= 4:
            ms = list(scan(r, s))
            v = [k.group(0) if r.groups == 0 else list(k.groups()) for k in ms]
            e = "%s.scan(%s)" % (sl, ps)
            if g.bool(1, 3):
                e = "(l = []; %s.scan(%s) { |x| l << x }; l)" % (sl, ps)
                sp = False
                self.last = 0
            else:
                setl(ms[-1] if ms else None)
        elif x <= 8:
            once = g.bool(1, 3)
            meth = "sub" if once else "gsub"
            ms = list(scan(r, s))
            k = g.int(0, 3)
            if k <= 1:
                rep = "".join(g.list(lambda: g.choice(["\\0", "\\1", "\\2", "-", "é", "<", "\\\\", "\\&", "x", "", "\\q"]), 0, 3))
                e = "%s.%s(%s, %s)" % (sl, meth, ps, lit(rep))
                f = lambda q: expand(rep, q)
            elif k == 2:
                e = "%s.%s(%s) { |x| x + '.' }" % (sl, meth, ps)
                f = lambda q: q.group(0) + "."
            else:
                e = "%s.%s(%s) { \"<#{$1}|#{$&}>\" }" % (sl, meth, ps)
                f = lambda q: "<%s|%s>" % ((q.group(1) if r.groups else "") or "", q.group(0))
            v = gsub(r, s, f, once)
            setl((ms[0] if once else ms[-1]) if ms else None)
            if not once and k <= 1 and g.bool(1, 3):
                e = "(t = %s + \"\"; [t.gsub!(%s, %s), t])" % (sl, ps, lit(rep))
                v = [v if ms else None, v]
        elif x <= 11:
            lim = g.weighted([(4, 0), (1, -1), (1, g.int(1, 4))])
            v = split(r, s, lim)
            e = "%s.split(%s%s)" % (sl, ps, ", %d" % lim if lim else "")
            sp = False
            self.last = 0
            if bad_split(r, s):
                return
        elif x == 12:
            k = g.weighted([(2, None), (1, g.int(0, 3)), (1, -1)])
            setl(m)
            if k is None:
                e, v = "%s[%s]" % (sl, ps), m.group(0) if m else None
            else:
                e = "%s[%s, %d]" % (sl, ps, k)
                if k < 0:
                    k += r.groups + 1
                    v = m.group(k) if m and k > 0 else None
                else:
                    v = m.group(k) if m and k <= r.groups else None
        elif x == 13:
            e = "(t = %s + \"\"; [t.slice!(%s), t])" % (sl, ps)
            v = [m.group(0), s[:m.start()] + s[m.end():]] if m else [None, s]
            sp = False
            self.last = 0
        elif x == 14:
            w = "".join(g.list(lambda: g.choice([".", "*", "a", "[", "(", "\\", "+", "é", "^", "$", "{", "}", "?", "|", "-", "#", " ", "]", ")"]), 1, 4))
            t = "".join(g.list(lambda: g.choice(["a", w, ".", "\\", w[:1]]), 0, 4))
            k = t.find(w)
            e = "(%s =~ %s)" % (lit(t), g.choice(["Regexp.new(Regexp.escape(%s))", "/#{Regexp.escape(%s)}/", "/(?:a{0})#{Regexp.quote(%s)}/"]) % lit(w))
            v = k if k >= 0 else None
            nt = k >= 0
            sp = False
            self.last = 0
        else:
            l = [self.subj() for _ in range(3)]
            self.pairs += [(rp, py, int(fl), q) for q in l]
            e, v = "%s.grep(%s)" % (lit(l), ps), [q for q in l if r.search(q)]
            nt = bool(v)
            sp = False
            self.last = 0
        self.src.append("p(%s)" % e)
        self.out.append(insp(v))
        self.units.append((s + "\0" + r.pattern + "\0" + e, nt))
        if sp and self.last != 0:
            self.specials()

    def go(self):
        for _ in self.g.rep(3, 12, lambda: 0):
            self.op()


def build(g):
    h = H(g)
    h.go()
    return Case("\n".join(h.src) + "\n", h.out, h.units, extra=h.pairs)


def strategy(part=None):
    return from_g(build)
