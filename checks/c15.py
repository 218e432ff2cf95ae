"""C15: String against a model (sequence of Unicode code points), as histories of operations on shared mutable strings."""
from driver import Case
from gen import from_g
from model import *

ID = "C15"
EXAMPLES = dict(quick=1500, thorough=40000)
RULE = ("One evaluation = one String operation in a history of 4-16 operations over three aliased mutable strings, its result and the resulting contents of all "
        "variables compared with a code-point model. Non-trivial: the receiver was non-ASCII or within reach of the 31-byte inline/heap boundary (20-45 bytes), or the operation mutates.")
ASSUMPTIONS = ["only the String methods ruruby implements are generated", "all strings are valid UTF-8",
               "errors are compared as 'an exception was raised', not by class", "chomp without argument removes every trailing newline (pinned by the repository's tests)"]
NAMES = ["a", "b", "c"]
ALPH = ["a", "b", "c", "B", "Z", "z", "0", "9", " ", "é", "あ", "😀", ",", "-", ".", "_", "\n", "\t", "É", "+", "*", "#", "{", "\"", "\\", "1", "ab", "aa", "x", "$"]


class S:
    """A mutable Ruby string."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


def err():
    raise RErr("StandardError")


def sval(v):
    if isinstance(v, S):
        return insp(v.s)
    return insp(v)


def chomp(s):
    while s.endswith("\n") or s.endswith("\r"):
        if s.endswith("\r\n"):
            s = s[:-2]
        elif s.endswith("\n"):
            s = s[:-1]
        else:
            break
    return s


def chomp_sfx(s, x):
    return s[:-len(x)] if x and s.endswith(x) else s


def rsplit(s, sep, lim=0):
    """String#split with a string separator."""
    if sep == " ":
        o = []
        i = 0
        n = len(s)
        while True:
            while i < n and s[i] in " \t\n":
                i += 1
            if i >= n:
                if lim != 0 and n and s[-1] in " \t\n" and o or (lim != 0 and o and False):
                    o.append("")
                break
            if lim > 0 and len(o) == lim - 1:
                o.append(s[i:])
                break
            j = i
            while j < n and s[j] not in " \t\n":
                j += 1
            o.append(s[i:j])
            i = j
        if lim == 0:
            while o and o[-1] == "":
                o.pop()
        return o
    if s == "":
        return []
    if lim > 0:
        o = s.split(sep, lim - 1)
    else:
        o = s.split(sep)
    if lim == 0:
        while o and o[-1] == "":
            o.pop()
    return o


def trset(t):
    neg = len(t) > 1 and t[0] == "^"
    if neg:
        t = t[1:]
    o = []
    i = 0
    while i < len(t):
        if i + 2 < len(t) and t[i + 1] == "-":
            o += [chr(x) for x in range(ord(t[i]), ord(t[i + 2]) + 1)]
            i += 3
        else:
            o.append(t[i])
            i += 1
    return neg, o


def tr(s, f, t):
    neg, fs = trset(f)
    _, ts = trset(t) if t[:1] != "^" else (0, trset("\0" + t)[1][1:])
    o = ""
    for ch in s:
        if neg:
            o += ch if ch in fs else (ts[-1] if ts else "")
        elif ch in fs:
            k = fs.index(ch)
            o += (ts[k] if k < len(ts) else ts[-1]) if ts else ""
        else:
            o += ch
    return o


def to_i(s):
    import re
    m = re.match(r"[ \t\n]*([+-]?[0-9]+(?:_[0-9]+)*)", s)
    return int(m.group(1).replace("_", "")) if m else 0


def pos(i, n):
    """Normalised start index or None."""
    if i < 0:
        i += n
    return i if 0 <= i <= n else None


def sub2(s, i, l):
    i = pos(i, len(s))
    if i is None or l < 0:
        return None
    return s[i:i + l]


def subr(s, a, b, x):
    n = len(s)
    i = pos(a, n)
    if i is None:
        return None
    if b < 0:
        b += n
    if not x:
        b += 1
    return s[i:max(b, i)]


class H:
    def __init__(self, g):
        self.g = g
        self.env = {}
        self.src, self.out, self.units = [], [], []
        self.fl = g.choice(["ascii", "mix", "mix", "sparse", "num"])

    def word(self, lo=0, hi=6):
        g = self.g
        if self.fl == "ascii":
            al = ["a", "b", "c", "ab", "X", " ", ",", "\n"]
        elif self.fl == "sparse":
            al = ["a", "b", "ab"]
        elif self.fl == "num":
            al = ["0", "1", "9", "12", "_", "-", "a", " ", "+", "99999999999", "é"]
        else:
            al = ALPH
        return "".join(g.rep(lo, hi, lambda: g.choice(al)))

    def text(self):
        g = self.g
        x = g.int(0, 7)
        if x <= 4:
            return self.word(0, 12)
        if x <= 6:
            # around the inline capacity
            base = self.word(1, 8)
            n = g.choice([28, 29, 30, 31, 32, 33, 36])
            s = base
            while len(s.encode()) < n:
                s += g.choice(["a", "b", "z", "é" if self.fl != "ascii" else "c", " "])
            return s
        return self.word(0, 3) * g.int(1, 8)

    def part(self, s):
        """A (possibly empty) word likely to occur in s."""
        g = self.g
        if s and g.bool(3, 4):
            i = g.int(0, len(s) - 1)
            return s[i:i + g.int(1, 3)]
        return self.word(0, 2)

    def npart(self, s):
        return self.part(s) or "a"

    def arg(self, me=None):
        """(source, str, object or None)"""
        g = self.g
        if g.bool(1, 3):
            n = g.choice(NAMES)
            return n, self.env[n].s
        w = self.word(0, 5)
        return lit(w), w

    def idx(self, s):
        n = len(s)
        return self.g.weighted([(5, self.g.int(-n - 1, n + 1)), (1, self.g.choice([-n, n, n - 1, -1, 0]))])

    def pats(self, s):
        """Separator or pattern strings: source, value."""
        w = self.npart(s)
        return lit(w), w

    def op(self):
        g = self.g
        nm = g.choice(NAMES)
        o = self.env[nm]
        s = o.s
        op = g.choice(OPS)
        N = S

        def put(v):
            o.s = v
            return o
        if op == "<<":
            if g.bool(1, 6):
                ch = g.choice("aZ 0~")
                return "(%s << %d)" % (nm, ord(ch)), put(s + ch), True
            a, v = self.arg()
            if g.bool(1, 4):
                a2, v2 = self.arg()
                if a2 in NAMES and self.env[a2] is o:
                    v2 = s + v
                return "(%s << %s << %s)" % (nm, a, a2), put(s + v + v2), True
            return g.choice(["(%s << %s)", "%s.concat(%s)"]) % (nm, a), put(s + v), True
        if op == "+=":
            a, v = self.arg()
            self.env[nm] = N(s + v)
            return "(%s += %s)" % (nm, a), self.env[nm], True
        if op == "*=":
            k = g.int(0, 3)
            self.env[nm] = N(s * k)
            return "(%s *= %d)" % (nm, k), self.env[nm], True
        if op == "replace":
            a, v = self.arg()
            return "%s.replace(%s)" % (nm, a), put(v), True
        if op == "[]=":
            i = self.idx(s)
            a, v = self.arg()
            if g.bool():
                k = pos(i, len(s))
                if k is None or (k == len(s) and False):
                    return "(%s[%d] = %s)" % (nm, i, a), RErr(), True
                if k == len(s):
                    return "(%s[%d] = %s)" % (nm, i, a), None, None     # index == size: not generated
                put(s[:k] + v + s[k + 1:])
                return "(%s[%d] = %s)" % (nm, i, a), (self.env[a] if a in NAMES else N(v)), True
            l = g.int(0, 4)
            k = pos(i, len(s))
            if k is None:
                return "(%s[%d, %d] = %s)" % (nm, i, l, a), RErr(), True
            put(s[:k] + v + s[k + l:])
            return "(%s[%d, %d] = %s)" % (nm, i, l, a), (self.env[a] if a in NAMES else N(v)), True
        if op == "slice!":
            x = g.int(0, 2)
            if x == 0:
                i = self.idx(s)
                k = pos(i, len(s))
                if k is None or k == len(s):
                    return "%s.slice!(%d)" % (nm, i), None, True
                put(s[:k] + s[k + 1:])
                return "%s.slice!(%d)" % (nm, i), N(s[k]), True
            if x == 1:
                i, l = self.idx(s), g.int(0, 5)
                k = pos(i, len(s))
                if k is None:
                    return "%s.slice!(%d, %d)" % (nm, i, l), None, True
                put(s[:k] + s[k + l:])
                return "%s.slice!(%d, %d)" % (nm, i, l), N(s[k:k + l]), True
            w = self.npart(s)
            k = s.find(w)
            if k < 0:
                return "%s.slice!(%s)" % (nm, lit(w)), None, True
            put(s[:k] + s[k + len(w):])
            return "%s.slice!(%s)" % (nm, lit(w)), N(w), True
        if op == "gsub!":
            ps, w = self.pats(s)
            r = self.word(0, 3).replace("\\", "/")
            if w not in s:
                return "%s.gsub!(%s, %s)" % (nm, ps, lit(r)), None, True
            return "%s.gsub!(%s, %s)" % (nm, ps, lit(r)), put(s.replace(w, r)), True
        if op == "sub!":
            ps, w = self.pats(s)
            r = self.word(0, 3).replace("\\", "/")
            if w not in s:
                return "%s.sub!(%s, %s)" % (nm, ps, lit(r)), None, True
            return "%s.sub!(%s, %s)" % (nm, ps, lit(r)), put(s.replace(w, r, 1)), True
        if op == "sub":
            ps, w = self.pats(s)
            m = g.choice(["sub", "gsub"])
            n = 1 if m == "sub" else -1
            if g.bool():
                r = self.word(0, 3).replace("\\", "/")
                return "%s.%s(%s, %s)" % (nm, m, ps, lit(r)), N(s.replace(w, r, n)), False
            x = g.int(0, 2)
            b, f = [("|m| m + m", lambda m: m + m), ("|m| '<' + m.upcase + '>'", lambda m: "<" + up(m) + ">"), ("|m| ''", lambda m: "")][x]
            return "%s.%s(%s) { %s }" % (nm, m, ps, b), N(s.replace(w, f(w), n)), False
        if op == "scan":
            ps, w = self.pats(s)
            if g.bool(1, 3):
                return "(l = []; %s.scan(%s) { |m| l << m }; l)" % (nm, ps), [w] * s.count(w), False
            return "%s.scan(%s)" % (nm, ps), [w] * s.count(w), False
        if op == "chomp!":
            v = chomp(s)
            if v == s:
                return "[%s.chomp!]" % nm, [None], True
            return "%s.chomp!" % nm, put(v), True
        if op == "chomp":
            if g.bool():
                return "%s.chomp" % nm, N(chomp(s)), False
            w = self.npart(s)
            if g.bool() and s:
                w = s[-g.int(1, 3):]
            if w in ("\n", "\r\n", ""):
                w = "b"
            return "%s.chomp(%s)" % (nm, lit(w)), N(chomp_sfx(s, w)), False
        if op == "+":
            a, v = self.arg()
            return "(%s + %s)" % (nm, a), N(s + v), False
        if op == "*":
            k = g.int(0, 4)
            return "(%s * %d)" % (nm, k), N(s * k), False
        if op == "[]":
            i = self.idx(s)
            x = g.int(0, 3)
            if x == 0:
                k = pos(i, len(s))
                return "%s[%d]" % (nm, i), (None if k is None or k == len(s) else N(s[k])), False
            if x == 1:
                l = g.int(-1, 6)
                r = sub2(s, i, l)
                return "%s[%d, %d]" % (nm, i, l), (None if r is None else N(r)), False
            j = self.idx(s)
            ex = g.bool()
            r = subr(s, i, j, ex)
            return "%s[%d%s%d]" % (nm, i, "..." if ex else "..", j), (None if r is None else N(r)), False
        if op == "eq":
            m = g.choice(["==", "!=", "<=>", "<", ">", "<=", ">=", "===", "eql?", "equal?"])
            x = g.int(0, 4)
            if x == 0:
                a, v = self.arg()
            elif x == 1:
                a, v = '"%s"' % "" + " + " + nm, s
                a = '("" + %s)' % nm
            elif x == 2:
                k = g.int(0, len(s))
                a, v = "(%s + %s)" % (lit(s[:k]), lit(s[k:])), s
            elif x == 3:
                v = s[:-1] + g.choice(["a", "\x7f", "z", ""]) if s else "a"
                a = lit(v)
            else:
                a, v = "(%s + \"a\")[0..-2]" % nm, s
            c = cmp(s, v)
            if m in ("eql?", "equal?"):
                return "%s.%s(%s)" % (nm, m, a), (s == v if m == "eql?" else (a in NAMES and self.env[a] is o)), False
            r = dict(zip(["==", "!=", "<=>", "<", ">", "<=", ">=", "==="], [s == v, s != v, c, c < 0, c > 0, c <= 0, c >= 0, s == v]))[m]
            return "(%s %s %s)" % (nm, m, a), r, False
        if op == "pred":
            w = self.part(s)
            x = g.int(0, 2)
            if g.bool() and s:
                w = s[:g.int(0, 4)] if x == 1 else s[-g.int(1, 4):] if x == 2 else w
            return "%s.%s(%s)" % (nm, ["include?", "start_with?", "end_with?"][x], lit(w)), [w in s, s.startswith(w), s.endswith(w)][x], False
        if op == "split":
            x = g.int(0, 3)
            if x == 0:
                return "%s.split(\"\")" % nm, list(s), False
            sep = " " if x == 1 else self.npart(s)
            if len(sep) > 1 and sep.strip(" ") == "":
                sep = ","
            if g.bool(1, 4):
                lim = g.int(1, 4)
                if sep == " ":
                    sep = "a"
                return "%s.split(%s, %d)" % (nm, lit(sep), lim), rsplit(s, sep, lim), False
            if g.bool(1, 6) and sep != " ":
                return "%s.split(%s, -1)" % (nm, lit(sep)), rsplit(s, sep, -1), False
            if g.bool(1, 5):
                return "(l = []; %s.split(%s) { |m| l << m }; l)" % (nm, lit(sep)), rsplit(s, sep), False
            return "%s.split(%s)" % (nm, lit(sep)), rsplit(s, sep), False
        if op == "tr":
            f, t = self.trarg(s), g.choice(["", "x", "xy", "0-9", "é", "A-Z", "*"])
            return "%s.tr(%s, %s)" % (nm, lit(f), lit(t)), N(tr(s, f, t)), False
        if op == "count":
            f = self.trarg(s)
            neg, fs = trset(f)
            return "%s.count(%s)" % (nm, lit(f)), sum((ch in fs) != neg for ch in s), False
        if op == "size":
            x = g.int(0, 6)
            return [("%s.size", len(s)), ("%s.length", len(s)), ("%s.bytes.size", len(s.encode())), ("%s.empty?", s == ""), ("%s.sum", sum(s.encode()) & 0xffff),
                    ("%s.chars.size", len(s)), ("%s.codepoints.size", len(s))][x][0] % nm, [len(s), len(s), len(s.encode()), s == "", sum(s.encode()) & 0xffff, len(s), len(s)][x], False
        if op == "seq":
            x = g.int(0, 7)
            return [("%s.bytes", list(s.encode())), ("%s.chars", list(s)), ("(l = []; %s.each_char { |x| l << x }; l)", list(s)),
                    ("(l = []; %s.each_byte { |x| l << x }; l)", list(s.encode())), ("%s.codepoints", [ord(x) for x in s]),
                    ("%s.lines", s.splitlines(True) if "\r" not in s else None), ("%s.chars.map { |x| x.ord }", [ord(x) for x in s]),
                    ("%s.chars.join", N(s))][x][0] % nm, \
                [list(s.encode()), list(s), list(s), list(s.encode()), [ord(x) for x in s], [x for x in s.replace("\n", "\n\0").split("\0") if x], [ord(x) for x in s], N(s)][x], False
        if op == "case":
            x = g.bool()
            return "%s.%s" % (nm, "upcase" if x else "downcase"), N(up(s) if x else s.lower()), False
        if op == "strip":
            x = g.int(0, 2)
            ws = " \t\n"
            return "%s.%s" % (nm, ["strip", "lstrip", "rstrip"][x]), N([s.strip(ws), s.lstrip(ws), s.rstrip(ws)][x]), False
        if op == "to_i":
            return "%s.to_i" % nm, to_i(s), False
        if op == "pad":
            n = g.int(0, len(s) + 8)
            m = g.choice(["center", "ljust", "rjust"])
            p = None
            if g.bool():
                p = self.word(1, 3) or "x"
            f = p or " "
            k = max(n - len(s), 0)
            fill = lambda q: (f * (q + 1))[:q]
            r = {"ljust": s + fill(k), "rjust": fill(k) + s, "center": fill(k // 2) + s + fill(k - k // 2)}[m]
            return "%s.%s(%d%s)" % (nm, m, n, ", " + lit(p) if p else ""), N(r), False
        if op == "ord":
            return "%s.ord" % nm, ord(s[0]) if s else RErr(), False
        if op == "round":
            x = g.int(0, 4)
            return [("%s.to_sym.to_s"), ("eval(%s.inspect)"), ("[%s].join"), ('"#{%s}"'), ("%s.to_s")][x] % nm, (o if x == 4 else N(s)), False
        if op == "interp":
            a, v = self.arg()
            return '"%s#{%s}|#{%s}"' % ("é" if g.bool() else "-", nm, a), None if False else N(None), (a, v)
        if op == "dup":
            return "%s.%s" % (nm, g.choice(["dup", "clone"])), N(s), False
        if op == "alias":
            n = g.choice(NAMES)
            return n, self.env[n], False
        if op == "key":
            x = g.int(0, 4)
            k = g.int(0, len(s))
            w = "(%s + %s)" % (lit(s[:k]), lit(s[k:]))
            return [("{%s => 1}[%s]" % (nm, w), 1), ("{%s => 1}[%s]" % (w, nm), 1), ("[%s, %s].uniq.size" % (nm, w), 1),
                    ("(case %s; when %s; 1; else 2; end)" % (nm, w), 1), ("[%s].include?(%s)" % (w, nm), True)][x] + (False,)
        if op == "succ":
            if s and s.isascii() and s.isalnum() and not (any(ch.isdigit() for ch in s) and any(ch.isalpha() for ch in s)):
                return "%s.%s" % (nm, g.choice(["succ", "next"])), N(succ(s)), False
            return "%s.size" % nm, len(s), False
        if op == "iter":
            # append while iterating over a copy of the characters
            return "(%s.chars.each { |x| %s << x if %s.size < 60 }; %s)" % (nm, nm, nm, nm), put(self.grow(s)), True
        raise AssertionError(op)

    def grow(self, s):
        t = s
        for ch in s:
            if len(t) < 60:
                t += ch
        return t

    def trarg(self, s):
        g = self.g
        x = g.int(0, 5)
        if x == 0:
            return g.choice(["a-c", "0-9", "a-z", "あ-ん", "A-Z", "^a-z", "^0-9"])
        if x == 1 and s:
            w = s[g.int(0, len(s) - 1)]
            return ("^" + w) if w not in "-^\\" else "^a"
        w = "".join(ch for ch in self.npart(s) if ch not in "-^\\")
        return w or "ab"

    def go(self):
        g = self.g
        for n in NAMES:
            if n != "a" and g.bool(1, 6):
                m = g.choice([k for k in NAMES if k < n])
                self.env[n] = self.env[m]
                self.src.append("%s = %s" % (n, m))
            else:
                t = self.text()
                self.env[n] = S(t)
                if g.bool(1, 3):
                    k = g.int(0, len(t))
                    self.src.append("%s = %s + %s" % (n, lit(t[:k]), lit(t[k:])))
                else:
                    self.src.append("%s = %s" % (n, lit(t)))
        for _ in g.rep(4, 14, lambda: 0):
            before = [self.env[n].s for n in NAMES]
            if sum(len(x) for x in before) > 600:
                self.src.append("a = 'x'; b = 'é' * 15; c = b")
                self.env = dict(a=S("x"), b=S("é" * 15))
                self.env["c"] = self.env["b"]
                continue
            s, v, mut = self.op()
            if mut is None:
                continue
            if isinstance(mut, tuple):
                v = S(("é" if s[1] == "é" else "-") + self.env[s[s.index("{") + 1]].s + "|" + mut[1])
                mut = False
            # the model is already updated; bind the result?
            tgt = None
            if isinstance(v, S) and g.bool(2, 5) and "=" not in s.split("(")[0]:
                tgt = g.choice(NAMES)
                self.env[tgt] = v
                self.src.append("begin; %s = %s; p %s; rescue => e; puts '!'; end" % (tgt, s, tgt))
            else:
                self.src.append("begin; p(%s); rescue => e; puts '!'; end" % s)
            self.out.append("!" if isinstance(v, RErr) else sval(v))
            self.src.append("p a, b, c")
            self.out += [sinsp(self.env[n].s) for n in NAMES]
            nt = bool(mut) or any((not x.isascii()) or 20 <= len(x.encode()) <= 45 for x in before)
            self.units.append((s + "\0".join(before), nt))


def up(s):
    return s.upper()


def succ(s):
    l = list(s)
    i = len(l) - 1
    while i >= 0:
        ch = l[i]
        if ch == "9":
            l[i] = "0"
            ins = "1"
        elif ch == "z":
            l[i] = "a"
            ins = "a"
        elif ch == "Z":
            l[i] = "A"
            ins = "A"
        else:
            l[i] = chr(ord(ch) + 1)
            return "".join(l)
        i -= 1
    return ins + "".join(l)


OPS = ["<<", "<<", "<<", "+=", "*=", "replace", "[]=", "[]=", "[]=", "slice!", "slice!", "gsub!", "sub", "sub", "scan", "chomp!", "chomp", "+", "*", "[]", "[]", "[]",
       "eq", "eq", "eq", "pred", "pred", "split", "split", "split", "tr", "tr", "count", "size", "seq", "seq", "case", "strip", "to_i", "pad", "ord", "round", "interp",
       "dup", "alias", "key", "succ", "iter"]


def norm(l):
    return l


def build(g):
    h = H(g)
    h.go()
    return Case("\n".join(h.src) + "\n", h.out, h.units)


def strategy(part=None):
    return from_g(build)
