"""C21: a literal denotes the value its syntax describes, wherever and however it is written, and inspect can be read back."""
import re
from driver import Case
from gen import from_g

ID = "C21"
EXAMPLES = dict(quick=2600, thorough=80000)
VARIANTS = ["std"]
PARTS = ["lit", "lit", "here", "data", "lit", "words", "here", "mix"]
RULE = ("One evaluation = one literal (string in double or single quotes, %-notations with 20 delimiters, here documents of the three kinds, character literals, adjacent strings, symbols, %w/%i arrays, with escapes, nested brackets and interpolations "
        "up to three deep, or nested arrays, hashes and ranges of them) that was written from a chosen value, in one of several positions of a statement; the bytes of its value are compared with those it was written from, and eval(value.inspect) "
        "with the value. Non-trivial: the value contains a character that needs care in its notation, or the literal has an interpolation.")
ASSUMPTIONS = ["not generated (unsupported by ruruby): \\u{...}, \\x and octal escapes from 0x80 on (known finding), one-digit \\x, control/meta escapes, %W, %I, %s, quoted identifiers of here documents other than words, carriage returns in the source",
               "format of inspect is not prescribed beyond being readable, except that of symbols"]

WORDS = ["a", "b", "xyz", "q", "n", "t", "s", "0", "1", "7", "e", "Z", "_"]
SPEC = ["'", '"', "\\", "#", "{", "}", "(", ")", "[", "]", "<", ">", "|", "/", "!", "^", "~", "-", ":", ";", "=", "?", "@", "$", "`", "%", "&", "*", "+", ",", ".", " ", "  ", "\t", "\n"]
PAIRS = ["#{", "#@a", "#$b", "\\n", "\\\\", "()", "[]", "{}", "<>", "#{1}", "\n\n", "\\'", '\\"', "EOS", "\\#", "\n ", "\n  ", "()(", "}{", "%w", "__END__", "=begin", "a\\\nb"]
CTRL = ["\0", "\1", "\a", "\b", "\v", "\f", "\r", "\x1b", "\x7f", "\x1f"]
UNI = ["é", "あ", "😀", "ß", "\u0085", "\u200b", "\u00a0", "\uffff", "\u3000"]
NAMED = {"\n": "\\n", "\t": "\\t", "\a": "\\a", "\b": "\\b", "\v": "\\v", "\f": "\\f", "\r": "\\r", "\x1b": "\\e", " ": "\\s", "\0": "\\0"}
BR = {"(": ")", "[": "]", "{": "}", "<": ">"}


def text(g, n=8, ctrl=True):
    out = []
    for _ in range(g.int(0, n)):
        k = g.int(0, 11)
        if k == 9 and g.bool(1, 3):
            a, b = g.choice(["()", "[]", "{}", "<>"])
            out.append(a + g.choice(["", "x", "a b"]) + a + g.choice(["", "q", "yy"]) + b + g.choice(["", "c", "#"]) + b)
            continue
        out.append(g.choice(WORDS if k < 4 else SPEC if k < 8 else PAIRS if k < 10 else CTRL if k == 10 and ctrl else UNI))
    return "".join(out)


def esc(g, c, nxt, first_octal=True):
    """One escape sequence for c."""
    o = ord(c)
    fs = []
    if c in NAMED and not (c == "\0" and nxt.isdigit()):
        fs += [NAMED[c]] * 3
    if o < 0x80:
        fs += ["\\x%02x" % o, "\\x%02X" % o, "\\%03o" % o]
        if not nxt.isdigit() and o < 0o100:
            fs.append("\\%o" % o)
    if o < 0x10000:
        fs += ["\\u%04x" % o, "\\u%04X" % o]
    if o < 0x80 and not c.isalnum() and o >= 32 and o != 127:
        fs += ["\\" + c] * 3
    if c in "zyqgwQGZXYHIJK":
        fs += ["\\" + c]
    return g.choice(fs) if fs else c


def dq(g, s, op, cl, last, raw_nl=True, cont=True):
    """Encode s for an interpolating literal delimited by op/cl (None: here document); last: no interpolation follows directly."""
    out = []
    bal = balanced(s, op, cl) if op and op != cl else False
    for i, c in enumerate(s):
        nxt = s[i + 1] if i + 1 < len(s) else ""
        if c == "\\":
            out.append(g.choice(["\\\\", "\\\\", "\\x5c", "\\134"]))
        elif op and c in (op, cl):
            out.append(c if bal else g.choice(["\\" + c, esc(g, c, nxt)]))
            if out[-1] == "\\" + c and not escapable(c):
                out[-1] = "\\x%02x" % ord(c)
        elif c == "#" and (nxt in ("{", "@", "$") or (nxt == "" and not last)):
            out.append(g.choice(["\\#", "\\x23", "\\#", "\\043"]) if g.bool(3, 4) or nxt == "" or (op == "{") else "#\\" + nxt)
            if out[-1][0] == "#":
                out[-1] = "\\#"
        elif c == "\n":
            out.append("\n" if raw_nl and g.bool() else esc(g, c, nxt))
        elif ord(c) < 32 or ord(c) == 127:
            out.append(c if c not in "\r\0" and g.bool(1, 4) else esc(g, c, nxt))
        else:
            out.append(c if g.bool(5, 6) else esc(g, c, nxt))
        if cont and op != "\n" and g.bool(1, 40):
            out.append("\\\n")
    return "".join(out)


def escapable(c):
    return not c.isalnum() and ord(c) >= 32


def balanced(s, op, cl):
    n = 0
    for c in s:
        if c == op:
            n += 1
        elif c == cl:
            n -= 1
            if n < 0:
                return False
    return n == 0


def sq(g, s, op, cl):
    out = []
    bal = balanced(s, op, cl) if op != cl else False
    for i, c in enumerate(s):
        nxt = s[i + 1] if i + 1 < len(s) else ""
        if c == "\\":
            out.append("\\\\" if nxt in ("\\", op, cl, "") or g.bool() else "\\")
        elif c in (op, cl):
            out.append(c if bal else "\\" + c)
        else:
            out.append(c)
    return "".join(out)


def delim(g, nospace=False):
    k = g.choice(list("([{<") * 3 + list("|/!^~-:;=?`&*+,.'\""))
    return k, BR.get(k, k)


def can_dq(s):
    return True


def can_sq(s):
    return "\r" not in s and "\0" not in s


def interp(g, d, nl):
    """(source, value) of an expression for #{...}"""
    k = g.int(0, 9)
    if k == 0:
        return "", ""
    if k == 1:
        n = g.int(-5, 5000)
        return str(n), str(n)
    if k == 2:
        v = text(g, 3)
        return g.choice(["$v << %s", "%s", "(%s)", "[%s].join", "1 ? %s : 2", "begin; %s; end", "{ 1 => %s }[1]", " { :a => %s }[:a] ", "->{ %s }.call", "lambda { |x| x }.call(%s)", "%s; "]).replace("$v << ", "") % lit(g, v, d - 1, False), v
    if k == 3:
        return ":sym", "sym"
    if k == 4:
        return "nil", ""
    if k == 5:
        v = text(g, 3)
        return "%s + %s" % (lit(g, v[:1], d - 1, False), lit(g, v[1:], d - 1, False)), v
    v = text(g, 4)
    return lit(g, v, d - 1, False), v


def body(g, s, op, cl, d, nl):
    """Interpolating body that denotes s; pieces of s may be interpolated."""
    if d <= 0 or not s or g.bool(1, 3):
        return dq(g, s, op, cl, True, nl, nl)
    out = []
    i = 0
    while i < len(s):
        j = min(len(s), i + g.int(0, 4))
        out.append((s[i:j], False))
        i = j
        if i < len(s):
            j = min(len(s), i + g.int(0, 3))
            out.append((s[i:j], True))
            i = j
    r = []
    whole = "".join(p for p, t in out if not t)
    across = bool(op) and op != cl and balanced(whole, op, cl) and g.bool(3, 4)
    for n, (p, t) in enumerate(out):
        if not t and across:
            # raw brackets which are balanced across the interpolations
            for q in re.split("([%s])" % re.escape(op + cl), p):
                r.append(q if q and q in op + cl else dq(g, q, op, cl, False, nl, nl))
        elif not t:
            # brackets are escaped: each piece is balanced by itself or not written raw
            r.append(dq(g, p, op, cl, n + 1 == len(out), nl, nl))
        else:
            r.append("#{%s}" % g.choice(["%s", " %s", "%s ", "(%s)", "%s.to_s", "1; %s", "[%s][0]"]) % lit(g, p, d - 1, False))
    return "".join(r)


def lit(g, s, d=2, nl=True):
    """A string literal that denotes s."""
    k = g.int(0, 11)
    if k <= 3 or not can_sq(s):
        if k == 2:
            op, cl = delim(g)
            q = g.choice(["%Q", "%Q", "%"])
            if q == "%" and op in "=&*+,.;:/!^~-|?$`'\"@<":
                q = "%Q"
            return q + op + body(g, s, op, cl, d, nl) + cl
        return '"' + body(g, s, '"', '"', d, nl) + '"'
    if not nl and "\n" in s:
        return '"' + body(g, s, '"', '"', d, nl) + '"'
    if k <= 5:
        return "'" + sq(g, s, "'", "'") + "'"
    if k <= 7:
        op, cl = delim(g)
        return "%q" + op + sq(g, s, op, cl) + cl
    if k == 8 and len(s) == 1:
        if g.bool() and s not in "\\ \n\t\r\v\f" or not (s.isascii()):
            return "?" + s
        e = esc(g, s, "")
        if e[0] == "\\" and len(e) >= 2:
            return "?" + e
    if k == 9 and s and d > 0:
        n = g.int(0, len(s))
        a, b = s[:n], s[n:]
        f = lambda x: '"' + body(g, x, '"', '"', d - 1, nl) + '"' if g.bool() or not can_sq(x) or (not nl and "\n" in x) else "'" + sq(g, x, "'", "'") + "'"
        return f(a) + g.choice([" ", "  ", ""]) + f(b) + (" ''" if g.bool(1, 4) else "")
    return '"' + body(g, s, '"', '"', d, nl) + '"'


POS = ["x = %s", "x = (%s)", "x = [%s][0]", "x = [1, %s].last", "x = f(%s)", "x = f %s", "x = { 1 => %s }[1]", "x = true ? %s : 1", "x = false ? 1 : %s", "x = (%s).dup", "x = %s if true", "x = [[%s]].flatten[0]",
       "x = %s + ''", "x = '' + %s", "x = nil || %s", "x = g { %s }", "x = case 1 when 1 then %s end", "x = ->(a = %s) { a }.call", "x = \"\"; x << %s", "x = f(*[%s])", "x = h(k: %s)", "x = \"#{%s}\"", "x = begin; %s; end", "x, y = %s, 1",
       "x = [%s, 2].first", "x = f(%s) { 1 }"]
PRE = "def f(a); a; end\ndef g; yield; end\ndef h(k: 1); k; end\n"


def bad_pos(p, l):
    return "\"#{" in p and "\n" in l or p == "x = f %s" and (l[0] == "?" or l[:2] == "%=" or l[0] == "%" and not l[1].isalpha()) or "? %s" in p and l[0] == "?" or "%s :" in p and l[0] == "?"


def nontrivial(s, l):
    return "#{" in l or any(c in s for c in "'\"\\#{}()[]<>\n\t\0") or not s.isascii()


def emit(lines, exp, s, rt=True):
    lines.append("p x.bytes")
    exp.append("[" + ", ".join(str(b) for b in s.encode()) + "]")
    if rt:
        lines.append("y = eval(x.inspect); p x == y, x.bytes == y.bytes")
        exp += ["true", "true"]


def build_lit(g):
    lines, exp, units = [PRE], [], []
    for _ in range(g.int(1, 8)):
        s = text(g, g.choice([1, 3, 8, 12]))
        k = g.int(0, 5)
        if k == 0 and s:
            # symbol
            l = ":" + ('"' + body(g, s, '"', '"', 1, True) + '"' if g.bool() or not can_sq(s) else "'" + sq(g, s, "'", "'") + "'")
            lines.append(g.choice(["x = %s", "x = [%s][0]", "x = f(%s)", "x = true ? 1 && %s : 2"]) % l)
            lines.append("p x.to_s.bytes, eval(x.inspect).equal?(x)")
            exp += ["[" + ", ".join(str(b) for b in s.encode()) + "]", "true"]
            units.append((("sym", l[:2], s[:3]), nontrivial(s, l)))
            continue
        l = lit(g, s, 2)
        p = g.choice(POS)
        if bad_pos(p, l):
            p = POS[0]
        lines.append(p.replace("%s", l))
        emit(lines, exp, s)
        units.append(((p, l[:2], s[:3]), nontrivial(s, l)))
    return Case("\n".join(lines) + "\n", exp, units, ["part:lit"], cpu=10)


def heretext(g):
    ls = []
    for _ in range(g.int(0, 4)):
        t = text(g, 5, False).replace("\n", "").replace("\r", "")
        ls.append(" " * g.choice([0, 0, 1, 2, 4]) + ("\t" if g.bool(1, 12) else "") + t if g.bool(4, 5) else g.choice(["", " ", "   "]))
    return "".join(("" if "\t" in l and not l.strip(" \t") else l) + "\n" for l in ls)


def build_here(g):
    lines, exp, units = [PRE], [], []
    for _ in range(g.int(1, 5)):
        n = g.weighted([(6, 1), (3, 2), (1, 3)])
        heads, bodies, vals = [], [], []
        for i in range(n):
            s = heretext(g)
            idn = g.choice(["A", "EOS", "E_1", "zz", "Aa"])
            style = g.choice(["", "-", "~", "~"])
            q = g.choice(["", "", '"', "'"])
            if g.bool(1, 3):
                near = g.choice(["%s ", " %s", "%sx", "x%s", "%s.", "  %s  ", "%s%s", "end%s"]).replace("%s", idn)
                s = s + near + "\n" if g.bool() else near + "\n" + s
            if any((l.lstrip() if style else l) == idn for l in s.split("\n")):
                s = ""
            if style == "~":
                nb = [l for l in s.split("\n") if l.strip(" \t")]
                if nb and all(l[0] in " \t" for l in nb):
                    s = "q\n" + s
            if q == "'":
                src = s
                if "\r" in s or "\0" in s:
                    src = s = ""
            else:
                src = ""
                for l in s.split("\n")[:-1]:
                    lead = l[:len(l) - len(l.lstrip(" \t"))]
                    rest = l[len(lead):]
                    if rest and g.bool(1, 3):
                        src += lead + body(g, rest, None, None, 1, False) + "\n"
                    else:
                        src += lead + dq(g, rest, None, None, True, False, False) + "\n"
                if g.bool(1, 6):
                    s += "k\n"
                    src += "#{%s}\n" % lit(g, "k", 1, False)
            if style == "~":
                ind = g.choice([0, 2, 4, 6])
                src = "".join((" " * ind + l if l.strip(" \t") or g.bool() and not l else l) + "\n" for l in src.split("\n")[:-1])
                # a blank line loses at most the common indentation
                if ind:
                    ss = s.split("\n")[:-1]
                    out = []
                    for l, m in zip(src.split("\n")[:-1], ss):
                        out.append(m if l.strip(" \t") else l[ind:] if len(l) > ind else "")
                    s = "".join(l + "\n" for l in out)
                    if not any(l.strip(" \t") for l in src.split("\n")[:-1]):
                        src = s = ""
                elif not any(l.strip(" \t") for l in src.split("\n")[:-1]):
                    src = s = ""
            term = (" " * g.choice([0, 2, 5]) if style else "") + idn
            heads.append("<<" + style + q + idn + q)
            bodies.append(src + term + "\n")
            vals.append(s)
        if n == 1:
            t = g.choice(["x = [%s]", "x = [f(%s)]", "x = [%s.to_s]", "x = [%s + '']", "x = [(%s)] # c", "x = [h(k: %s)]", "x = [g { %s }]", "z = %s\nx = [z]", "x = [f(%s) { 'n' }]", "x = true ? [%s] : 1", "x = [%s,\n]", "x = [\n%s\n]",
                          "x = [[1, %s].last]", "x = [%s] if true", "def m(a = %s)\n  a\nend\nx = [m]", "x = [\"#{%s}\"]"])
            head, sep, tail = t.partition("%s")
            rest_line, nlc, after = tail.partition("\n")
            st = head + heads[0] + rest_line + "\n" + bodies[0] + after
        else:
            t = g.choice(["x = [%s]", "x = [%s].map { |q| q }", "x = [%s] # <<X"])
            st = t.replace("%s", g.choice([", ", ","]).join(heads)) + "\n" + "".join(bodies)
        lines.append(st.rstrip("\n") if not st.endswith("\n") else st[:-1])
        lines.append("p x.map { |q| q.bytes }")
        exp.append("[" + ", ".join("[" + ", ".join(str(b) for b in v.encode()) + "]" for v in vals) + "]")
        lines.append("p eval(x.inspect) == x")
        exp.append("true")
        units.append(((tuple(heads), t[:9], tuple(v[:2] for v in vals)), bool(vals[0])))
    return Case("\n".join(lines) + "\n", exp, units, ["part:here"], cpu=10)


def build_words(g):
    lines, exp, units = [PRE], [], []
    for _ in range(g.int(1, 8)):
        ws = [w for w in (text(g, 4).replace("\0", "").replace("\r", "") for _ in range(g.int(0, 5))) if w]
        op, cl = delim(g)
        out = []
        for w in ws:
            t = sq(g, w + "\x01", op, cl)[:-1] if op == cl or not balanced(w, op, cl) else None
            # write it with every bracket escaped
            t = ""
            for i, c in enumerate(w):
                nxt = w[i + 1] if i + 1 < len(w) else ""
                if c == "\\":
                    t += "\\\\" if nxt in ("\\", op, cl, "", " ", "\n", "\t", "\v", "\f") or g.bool() else "\\"
                elif c in (op, cl) or c in " \n\t\v\f":
                    t += "\\" + c
                else:
                    t += c
            out.append(t)
        k = g.choice(["w", "w", "i"])
        sep = lambda: g.choice([" ", " ", "  ", "\n", "\t", " \n "])
        l = "%" + k + op + g.choice(["", " ", "\n"]) + "".join(t + sep() for t in out[:-1]) + (out[-1] if out else "") + g.choice(["", " ", "\n"]) + cl
        lines.append(g.choice(["x = %s", "x = f(%s)", "x = f %s", "x = [*%s]", "x = (%s)"]).replace("%s", l))
        lines.append("p x.size, x.map { |q| q.to_s.bytes }, eval(x.inspect) == x")
        exp += [str(len(ws)), "[" + ", ".join("[" + ", ".join(str(b) for b in v.encode()) + "]" for v in ws) + "]", "true"]
        units.append(((k, op, tuple(w[:2] for w in ws)), len(ws) > 1))
    return Case("\n".join(lines) + "\n", exp, units, ["part:words"], cpu=10)


NUMS = [("0", 0), ("0x1F", 31), ("0b1010", 10), ("1_000", 1000), ("-7", -7), ("123456789012345678901234567890", 123456789012345678901234567890), ("0xffff_ffff_ffff_ffff", 2**64 - 1), ("-0b11", -3), ("4611686018427387904", 2**62), ("-4611686018427387904", -2**62)]


def data(g, d):
    """(source, value-reference expression) pairs: the second builds the same value from plain pieces."""
    k = g.int(0, 9)
    if d <= 0 or k < 5:
        k = g.int(0, 5)
        if k < 3:
            s = text(g, 4)
            return lit(g, s, 1, False), "s([%s])" % ", ".join(str(ord(c)) for c in s)
        if k == 3:
            a, v = g.choice(NUMS)
            return a, ("%d" % v if abs(v) < 2**62 else "(%d + %d)" % (v - 5, 5))
        if k == 4:
            return g.choice([("nil", "nil"), ("true", "(1 == 1)"), ("false", "(1 == 2)"), ("1.5", "(3 / 2.0)"), ("-0.25", "(0 - 0.25)"), ("1e3", "(10.0 * 100)"), ("2.5e-3", "(2.5 / 1000)"), ("(1..5)", "Range.new(1, 5)"), ("('a'...'c')", "Range.new('a', 'c', true)"), ("(1.5..2)", "Range.new(1.5, 2)")])
        # {:a!=>1} and {:<=>1} can not be read back in Ruby either
        s = text(g, 3) + "k"
        return ":" + '"' + dq(g, s, '"', '"', True, False, False) + '"', "s([%s]).to_sym" % ", ".join(str(ord(c)) for c in s)
    if k < 8:
        xs = [data(g, d - 1) for _ in range(g.int(0, 4))]
        sep = lambda: g.choice([", ", ",", " , ", ",\n "])
        a = "[" + g.choice(["", " ", "\n"])
        for i, x in enumerate(xs):
            a += x[0] + (sep() if i + 1 < len(xs) else g.choice(["", ",", " ", "\n"]))
        return a + "]", "Array[]" .replace("Array[]", "[" + ", ".join(x[1] for x in xs) + "]")
    xs = [(data(g, 0), data(g, d - 1)) for _ in range(g.int(0, 4))]
    a, b = [], ["hh = {}"]
    for (k1, k2), (v1, v2) in xs:
        a.append(k1 + g.choice([" => ", "=>"]) + v1)
    sep = g.choice([", ", ",", ",\n"])
    return "{" + sep.join(a) + (g.choice(["", ","]) if a else "") + "}", "mk([" + ", ".join("[%s, %s]" % (k2, v2) for (k1, k2), (v1, v2) in xs) + "])"


def build_data(g):
    lines = [PRE, "def s(a); r = ''; a.each { |c| r << [c].pack('U') }; r; end" if False else "def s(a); r = ''; a.each { |c| r << c }; r; end", "def mk(a); r = {}; a.each { |k, v| r[k] = v }; r; end"]
    exp, units = [], []
    for _ in range(g.int(1, 6)):
        a, b = data(g, 3)
        p = g.choice(["x = %s", "x = (%s)", "x = f(%s)", "x = [%s][0]", "x = g { %s }"])
        if "?" == a[0]:
            p = "x = %s"
        lines.append(p.replace("%s", a))
        lines.append("y = %s" % b)
        lines.append("p x == y, x.inspect == y.inspect, eval(x.inspect) == x, eval(x.inspect).inspect == x.inspect")
        exp += ["true"] * 4
        units.append(((a[:6], len(a) // 8, p[:6]), len(a) > 8))
    return Case("\n".join(lines) + "\n", exp, units, ["part:data"], cpu=10)


def strategy(part):
    if part == "mix":
        return from_g(lambda g: g.choice([build_lit, build_here, build_words, build_data])(g))
    return from_g({"lit": build_lit, "here": build_here, "words": build_words, "data": build_data}[part])


def check(case, ctx):
    from driver import compare
    res = ctx.runner(case.variant).run(case.src, case.cpu)
    return compare(res, case.expected)
