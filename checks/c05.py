"""C05: any text is compiled or rejected with SyntaxError; layout around a text does not change its meaning."""
import json, os, re
from driver import Case
from gen import from_g
from rr import ROOT

ID = "C05"
EXAMPLES = dict(quick=3000, thorough=90000)
VARIANTS = ["std"]
PARTS = ["parse", "compile", "eval", "reject", "reject", "compile", "reject", "reject"]
RULE = ("One evaluation = one text given to the parser (parse), to parser and code generator (compile), to eval inside a running program (eval), or a valid nested text and one broken variant of it (reject). "
        "Texts: snippets of the repository's Ruby code cut, spliced and mutated, token sequences, nested grammar fragments. Non-trivial: the text has at least 8 characters and two different token kinds.")
ASSUMPTIONS = ["texts of at most 3000 bytes, nesting of at most 200 levels (deeper nesting overflows the machine stack: known finding)",
               "the code of arbitrary texts is compiled but never executed: an exception is raised before its first statement",
               "ruruby may accept more than Ruby does, except unbalanced delimiters and the listed invalid constructs"]
CORPUS = json.load(open(os.path.join(ROOT, "data", "corpus.json")))
TOKS = ("def end class module if unless else elsif while until for in do begin rescue ensure case when then return break next redo yield self nil true false and or not super alias defined? undef BEGIN END "
        "__FILE__ __LINE__ x y foo Foo A::B @a @@b $c 1 1.5 1r 2i 0x1f 0b1 1e5 'a' \"a\" \"a#{ }\" :a :\"b\" :+ %w(a b) %i(a b) %q(a) %( <<A <<~A <<-\"A\" /a/ /a(/ [ ] ( ) { } | || & && ! != = == === "
        "=~ !~ + - * ** / % < > <= >= <=> << >> += -= ||= &&= ; , . &. :: ? : -> => ... .. # \\ ` @ $ $1 $~ ?a ~ ^ -1 +1 a: b?: c! foo? foo! proc lambda puts p _ #@a #$b \" '").split(" ")
TOKS += ["\n"] * 10 + ["\nA\n"]
GLUE = TOKS + [" "] * 40
NL = re.compile(r"__END__|=begin|=end|__LINE__")
LOC = re.compile(r"loc: Loc\(\d+, \d+\)|Loc\(\d+, \d+\)")


def text(g):
    k = g.int(0, 5)
    if k == 0:
        return " ".join(g.rep(1, 15, lambda: g.choice(TOKS)))
    if k == 1:
        return "".join(g.rep(1, 18, lambda: g.choice(GLUE)))
    c = CORPUS[g.int(0, len(CORPUS) - 1)]
    if k == 2:
        a = g.int(0, len(c))
        return c[:a]
    if k == 5:
        n = g.weighted([(3, 8), (2, 40), (1, 200)])
        o, cl = g.choice([("(", ")"), ("[", "]"), ("{a: ", "}"), ("if 1\n", "\nend\n"), ("f { ", " }"), ("->{ ", " }"), ("!", ""), ("f(", ")"), ("1 ? ", " : 2"), ("1 + ", ""), ("begin; ", "; end"),
                          ("f do\n", "\nend"), ("a = ", ""), ("1 ** ", ""), ("x[", "]"), ("", ".foo"), ("", "[0]"), ("while 1 do ", " end"), ("case 1 when ", " then 2 end"), ("1 - (", ")")])
        d = n - g.int(0, 1)
        return o * n + g.choice(["1", "x", "", "nil"]) + cl * d
    ls = c.split("\n")
    i = g.int(0, len(ls) - 1)
    c = "\n".join(ls[i:i + g.int(1, 12)])
    if k == 3:
        j = g.int(0, len(CORPUS) - 1)
        d = CORPUS[j].split("\n")
        j = g.int(0, len(d) - 1)
        c += "\n" + "\n".join(d[j:j + g.int(1, 6)])
    for _ in range(g.int(0, 4)):
        i = g.int(0, len(c))
        j = min(len(c), i + g.choice([0, 0, 1, 1, 2, 5]))
        m = g.weighted([(2, ""), (4, None), (2, 0)])
        if m is None:
            m = g.choice(TOKS)
        elif m == 0:
            m = g.choice([chr(g.int(32, 126)), "\u00e9", "\u3042", "\0", "\r", "\t", "\r\n", "\U0001f600"])
        c = c[:i] + m + c[j:]
    return c[:3000]


# ---- valid nested texts as token lists; (text, kind) tokens are delimiters


class B:
    def __init__(self, g):
        self.g = g

    def e(self, d):
        g = self.g
        if d <= 0 or g.bool(1, 4):
            return [g.choice(["1", "x", "'s'", ":a", "nil", "foo", "2.5", "@a", "$b", "Foo"])]
        k = g.int(0, 13)
        e = lambda: self.e(d - 1)
        o = lambda t: (t, "o")
        c = lambda t: (t, "c")
        if k == 0:
            return [o("(")] + e() + [c(")")]
        if k == 1:
            return [o("[")] + e() + [","] + e() + [c("]")]
        if k == 2:
            return [o("{"), "a: "] + e() + [c("}")]
        if k == 3:
            return ["foo", o("\b(")] + e() + [","] + e() + [c(")")]
        if k == 4:
            return ["foo", o("\b("), "k: "] + e() + [c(")")]
        if k == 5:
            return ["x", o("\b[")] + e() + [c("]")]
        if k == 6:
            return e() + [g.choice(["+", "*", "-", "&&", "||", "<<"])] + e()
        if k == 7:
            return ["->", o("("), "a", c(")"), o("{")] + e() + [c("}")]
        if k == 8:
            return ["foo", o("{"), "|a|"] + e() + [c("}")]
        if k == 9:
            return ["foo", o("\b(")] + e() + [c(")"), o("do"), "|a|\n"] + self.s(d - 1) + ["\n", c("end")]
        if k == 10:
            return [o("if")] + e() + ["then"] + e() + ["else"] + e() + [c("end")]
        if k == 11:
            return [o("begin"), "\n"] + self.s(d - 1) + ["\nrescue\n"] + self.s(d - 1) + ["\n", c("end")]
        if k == 12:
            return [o("case")] + e() + ["\nwhen"] + e() + ["\n"] + self.s(d - 1) + ["\n", c("end")]
        return ["x.bar", o("\b(")] + e() + [c(")")]

    def s(self, d):
        out = []
        for i, t in enumerate(self.g.rep(1, 2, lambda: self.st(d))):
            out += (["\n"] if i else []) + t
        return out

    def st(self, d):
        g = self.g
        k = g.int(0, 4)
        if k == 0:
            return [g.choice(["z", "@z", "$z"]), "="] + self.e(d)
        if k == 1 and d > 0:
            return [("while", "o"), ("(", "o")] + self.e(d - 1) + [(")", "c"), "\n"] + self.s(d - 1) + ["\n", ("end", "c")]
        if k == 2 and d > 0:
            return [("unless", "o")] + self.e(d - 1) + ["\n"] + self.s(d - 1) + ["\n", ("end", "c")]
        return self.e(d)

    def top(self, d):
        g = self.g
        k = g.int(0, 3)
        if k == 0:
            return [("def", "o"), "m", ("\b(", "o"), "a, b = "] + self.e(d) + [(")", "c"), "\n"] + self.s(d) + ["\n", ("end", "c")]
        if k == 1:
            return [("class", "o"), "A\n"] + self.s(d) + ["\n", ("end", "c")]
        if k == 2:
            return [("module", "o"), "M\n", ("def", "o"), "m\n"] + self.s(d) + ["\n", ("end", "c"), "\n", ("end", "c")]
        return self.s(d)


def render(toks):
    s = ""
    for t in toks:
        t = t[0] if isinstance(t, tuple) else t
        if t.startswith("\b"):
            s = s.rstrip(" ") + t[1:] + " "
        else:
            s += t + " "
    return s


BAD = ["1 = {e}", "self = {e}", "nil += {e}", "'a' = {e}", "[1] = {e}", "def q; A = {e}; end", "def q; class A; end; end", "def q; module A; end; end", "def q(a, a); {e}; end", "->(a, a) {{ {e} }}",
       "foo {{ |a, a| {e} }}", "class foo; {e}; end", "foo(&a, &b)", "foo(&a, {e})", "foo(1 2)", "[1 x]", "{{a: 1 2}}", "def q(*a, *b); end", "def q(&a, b); end", "def q(k: 1, b); end", "foo({e},, {e})", "[{e},,]",
       "x, 1 = 2, 3", "{e} if", "{{a: 1 b: {e}}}", "unless x; {e}; elsif y; {e}; end", "begin; {e}; ensure; rescue; end", "1..2..3", "1 == 2 == 3", "$1 = {e}", "alias a", "case; end",
       "foo(&b) {{ {e} }}", "%w(a b", "\"abc #{{{e}", ":\"abc", "/abc", "x.", "x &. ", "x ? {e}", "x ? {e} :", "->", "def", "def q(", "class", "module", "while", "until x", "for a in", "for 1 in x; end", "def q(1); end", "<<A\nabc"]
BADTOP = ["break", "next {e}", "break {e}"]


BADTGT = ["1", "1.5", "nil", "true", "self", "'a'", '"#{1}"', ":a", "/a/", "[x]", "{a: 1}", "(x)", "->{}", "%w(a)", "foo(1)", "foo(*x)", "a.b(1)", "a.b(k: 1)", "foo(&b)", "foo { }", "a.b { |x| }", "a.b?", "a.b!", "a&.c?", "a?", "c!", "yield",
          "super", "super(1)", "__FILE__", "__LINE__", "defined?(x)", "if x then 2 end", "begin; 1; end", "case x; when 1; 2; end", "foo[1] { }", "1 .. 2", "x.y.z(0)", "foo::bar(1)"]
ASGN = ["{t} = {e}", "{t} += {e}", "{t} ||= {e}", "{t} <<= {e}", "x, {t} = {e}, 2", "{t}, x = 1, {e}", "y = {t} = {e}", "x, y, {t} = foo", "[1, ({t} = 3)]", "foo(({t} = {e}))", "x = 1 if ({t} = {e})", "x += ({t} &&= {e})"]
BADESC = ["\\u12", "\\ud800", "\\udfff", "\\u", "\\xg1", "\\x", "\\u{110000}", "\\uzzzz"]


def bad_params(g):
    """A parameter list with a name used twice or kinds in an impossible order, in some definition or block."""
    names = ["a", "b", "c", "d", "k", "m"]
    kinds = []
    for k, lo, hi in (("req", 0, 2), ("opt", 0, 2), ("rest", 0, 1), ("post", 0, 1), ("kw", 0, 2), ("kwrest", 0, 1), ("block", 0, 1)):
        kinds += [k] * g.int(lo, hi)
    if "opt" not in kinds and "rest" not in kinds:
        kinds = [k for k in kinds if k != "post"]
    while len(kinds) < 2:
        kinds = ["req"] + kinds
    names = names[:]
    while len(names) < len(kinds):
        names.append("z%d" % len(names))
    pr = dict(req="{n}", opt="{n} = 1", rest="*{n}", post="{n}", kw="{n}: 1", kwrest="**{n}", block="&{n}")
    items = [[k, n] for k, n in zip(kinds, names)]
    if g.bool():
        i = g.int(0, len(items) - 2)
        j = g.int(i + 1, len(items) - 1)
        items[j][1] = items[i][1]
        why = "dup " + items[i][0] + " " + items[j][0]
    else:
        o = ["req", "opt", "rest", "post", "kw", "kwrest", "block"]
        items.append(None)
        bads = [("rest", "rest"), ("rest", "opt"), ("kw", "req"), ("kw", "opt"), ("kw", "rest"), ("kwrest", "req"), ("kwrest", "kw"), ("kwrest", "rest"), ("kwrest", "kwrest"), ("block", "req"), ("block", "kw"), ("block", "block"),
                ("block", "rest"), ("block", "kwrest")]
        x, y = g.choice(bads)
        items = [[x, "p"], [y, "q"]]
        if g.bool():
            items = [["req", "r"]] + items
        if g.bool(1, 3):
            items = items[:-1] + [["block" if False else x, "p"]][:0] + items[-1:]
        why = "order " + x + " " + y
    ps = ", ".join(pr[k].replace("{n}", n) for k, n in items)
    return g.choice(["def q(%s); {e}; end", "def q %s\n  {e}\nend", "def self.q(%s)\nend", "->(%s) {{ {e} }}", "foo {{ |%s| {e} }}", "foo do |%s|\n{e}\nend", "x = [1].each {{ |%s| }}", "class W; def q(%s); end; end"]) % ps, why


def part_reject(g):
    b = B(g)
    toks = b.top(g.int(1, 4))
    src = render(toks)
    if g.bool(1, 2):
        e = lambda: render(b.e(g.int(0, 2))).strip()
        k = g.int(0, 3)
        if k == 0:
            t = bad = g.choice(BAD)
        elif k == 1:
            bad, t = bad_params(g)
        elif k == 2:
            t = g.choice(BADTGT)
            bad = g.choice(ASGN).replace("{t}", t.replace("{", "{{").replace("}", "}}"))
        else:
            t = g.choice(BADESC)
            bad = g.choice(['"%s"', '"a%sb"', '"%s#{{e}}"', 'p "%s"', ':"%s"', 'foo "%s", 1', '["%s"]', '"a#{"%s"}"', "`%s`" if False else '"%s"']).replace("{{e}}", "{1}") % t
            bad = bad.replace("{", "{{").replace("}", "}}")
        while "{e}" in bad:
            bad = bad.replace("{e}", e(), 1)
        bad = bad.replace("{{", "{").replace("}}", "}")
        loop = True
        if g.bool(1, 8):
            bad = g.choice(BADTOP).replace("{e}", "1")
            loop = False
        pre = g.choice(["", "x = 1\n", "# c\n", "foo\n", "def r; 1; end\n"])
        wrap = g.choice([("", ""), ("", "\n"), ("if x\n", "\nend"), ("begin\n", "\nend\n"), ("(", ")")] + ([("while x\n", "\nend"), ("foo {\n", "\n}")] if loop else []))
        if bad.startswith(("class", "def q; ", "module")) and "def q;" not in bad:
            wrap = ("", "")
        mut = pre + wrap[0] + bad + wrap[1]
        kind = "bad:" + t
    else:
        m = g.int(0, 3)
        # a missing ) of an argument list is accepted (known finding, pinned by tests of the repository)
        call = any(t in (("\b(", "o"), ("->", "o")) for t in toks)
        cl = [i for i, t in enumerate(toks) if isinstance(t, tuple) and t[1] == "c" and not (call and t[0] == ")")]
        op = [i for i, t in enumerate(toks) if isinstance(t, tuple) and t[1] == "o"]
        mt = list(toks)
        if m == 0 and cl:
            del mt[g.choice(cl)]
            kind = "del closer"
        elif m == 1 and op:
            del mt[g.choice(op)]
            kind = "del opener"
        elif m == 2 and cl:
            i = g.choice(cl)
            mt[i] = g.choice([x for x in (")", "]", "}", "end") if x != mt[i][0]])
            kind = "swap closer"
        else:
            i = g.int(0, len(mt))
            mt.insert(i, g.choice([")", "]", "}", "end"] if i == 0 or mt[i - 1] != ("def", "o") else [")"]))
            kind = "extra closer"
        mut = render(mt)
    return Case(mut, "SyntaxError", units=[(src, len(toks) > 3), (mut, True)], labels=["reject", kind], extra=dict(kind="reject", valid=src, bad=mut))


def part(g, kind):
    if kind == "reject":
        return part_reject(g)
    if kind == "eval":
        ts = g.rep(1, 6, lambda: text(g))
        return Case("\n#----\n".join(ts), "", units=[(t, nt(t)) for t in ts], labels=["eval"], extra=dict(kind="eval", texts=ts))
    t = text(g)
    if kind == "parse":
        pre = g.choice(["\n", "# c\n", "\n\n  ", "0\n", ";", "  ", "\t", "# \u3042\n", "0;"])
        post = g.choice(["\n", "\n\n", "\n# c", "\n0"])
        return Case(t, "", units=[(t, nt(t))], labels=["parse"], extra=dict(kind="parse", text=t, pre=pre, post=post))
    return Case(t, "", units=[(t, nt(t))], labels=["compile"], extra=dict(kind="compile", text=t))


def nt(t):
    return len(t) >= 8 and len(set(re.findall(r"\w+|[^\w\s]", t))) > 1


def strategy(p):
    return from_g(lambda g: part(g, p))


def sq(s):
    return "'" + s.replace("\\", "\\\\").replace("'", "\\'") + "'"


def bad(x, what):
    return "%s: %s %s" % (what, {"p": "interpreter panic", "s": "interpreter crash", "t": "does not end", "x": "unexpected exit", "e": "error", "o": "accepted"}[x.status], x.detail[:300])



def check(case, ctx):
    r = ctx.runner("std")
    x = case.extra
    k = x["kind"]
    if k == "reject":
        a = r.run('raise "zz"\n0\n' + x["valid"], 5)
        if a.status == "t":
            return "inconclusive"
        if a.status != "e" or a.detail != "Exception":
            return bad(a, "valid text %r" % x["valid"])
        a = r.run('raise "zz"\n0\n' + x["bad"], 5)
        if a.status == "t":
            return "inconclusive"
        if a.status != "e" or not a.detail.startswith("SyntaxError"):
            return bad(a, "invalid text not rejected")
        return None
    if k == "parse":
        t = x["text"]
        a = r.parse(t, 5)
        if a.status == "t":
            return "inconclusive"
        if a.status not in "oe" or a.status == "e" and not a.detail.startswith("SyntaxError"):
            return bad(a, "parser")
        if NL.search(t) or "\0" in t:
            return None
        b = r.parse(x["pre"] + t, 5)
        if x["pre"][0] not in "0;" or not re.match(r"\s*([.&]|#|[^\w\s\"'@$:])", t):
            if b.status != a.status:
                return bad(b, "with %r before the text (%s without)" % (x["pre"], a.status))
            if a.status == "o" and x["pre"][0] != "0" and LOC.sub("", a.detail) != LOC.sub("", b.detail):
                return "with %r before the text the syntax tree differs" % x["pre"]
        if a.status == "o" and not OPEN.search(t):
            b = r.parse(t + x["post"], 5)
            if b.status != a.status:
                return bad(b, "with %r after the text (%s without)" % (x["post"], a.status))
            if x["post"] != "\n0" and LOC.sub("", a.detail) != LOC.sub("", b.detail):
                return "with %r after the text the syntax tree differs" % x["post"]
        return None
    if k == "compile":
        t = x["text"]
        a = r.parse(t, 5)
        b = r.run('raise "zz"\n0\n' + t, 5)
        if a.status == "t" or b.status == "t":
            return "inconclusive"
        if b.status != "e" or not (b.detail.startswith("SyntaxError") or b.detail == "Exception"):
            return bad(b, "compile")
        if a.status == "e" and not b.detail.startswith("SyntaxError") and not NL.search(t) and re.match(r"\s*[\w\"'@$:]", t):
            return "rejected alone, accepted after other statements"
        return None
    src = PRE
    want = []
    for i, t in enumerate(x["texts"]):
        a = r.parse(t, 5)
        if a.status == "t":
            return "inconclusive"
        src += "ev(%d, %s)\n" % (i, sq("raise Zz\n0\n" + t))
        want.append((i, a.status, t))
    src += "p $s, zq1, zq2, eval('zq1 + 1'), [1, 2].map { |zq3| zq3 + zq1 }\n"
    b = r.run(src, 8)
    if b.status == "t":
        return "inconclusive"
    if b.status != "o":
        return bad(b, "eval")
    ls = b.out.split("\n")
    for (i, s, t), l in zip(want, ls):
        if l not in ("[%d, :syn]" % i, "[%d, :z]" % i) or s == "e" and l != "[%d, :syn]" % i and not NL.search(t) and re.match(r"\s*[\w\"'@$:]", t):
            return "text %d (%r): got %r" % (i, t, l)
    if ls[len(want):] != ['[1, 2.5, "x", nil, :q]', "10", "[3]", "11", "[11, 12]", ""]:
        return "state after eval: %r" % ls[len(want):]
    return None


OPEN = re.compile(r"(\\|[$@?:%~&|!=<>+\-*/^.,({\[#]|\b(?:not|and|or|if|unless|while|until|rescue|defined\?|return|break|next|yield|in|do|then)|<<[-~]?['\"]?\w*['\"]?[^\n]*)\s*$|^__|<<[-~\"']?\w*$")
PRE = """class Zz < StandardError; end
$s = [1, 2.5, "x", nil, :q]
zq1 = 10; zq2 = [3]
def ev(zi, zs)
  begin
    eval(zs)
    p [zi, :fin]
  rescue SyntaxError => ze
    p [zi, :syn]
  rescue Zz
    p [zi, :z]
  end
end
"""
