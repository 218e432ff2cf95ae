"""C17: sorting and comparison: sort, sort_by, min, max, bsearch and Comparable agree with <=>, whatever it answers."""
import functools
from driver import Case
from gen import from_g

ID = "C17"
EXAMPLES = dict(quick=1200, thorough=40000)
VARIANTS = ["std", "stress"]
PARTS = ["num", "str", "obj", "blk", "blk", "cmp", "exit", "stress"]
RULE = ("One evaluation = one sort, sort_by, min, max or bsearch of an array of 0-300 elements (numbers of all kinds and sizes, strings, arrays, objects with their own <=>) in one of several initial orders, with or without a comparing block, or one "
        "comparison of two values by an operator, <=> or a method of Comparable. A sorted array must be a permutation of the receiver ordered by the comparison, the receiver must be unchanged, min and max the first least and greatest element, also "
        "if the comparison answers Floats, big Integers or arbitrary numbers, fails, is left by break, next, return or raise, changes the receiver, or is inconsistent. Non-trivial: at least three elements, or a comparison of values of different classes or of objects.")
ASSUMPTIONS = ["the order of elements that compare equal is not prescribed", "Float elements are multiples of 0.25 below 2**40 when mixed with Integers"]

PRE = '''class E
  include Comparable
  attr_reader :k, :i
  def initialize(k, i); @k = k; @i = i; end
  def <=>(o); $n += 1; o.is_a?(E) ? res(@k <=> o.k) : nil; end
  def res(r); RES; end
  def inspect; "e" + @i.to_s; end
end
class W
  attr_reader :k, :i
  def initialize(k, i); @k = k; @i = i; end
  def inspect; "w" + @i.to_s; end
end
$n = 0
def sh(a); a.map { |x| x.is_a?(E) || x.is_a?(W) ? x.i.to_s : x.is_a?(Array) && x[0] == :i ? x[1].to_s : x.inspect }.join(" "); end
def t; yield; rescue ArgumentError; :ae; rescue RuntimeError => e; e.message; rescue NameError, TypeError => e; e.class.to_s; end
def early(a); a.sort { |x, y| return :left if ($n += 1) > $m; x.k <=> y.k }; end
def earlyb(a); a.sort_by { |x| return :left if ($n += 1) > $m; x.k }; end
'''
RES = ["r", "r * 5", "r * 0.5", "r * 2 ** 70", "r * 1.5e300", "-(-r)", "r == 0 ? 0 : r < 0 ? -1 - @i : 1 + @i", "r"]


def lit(v):
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    return str(v)


def cmp(a, b):
    return (a > b) - (a < b)


def keys(g, kind, n):
    """n sort keys."""
    if kind == "int":
        pool = [g.int(-20, 20) for _ in range(5)] + [g.choice([2**62, -2**62, 2**62 - 1, 2**64, -2**64, 10**30, 2**31]) + g.int(-2, 2) for _ in range(4)]
        big = g.bool(1, 3)
        return [g.choice(pool) if big else g.int(-n - 3, n + 3) for _ in range(n)]
    if kind == "float":
        return [g.int(-60, 60) * 0.25 for _ in range(n)]
    if kind == "mix":
        return [g.int(-60, 60) * 0.25 if g.bool(1, 2) else g.int(-15, 15) for _ in range(n)]
    if kind == "str":
        al = "abAB01 z\u3042\u00e9" if g.bool(1, 2) else "ab"
        return ["".join(g.choice(al) for _ in range(g.weighted([(4, g.int(0, 4)), (1, g.int(20, 40))]))) for _ in range(n)]
    return [[g.int(0, 2) for _ in range(g.int(0, 3))] for _ in range(n)]


def arrange(g, ks):
    """Put the keys in an order that makes long runs, or not."""
    m = g.int(0, 6)
    if m == 1:
        ks = sorted(ks)
    elif m == 2:
        ks = sorted(ks, reverse=True)
    elif m == 3:
        c = g.int(0, len(ks))
        ks = sorted(ks[:c]) + sorted(ks[c:])
    elif m == 4:
        c = g.int(0, len(ks))
        ks = sorted(ks[:c], reverse=True) + sorted(ks[c:])
    elif m == 5:
        w = g.int(1, 15)
        out = []
        for i in range(0, len(ks), w):
            out += sorted(ks[i:i + w], reverse=g.bool(1, 2))
        ks = out
    elif m == 6 and ks:
        s = sorted(ks)
        for _ in range(g.int(1, 3)):
            i, j = g.int(0, len(s) - 1), g.int(0, len(s) - 1)
            s[i], s[j] = s[j], s[i]
        ks = s
    return ks


def size(g, part):
    if part == "stress":
        return g.weighted([(4, g.int(0, 8)), (2, g.int(18, 30))])
    return g.weighted([(5, g.int(0, 8)), (3, g.int(9, 25)), (2, g.choice([19, 20, 21, 22, 40, 64])), (2, g.int(26, 120)), (1, g.int(120, 300))])


def U(kind, ks=None, cmp=None, **k):
    """What a line must be (kind and data)."""
    d = dict(kind=kind, **k)
    if kind in ("order", "left"):
        f = cmp or (lambda a, b: (a > b) - (a < b))
        o = sorted(range(len(ks)), key=functools.cmp_to_key(lambda a, b: f(ks[a], ks[b])))
        ranks = [0] * len(ks)
        r = 0
        for j, i in enumerate(o):
            if j and f(ks[o[j - 1]], ks[i]) != 0:
                r += 1
            ranks[i] = r
        d["ranks"] = ranks
    elif ks is not None:
        d["ks"] = ks
    return d


KEYF = {  # key blocks for integers: source of the key, function
    "k": ("x.k", lambda k: k), "neg": ("-x.k", lambda k: -k), "abs": ("x.k.abs", lambda k: abs(k)), "mod": ("x.k % 3", lambda k: k % 3), "pair": ("[x.k % 3, x.k]", lambda k: [k % 3, k]),
    "str": ("x.k.to_s", lambda k: str(k)), "half": ("x.k * 0.5", lambda k: k * 0.5), "const": ("0", lambda k: 0), "big": ("x.k * 2 ** 70", lambda k: k)}
CMPB = {  # comparing blocks
    "asc": ("a.k <=> b.k", lambda a, b: cmp(a, b)), "desc": ("b.k <=> a.k", lambda a, b: cmp(b, a)), "abs": ("a.k.abs <=> b.k.abs", lambda a, b: cmp(abs(a), abs(b))),
    "sub": ("a.k - b.k", lambda a, b: a - b), "subf": ("(a.k - b.k) * 0.5", lambda a, b: a - b), "subb": ("(a.k - b.k) * 2 ** 70", lambda a, b: a - b),
    "pair": ("[a.k % 3, a.k] <=> [b.k % 3, b.k]", lambda a, b: cmp([a % 3, a], [b % 3, b])), "const": ("0", lambda a, b: 0), "lex": ("c = a.k % 2 <=> b.k % 2; c == 0 ? b.k <=> a.k : c", lambda a, b: cmp(a % 2, b % 2) or cmp(b, a)),
    "if": ("if a.k < b.k then -1 elsif a.k == b.k then 0 else 1 end", lambda a, b: cmp(a, b)), "next": ("next -1 if a.k < b.k; next 1 if a.k > b.k; 0", lambda a, b: cmp(a, b)),
    "ens": ("begin; a.k <=> b.k; ensure; $n += 1; end", lambda a, b: cmp(a, b)), "resc": ("begin; raise 'q'; rescue; a.k <=> b.k; end", lambda a, b: cmp(a, b))}


def build(g, part):
    res = g.choice(RES)
    lines = []
    us = []
    units = []
    p = g.choice(["num", "str", "obj", "blk", "exit"]) if part == "stress" else part
    for _ in range(g.int(1, 5)):
        n = size(g, part)
        if p in ("num", "str"):
            kind = g.choice(["int", "int", "float", "mix"]) if p == "num" else g.choice(["str", "ary"])
            ks = arrange(g, keys(g, kind, n))
            lines.append("a = %s" % lit(ks))
            op = g.choice(["sort", "sort", "min", "max", "sortdup", "sort_by_self", "sortb"])
            if op in ("min", "max"):
                lines.append("p t { a.%s }" % op)
                us.append(U("val", ks=ks, v=min(ks) if op == "min" else max(ks)) if ks else U("lit", s="nil"))
            else:
                e = {"sort": "a.sort", "sortdup": "a.dup.sort.sort", "sort_by_self": "a.sort_by { |x| x }", "sortb": "a.sort { |x, y| x <=> y }"}[op]
                lines.append("p((b = %s; b.size == a.size && !b.equal?(a) ? b : 0))" % e)
                us.append(U("perm", ks=ks))
            lines.append("p a == %s" % lit(ks))
            us.append(U("lit", s="true"))
            units.append(((p, op, kind, n, res), n >= 3))
            continue
        ks = arrange(g, keys(g, "int", n))
        cls = "E" if p == "obj" or g.bool(1, 3) else "W"
        lines.append("ks = %s; i = -1; a = ks.map { |k| %s.new(k, i += 1) }" % (lit(ks), cls))
        if p == "obj":
            op = g.choice(["sort", "sort", "min", "max", "minmut", "maxmut", "bad", "sort_by", "bsearch"])
            if op == "sort":
                lines.append("p t { sh(a.sort) }")
                us.append(U("order", ks=ks, cmp=cmp))
            elif op in ("min", "max"):
                lines.append("p t { sh([a.%s]) }" % op)
                us.append(U("lit", s='"%s"' % ("nil" if not ks else ks.index(min(ks) if op == "min" else max(ks)))))
            elif op in ("minmut", "maxmut"):
                # the receiver changes during the comparisons
                lines.append("class X%d < E; def <=>(o); $a.clear; [1, 'x' * 20, nil].map { |x| x }; super; end; end" % len(lines))
                lines.append("i = -1; $a = ks.map { |k| X%d.new(k, i += 1) }; p t { sh([$a.%s]) }" % (len(lines) - 1, op[:3]))
                us.append(U("lit", s='"%s"' % ("nil" if not ks else ks.index(min(ks) if op == "minmut" else max(ks)))))
            elif op == "bad":
                if n < 2:
                    lines.append("p t { sh((a + [3]).sort) == 0 }")
                    us.append(U("lit", s="false" if n == 0 else ":ae"))
                else:
                    x = g.choice(["3", "nil", "'a'", "[1]", "Object.new", ":s"])
                    o = g.choice(["sort", "min", "max", "sort"])
                    i = g.int(0, n)
                    lines.append("p t { b = a[0, %d] + [%s] + a[%d, 1000]; b.%s; 0 }" % (i, x, i, o))
                    us.append(U("oneof", s=[":ae", '"NameError"', '"TypeError"']))
            elif op == "sort_by":
                lines.append("p t { sh(a.sort_by { |x| x }) }")
                us.append(U("order", ks=ks, cmp=cmp))
            else:
                ss = sorted(ks)
                x = (g.choice(ss) if ss else 0) + g.int(-1, 1)
                lines.append("p((q = %s.bsearch { |y| E.new(y, 0) >= E.new(%d, 1) }))" % (lit(ss), x))
                us.append(U("lit", s=next((str(y) for y in ss if y >= x), "nil")))
            units.append(((p, op, n, res), n >= 3))
        elif p == "blk":
            by = g.bool(1, 2)
            if by:
                k = g.choice(sorted(KEYF))
                s, f = KEYF[k]
                if k == "half" and any(abs(x) > 2**50 for x in ks):
                    s, f = KEYF["k"]
                form = g.int(0, 3)
                e = ["a.sort_by { |x| %s }", "a.sort_by do |x| %s end", "a.sort_by(&lambda { |x| %s })", "a.sort_by { |x| next %s }"][form] % s
                fk = f
                us.append(U("order", ks=ks, cmp=lambda a, b, f=fk: cmp(f(a), f(b))))
            else:
                k = g.choice(sorted(CMPB))
                s, f = CMPB[k]
                form = g.int(0, 3)
                e = ["a.sort { |a, b| %s }", "a.sort do |a, b| %s end", "a.sort(&lambda { |a, b| %s })", "a.sort(&proc { |a, b| %s })"][form] % s
                us.append(U("order", ks=ks, cmp=f))
            lines.append("p((b = %s; b.equal?(a) ? 0 : sh(b)))" % e if form != 1 else "b = %s\np sh(b)" % e)
            lines.append("p sh(a)")
            us.append(U("lit", s='"%s"' % " ".join(str(i) for i in range(n))))
            units.append(((p, by, k, form, n), n >= 3))
        else:
            m = g.int(0, 12)
            op = g.choice(["break", "raise", "ret", "retb", "breakb", "mut", "mutb", "nil", "str", "incons", "nest", "fiber", "nilb"])
            lines.append("$n = 0; $m = %d; $a = a" % m)
            if op in ("break", "raise", "breakb"):
                x = "break :left" if op != "raise" else "raise 'left'"
                e = "a.sort { |x, y| %s if ($n += 1) > $m; x.k <=> y.k }" % x if op != "breakb" else "a.sort_by { |x| %s if ($n += 1) > $m; x.k }" % x
                lines.append("r = t { %s }; p r.is_a?(Array) ? sh(r) : r.to_s" % e)
                us.append(U("left", ks=ks, m=m, by=op == "breakb"))
            elif op in ("ret", "retb"):
                lines.append("r = %s(a); p r.is_a?(Array) ? sh(r) : r.to_s" % ("early" if op == "ret" else "earlyb"))
                us.append(U("left", ks=ks, m=m, by=op == "retb"))
            elif op == "mut":
                x = g.choice(["$a.clear", "$a << 5", "$a.pop", "$a.shift", "$a.unshift(1)", "$a[0] = nil"])
                lines.append("i = -1; $a = ks.map { |k| %s.new(k, i += 1) }; p t { sh($a.sort { |x, y| %s; 'a' * 30; x.k <=> y.k }) }" % (cls, x))
                us.append(U("order", ks=ks, cmp=cmp))
            elif op == "mutb":
                lines.append("p t { sh(a.sort_by { |x| q = x.k; x = nil; q.to_s * 2; q }) }")
                us.append(U("order", ks=ks, cmp=cmp))
            elif op in ("nil", "str"):
                v = {"nil": "nil", "str": "'a'"}[op]
                lines.append("p t { sh(a.sort { |x, y| %s }) }" % v)
                us.append(U("oneof", s=[":ae", '"NameError"', '"TypeError"']) if n >= 2 else U("lit", s='"%s"' % ("0" if n else "")))
            elif op == "nilb":
                v = g.choice(["nil", "x.i == 0 ? nil : 1", "x.i == 0 ? 'a' : 1", "Object.new"])
                lines.append("p t { sh(a.sort_by { |x| %s }) }" % v)
                # nil <=> nil is 0
                us.append(U("oneof", s=[":ae", '"NameError"', '"TypeError"']) if n >= 2 and v != "nil" else U("order", ks=ks, cmp=lambda a, b: 0))
            elif op == "incons":
                x = g.choice(["1", "-1", "($n += 1) % 3 - 1", "($n += 7) % 5 - 2", "x.i.even? ? 1 : -1"])
                lines.append("p t { sh(a.sort { |x, y| %s }) }" % x)
                us.append(U("order", ks=ks, cmp=lambda a, b: 0))
            elif op == "nest":
                lines.append("p t { sh(a.sort { |x, y| [x.k, y.k].sort[0] == x.k ? (x.k == y.k ? 0 : -1) : 1 }) }")
                us.append(U("order", ks=ks, cmp=cmp))
            else:
                lines.append("f = Fiber.new { a.sort { |x, y| Fiber.yield(x.k <=> y.k); x.k <=> y.k } }; r = f.resume; r = f.resume while !r.is_a?(Array); p sh(r)")
                us.append(U("order", ks=ks, cmp=cmp))
            if op != "mut":
                lines.append("p sh(a)")
                us.append(U("lit", s='"%s"' % " ".join(str(i) for i in range(n))))
            units.append(((p, op, m, n), n >= 3))
    src = PRE.replace("RES", res) + "\n".join(lines) + "\n"
    return Case(src, "", units, ["part:" + part], variant="stress" if part == "stress" else "std", cpu=20, extra=us)


def build_cmp(g):
    """Single comparisons."""
    res = g.choice(RES[:6])
    lines = []
    us = []
    units = []
    for _ in range(g.int(5, 30)):
        kind = g.choice(["int", "mix", "str", "ary", "E", "E", "un", "chain", "arycmp"])
        if kind in ("int", "mix", "str", "ary"):
            a, b = keys(g, kind, 2)
            if g.bool(1, 4):
                b = a
            a2, b2 = lit(a), lit(b)
        elif kind == "arycmp":
            a = [g.choice([1, 2, 2.0, 2**64, -1]) for _ in range(g.int(0, 3))]
            b = [g.choice([1, 2, 2.0, 2**64, -1]) for _ in range(g.int(0, 3))]
            a2, b2 = lit(a), lit(b)
        elif kind in ("E", "chain"):
            a, b = keys(g, "int", 2)
            if g.bool(1, 4):
                b = a
            a2, b2 = "E.new(%d, 1)" % a, "E.new(%d, 2)" % b
            if kind == "chain" and a == b and "." in res:
                # a result of 0.0 of <=> is not the Integer 0: Array#<=> stops there
                kind = "E"
            if kind == "chain":
                a, b = [a, 1], [b, 2]
                a2, b2 = "[%s, 1]" % a2, "[%s, 2]" % b2
        else:
            x, y = g.choice([("1", "'a'"), ("'a'", "1"), ("nil", "1"), ("E.new(1, 1)", "3"), ("[1]", "1"), ("1.5", "nil"), ("2 ** 64", "'a'"), ("[1]", "['a']"), ("[1, nil]", "[1, 2]"), ("E.new(1, 1)", "nil"), (":a", "1"), ("Object.new", "1"), ("2", "E.new(1, 1)")])
            op = g.choice(["<=>", "<", ">=", "=="])
            if op in ("<", ">=") and not (x[0].isdigit() or x[0] in "E'"):
                op = "<=>"
            lines.append("x = %s; y = %s; p t { x %s y }" % (x, y, op))
            if x == "[1, nil]":
                us.append(U("lit", s="nil" if op == "<=>" else "false"))
            else:
                us.append(U("lit", s={"<=>": "nil", "==": "false"}[op]) if op in ("<=>", "==") else U("oneof", s=[":ae", '"NameError"', '"TypeError"']))
            units.append(((kind, x, y, op), True))
            continue
        ops = ["<=>", "=="]
        if kind not in ("ary", "arycmp", "chain"):
            ops += ["<", "<=", ">", ">=", "!="]
        op = g.choice(ops)
        form = g.int(0, 5)
        c = cmp(a, b)
        v = {"<=>": c, "==": c == 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "!=": c != 0}[op]
        e = ["x %s y", "x.%s(y)", "x.send(:%s, y)", "(x %s y ? true : false)", "x.method(:%s).call(y)", "[[x, y]].map { |x, y| x %s y }[0]"][form] % op
        if op == "<=>":
            if form == 3:
                e = "x <=> y"
            e = "(z = %s; z > 0 ? 1 : z < 0 ? -1 : 0)" % e
        if op == "!=" and form in (1, 2, 4):
            e = "x != y"
        if kind == "mix" and op == "==" and form in (1, 2, 4):
            e = "x == y"
        lines.append("x = %s; y = %s; p t { %s }" % (a2, b2, e))
        us.append(U("lit", s=str(v).lower()))
        units.append(((kind, op, form, c), kind in ("E", "chain", "mix") or isinstance(a, list)))
    src = PRE.replace("RES", res) + "\n".join(lines) + "\n"
    return Case(src, "", units, ["part:cmp"], cpu=10, extra=us)


def strategy(part):
    if part == "cmp":
        return from_g(build_cmp)
    return from_g(lambda g: build(g, part))


def parse(l):
    """Parse a printed array of numbers, strings and arrays."""
    return eval(l.replace("\\u{", "{"), {"__builtins__": {}}, {"nil": None, "true": True, "false": False})


def ok(u, l):
    kind = u["kind"]
    if kind == "lit":
        return l == u["s"]
    if kind == "oneof":
        return l in u["s"]
    if kind == "val":
        return parse(l) == u["v"]
    if kind == "perm":
        v = parse(l)
        s = sorted(u["ks"])
        return v == s and sorted(map(lit, v)) == sorted(map(lit, s))
    n = len(u["ranks"])
    if kind == "left":
        if l == '"left"':
            return n > u["m"] if u["by"] else n >= 2
        if u["by"] and n > u["m"]:
            return False
        if not u["by"] and n >= 2 and u["m"] == 0:
            return False
    if l[:1] != '"':
        return False
    ids = [int(x) for x in l[1:-1].split()]
    return sorted(ids) == list(range(n)) and all(u["ranks"][a] <= u["ranks"][b] for a, b in zip(ids, ids[1:]))


def check(case, ctx):
    from driver import compare
    res = ctx.runner(case.variant).run(case.src, case.cpu)
    if res.status != "o" or not case.extra:
        return compare(res, case.expected if not case.extra else ["(a regular end)"])
    out = res.out.split("\n")
    if out and out[-1] == "":
        out.pop()
    if len(out) != len(case.extra):
        return "%d lines printed, expected %d" % (len(out), len(case.extra))
    for i, (u, l) in enumerate(zip(case.extra, out)):
        try:
            good = ok(u, l)
        except Exception as e:
            good = False
        if not good:
            return "line %d: %r is not as specified (%s %s)" % (i + 1, l[:200], u["kind"], u.get("s", u.get("ks", u.get("ranks", ""))))
    return None
