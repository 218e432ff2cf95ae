"""C16: iteration over integers and ranges visits exactly the specified numbers, whatever their size and whatever the block does."""
import math
from driver import Case
from gen import from_g

ID = "C16"
EXAMPLES = dict(quick=1600, thorough=50000)
VARIANTS = ["std", "stress"]
PARTS = ["int", "big", "float", "enum", "query", "int", "big", "stress"]
RULE = ("One evaluation = one call of a method or lambda that iterates (times, upto, downto, step, Range#each/map/flat_map/all?, for, enumerators of them, nested up to three deep, or queries like to_a, first, last, include?, ===, also of ranges of strings and of objects with their own <=>) over given bounds with a "
        "block of 1-5 statements (logging, next, break, raise, return, changing the variables and bounds, capturing the variable in closures, inner iterations); its value, the log of visited numbers and the values of the captured variables "
        "are compared with the model. The same site is called with operands of different kinds. Non-trivial: at least two numbers were visited, or a bound is not a fixnum, or the range is empty, or the iteration was left early.")
ASSUMPTIONS = ["Float bounds and steps are multiples of 0.25 below 1000, so that Float arithmetic is exact", "endless ranges, step(by:, to:), Range#step and Float receivers of step are not supported by ruruby"]

BASES = [0, 0, 1, -1, 5, -7, 100, 2**31, 2**62, -2**62, 2**62 - 1, 2**63, -2**63, 2**63 - 1, 2**64, 10**20, -10**20]


def lit(v):
    if isinstance(v, float):
        return repr(v) if v >= 0 else "(%r)" % v
    if isinstance(v, str):
        return v
    return str(v) if v >= 0 else "(%d)" % v


def show(v):
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, list):
        return "[" + ", ".join(show(x) for x in v) + "]"
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, tuple):
        return show(v[0]) + (".." if not v[2] else "...") + show(v[1])
    if isinstance(v, float):
        return repr(v)
    return str(v)


class Brk(Exception):
    pass


class Nxt(Exception):
    pass


class Ret(Exception):
    pass


class Boom(Exception):
    pass


class Stop(Exception):
    pass


class TooLong(Exception):
    pass


def seq(kind, a, b, s):
    """The numbers visited."""
    if kind == "times":
        i = 0
        while i < a:
            yield i
            i += 1
    elif kind == "upto":
        i = a
        while i <= b:
            yield i
            i += 1
    elif kind == "downto":
        i = a
        while i >= b:
            yield i
            i -= 1
    elif kind == "step":
        if s == 0:
            raise Stop("ArgumentError")
        if isinstance(b, float) or isinstance(s, float):
            i = 0
            while (a + i * s <= b) if s > 0 else (a + i * s >= b):
                yield float(a + i * s)
                i += 1
        else:
            i = a
            while (i <= b) if s > 0 else (i >= b):
                yield i
                i += s
    elif kind in ("range", "xrange"):
        if isinstance(a, float):
            raise Stop("TypeError")
        i = a
        while (i <= b) if kind == "range" else (i < b):
            yield i
            i += 1
    elif kind == "ary":
        yield a
        yield b
        yield a


def head(kind, a, b, s):
    """Source of the receiver and method for the iteration."""
    return {"times": "%s.times" % a, "upto": "%s.upto(%s)" % (a, b), "downto": "%s.downto(%s)" % (a, b), "step": "%s.step(%s, %s)" % (a, b, s),
            "range": "(%s..%s).each" % (a, b), "xrange": "(%s...%s).each" % (a, b), "ary": "[%s, %s, %s].each" % (a, b, a)}[kind]


def self_val(kind, a, b):
    if kind == "range":
        return (a, b, False)
    if kind == "xrange":
        return (a, b, True)
    if kind == "ary":
        return [a, b, a]
    return a


class Blk:
    """A block: parameter form, statements, final value."""


class It:
    """An iteration: kind, how it is consumed, operand expressions (source, function of env), block."""


VARS = ["i", "j", "k"]


def mk_cond(g, v, part):
    c = g.int(0, 5)
    if c == 0:
        return "%s == t" % v, lambda e, x: x == e["t"]
    if c == 1:
        return "%s > t" % v, lambda e, x: x > e["t"]
    if c == 2:
        n = g.int(1, 6)
        return "$l.size > %d" % n, lambda e, x: len(e["$l"]) > n
    if c == 3:
        n = g.int(0, 2)
        return "%s %% 3 == %d" % (v, n), lambda e, x: x % 3 == n
    if c == 4:
        return "%s - t >= u" % v, lambda e, x: x - e["t"] >= e["u"]
    return "(n += 1) == 3", lambda e, x: count(e) == 3


def count(e):
    e["n"] += 1
    return e["n"]


def mk_val(g, v):
    c = g.int(0, 5)
    return [(v, lambda x: x), ("%s + 1" % v, lambda x: x + 1), ("[%s, 1]" % v, lambda x: [x, 1]), ("nil", lambda x: None), ("%s > 2" % v, lambda x: x > 2), ("[[%s]]" % v, lambda x: [[x]])][c]


def mk_blk(g, depth, part):
    b = Blk()
    v = b.v = VARS[depth]
    b.form = g.weighted([(10, "v"), (1, "v2"), (1, "splat"), (1, "opt"), (1, "none")])
    b.acts = []
    for _ in range(g.int(1, 4)):
        k = g.weighted([(6, "log"), (2, "next"), (2, "break"), (1, "raise"), (1, "ret"), (2 if depth < 2 else 0, "inner"), (2, "cap"), (1, "mut"), (1, "bound"), (1, "acc"), (1, "resc"), (1, "ens")])
        if k in ("next", "break", "raise", "ret", "resc"):
            b.acts.append((k, mk_cond(g, v, part), mk_val(g, v), g.bool(1, 2)))
        elif k == "inner":
            b.acts.append((k, mk_it(g, depth + 1, part), g.bool(1, 3)))
        elif k == "bound":
            b.acts.append((k, g.choice(["a", "b", "s"])))
        elif k == "ens":
            b.acts.append((k, mk_cond(g, v, part), g.choice(["next", "break"])))
        else:
            b.acts.append((k,))
    b.val = mk_val(g, v)
    b.braces = g.bool(1, 2)
    return b


def mk_it(g, depth, part):
    t = It()
    t.depth = depth
    t.kind = g.weighted([(2, "times"), (3, "upto"), (2, "downto"), (3, "step"), (3, "range"), (2, "xrange"), (1 if depth else 0, "ary")])
    if depth == 0:
        t.ops = ("a", "b", "s")
    else:
        o = VARS[depth - 1]
        pick = lambda: g.choice([("1", lambda e: 1), ("2", lambda e: 2), ("3", lambda e: 3), ("0", lambda e: 0)])
        if t.kind == "times":
            x = pick()
            t.opf = (x, x, x)
        else:
            a = g.choice([(o, lambda e: e[o][0]), (o, lambda e: e[o][0]), ("2", lambda e: 2), ("a", lambda e: e["a"])])
            d = g.int(-2, 3)
            sg = -1 if t.kind == "downto" else 1
            b = ("%s + %d" % (a[0], sg * d), lambda e: a[1](e) + sg * d)
            s = ("2", lambda e: 2) if d >= 0 or g.bool(1, 2) else ("-1", lambda e: -1)
            t.opf = (a, b, s)
        t.ops = tuple(x[0] if x[0][0].isalnum() and " " not in x[0] else "(%s)" % x[0] for x in t.opf)
    t.use = "each"
    if part == "enum" or g.bool(1, 8):
        t.use = g.choice(["emap", "eeach", "enext", "ewith", "evar"])
    elif t.kind in ("range", "xrange") and g.bool(2, 3):
        t.use = g.choice(["map", "flat_map", "all?", "for", "map", "to_a", "first", "last", "splat"])
    elif t.kind == "ary" and g.bool(1, 2):
        t.use = g.choice(["map", "for"])
    elif g.bool(1, 10):
        t.use = g.choice(["for_enum", "symlog", "proc", "lam", "meth"])
    t.n = g.int(0, 5)
    t.blk = mk_blk(g, depth, part)
    if t.use in ("for", "for_enum"):
        t.blk.form = "v"
    if t.use == "for" and t.kind != "ary":
        t.ops2 = "%s%s%s" % (t.ops[0], ".." if t.kind == "range" else "...", t.ops[1])
    if t.use in ("proc", "lam", "meth", "symlog"):
        t.blk.acts = [("log",)]
        t.blk.val = (t.blk.v, lambda x: x)
        t.blk.form = "v"
    if t.use == "enext":
        t.blk.form = "v"
        t.blk.acts = [a for a in t.blk.acts if a[0] in ("log", "cap", "acc", "inner", "mut", "ret", "raise")]
    return t


def blk_src(b, ind, it):
    v = b.v
    out = []
    par = {"v": "|%s|" % v, "v2": "|%s, %s2|" % (v, v), "splat": "|*%s|" % v, "opt": "|%s, %s2 = 7|" % (v, v), "none": ""}[b.form]
    sp = "  " * ind
    if it.use == "ewith":
        par = "|%s, w|" % v
    pre = []
    if it.use != "ewith":
        if b.form == "v2":
            pre.append("$l << %s2 if %s2" % (v, v))
        elif b.form == "splat":
            pre.append("%s = %s.size == 1 ? %s[0] : 0" % (v, v, v))
        elif b.form == "opt":
            pre.append("$l << 0 if %s2 != 7" % v)
        elif b.form == "none":
            pre.append("%s = (n += 1)" % v)
    else:
        pre.append("$l << w")
    body = [sp + "  " + x for x in pre]
    for a in b.acts:
        body += act_src(a, v, ind + 1)
    body.append(sp + "  " + b.val[0])
    return par, body


def act_src(a, v, ind):
    sp = "  " * ind
    k = a[0]
    if k == "log":
        return [sp + "$l << %s" % v]
    if k in ("next", "break"):
        return [sp + "%s%s if %s" % (k, " " + a[2][0] if a[3] else "", a[1][0])]
    if k == "raise":
        return [sp + "raise 'x' if %s" % a[1][0]]
    if k == "ret":
        return [sp + "return %s if %s" % (a[2][0], a[1][0])]
    if k == "resc":
        return [sp + "begin", sp + "  raise 'x' if %s" % a[1][0], sp + "rescue", sp + "  $l << 99", sp + ("  next" if a[3] else "  0"), sp + "end"]
    if k == "ens":
        return [sp + "begin", sp + "  %s if %s" % (a[2], a[1][0]), sp + "ensure", sp + "  $l << 77", sp + "end"]
    if k == "inner":
        x = it_src(a[1], ind, "x%d = " % ind if a[2] else "")
        return x + ([sp + "$l << x%d" % ind] if a[2] else [])
    if k == "cap":
        return [sp + "$c << lambda { %s }" % v]
    if k == "mut":
        return [sp + "%s += 1" % v, sp + "$l << %s" % v]
    if k == "bound":
        return [sp + "%s = 1" % a[1]]
    if k == "acc":
        return [sp + "n += 1", sp + "$l << n"]


def it_src(t, ind, pre):
    sp = "  " * ind
    a, b, s = t.ops
    h = head(t.kind, a, b, s)
    par, body = blk_src(t.blk, ind, t)
    o, c = ("{ " + par, "}") if t.blk.braces else ("do " + par, "end")
    u = t.use
    if u == "each":
        return [sp + pre + h + " " + o] + body + [sp + c]
    if u in ("map", "flat_map", "all?"):
        return [sp + pre + h.rsplit(".each", 1)[0] + "." + u + " " + o] + body + [sp + c]
    if u in ("to_a", "first", "last", "splat"):
        r = h.rsplit(".each", 1)[0]
        e = {"to_a": r + ".to_a", "first": r + ".first(%d)" % t.n, "last": r + ".last(%d)" % t.n, "splat": "[*%s]" % r}[u]
        return [sp + "(y%d = %s).each " % (ind, e) + o] + body + [sp + c] if not pre else [sp + pre + e + ".each " + o] + body + [sp + c]
    if u in ("for", "for_enum"):
        r = t.ops2 if u == "for" and t.kind != "ary" else h.rsplit(".each", 1)[0] if u == "for" else h
        if pre:
            return [sp + pre + "(for %s in %s" % (t.blk.v, r)] + body + [sp + "end)", sp + "$l << %s" % t.blk.v]
        return [sp + "for %s in %s" % (t.blk.v, r)] + body + [sp + "end", sp + "$l << %s" % t.blk.v]
    if u == "emap":
        return [sp + pre + h + ".map " + o] + body + [sp + c]
    if u == "eeach":
        return [sp + pre + h + ".each " + o] + body + [sp + c]
    if u == "evar":
        return [sp + "ev%d = %s" % (ind, h), sp + pre + "ev%d.each " % ind + o] + body + [sp + c]
    if u == "ewith":
        return [sp + h + ".with_index " + o] + body + [sp + c] + ([sp + pre + "5"] if pre else [])
    if u == "enext":
        return [sp + "ev%d = %s" % (ind, h), sp + pre + "begin", sp + "  %d.times do" % t.n, sp + "    %s = ev%d.next" % (t.blk.v, ind)] + ["  " + x for x in body] + [sp + "  end", sp + "rescue StopIteration", sp + "  $l << 55", sp + "  55", sp + "end"]
    if u == "symlog":
        return [sp + pre + h + "(&:to_s)" if "(" not in h.split(".")[-1] else sp + pre + h[:-1] + ", &:to_s)"]
    if u == "proc":
        return [sp + "pr%d = proc { |q| $l << q; q }" % ind, sp + pre + call_blk(h, "&pr%d" % ind)]
    if u == "lam":
        return [sp + pre + call_blk(h, "&lambda { |q| $l << q; q }")]
    if u == "meth":
        return [sp + pre + call_blk(h, "&proc { |q| lg(q) }")]
    raise Exception(u)


def call_blk(h, b):
    return h + "(%s)" % b if not h.endswith(")") else h[:-1] + ", %s)" % b


# ---- the model

def tick(e):
    e["#"] += 1
    if e["#"] > 300:
        raise TooLong()


def run_blk(b, e, x, it, idx):
    """Run the block for x; the value of the block."""
    if it.use in ("for", "for_enum", "enext"):
        if it.use == "enext":
            # the variable is local to the block given to times, unless a for loop before it has left one
            cell = next((s[b.v] for s in reversed(e["scope"]) if b.v in s), [None])
            e[b.v] = cell
        cell = e[b.v]
        cell[0] = x
    else:
        cell = e[b.v] = [x]
    if it.use == "ewith":
        e["$l"].append(idx)
    elif b.form == "none" and it.use != "enext":
        # an ordinary variable, unless a for loop before it has left one
        cell = e[b.v] = next((s[b.v] for s in reversed(e["scope"]) if b.v in s), cell)
        cell[0] = count(e)
    try:
        for a in b.acts:
            do_act(a, b, e, cell, it)
    except Nxt as n:
        return n.args[0]
    return b.val[1](cell[0])


def do_act(a, b, e, cell, it):
    tick(e)
    k = a[0]
    l = e["$l"]
    if k == "log":
        l.append(cell[0])
    elif k == "next":
        if a[1][1](e, cell[0]):
            raise Nxt(a[2][1](cell[0]) if a[3] else None)
    elif k == "break":
        if a[1][1](e, cell[0]):
            raise Brk(it, a[2][1](cell[0]) if a[3] else None)
    elif k == "raise":
        if a[1][1](e, cell[0]):
            raise Boom()
    elif k == "ret":
        if a[1][1](e, cell[0]):
            raise Ret(a[2][1](cell[0]))
    elif k == "resc":
        if a[1][1](e, cell[0]):
            l.append(99)
            if a[3]:
                raise Nxt(None)
    elif k == "ens":
        try:
            if a[1][1](e, cell[0]):
                raise Nxt(None) if a[2] == "next" else Brk(it, None)
        finally:
            l.append(77)
    elif k == "inner":
        v = run_it(a[1], e)
        e[b.v] = cell
        if a[2]:
            l.append(v)
    elif k == "cap":
        e["$c"].append(cell)
    elif k == "mut":
        cell[0] += 1
        l.append(cell[0])
    elif k == "bound":
        e[a[1]] = 1
    elif k == "acc":
        l.append(count(e))


def run_it(t, e):
    if t.depth == 0:
        a, b, s = e["a"], e["b"], e["s"]
    else:
        a, b, s = [x[1](e) for x in t.opf]
    if t.kind in ("times", "upto", "downto", "step") and isinstance(a, float):
        raise Stop("NameError")
    sv = self_val(t.kind, a, b)
    sq = seq(t.kind, a, b, s)
    u = t.use
    v = t.blk.v
    if u in ("for", "for_enum"):
        # the variable belongs to the enclosing scope
        if v not in e["scope"][-1]:
            e["scope"][-1][v] = [None]
    saved = e.get(v)
    if u in ("for", "for_enum"):
        e[v] = e["scope"][-1][v]
    else:
        e["scope"].append({})
    try:
        if u in ("each", "eeach", "evar", "for", "for_enum", "symlog", "proc", "lam", "meth", "ewith"):
            idx = 0
            try:
                for x in sq:
                    tick(e)
                    if u == "symlog":
                        continue
                    run_blk(t.blk, e, x, t, idx)
                    if u not in ("for", "for_enum"):
                        e["scope"][-1] = {}
                    idx += 1
                r = sv
            except Brk as x:
                if x.args[0] is not t:
                    raise
                r = x.args[1]
            if u == "ewith":
                r = 5
            if u in ("for", "for_enum"):
                e["$l"].append(e[v][0])
            return r
        if u in ("map", "flat_map", "all?", "emap"):
            out = []
            try:
                for x in sq:
                    tick(e)
                    y = run_blk(t.blk, e, x, t, 0)
                    e["scope"][-1] = {}
                    if u == "all?":
                        if y is None or y is False:
                            return False
                    elif u == "flat_map" and isinstance(y, list):
                        out += y
                    else:
                        out.append(y)
                return True if u == "all?" else out
            except Brk as x:
                if x.args[0] is not t:
                    raise
                return x.args[1]
        if u in ("to_a", "first", "last", "splat"):
            l = []
            for x in sq:
                tick(e)
                l.append(x)
                if u == "first" and len(l) >= t.n:
                    break
            if u == "first" and t.n == 0:
                l = []
            if u == "last":
                l = l[len(l) - min(t.n, len(l)):]
            try:
                for x in list(l):
                    run_blk(t.blk, e, x, t, 0)
                    e["scope"][-1] = {}
                return l
            except Brk as x:
                if x.args[0] is not t:
                    raise
                return x.args[1]
        if u == "enext":
            for _ in range(t.n):
                try:
                    x = next(sq)
                except StopIteration:
                    e["$l"].append(55)
                    return 55
                tick(e)
                run_blk(t.blk, e, x, t, 0)
                e["scope"][-1] = {}
            return t.n
    finally:
        if u not in ("for", "for_enum"):
            e["scope"].pop()
        if saved is not None:
            e[v] = saved
    raise Exception(u)


def call_model(t, ops):
    e = dict(ops)
    e.update({"$l": [], "$c": [], "n": 0, "#": 0, "scope": [{}]})
    try:
        r = show(run_it(t, e))
    except Ret as x:
        r = show(x.args[0])
    except Boom:
        r = ":boom"
    except Stop as x:
        r = ":" + x.args[0]
    return r, show(e["$l"]), show([c[0] for c in e["$c"]]), len(e["$l"])


def operands(g, t, part):
    a = g.choice(BASES if part in ("big", "query") or g.bool(1, 6) else BASES[:7]) + g.int(-3, 3)
    d = g.weighted([(1, -1), (1, 0), (4, g.int(1, 6)), (1, g.int(7, 20))])
    big = g.bool(1, 12)
    if big:
        d = g.choice([10**6, 2**40, 2**62, 2**64])
    sg = 1
    s = g.choice([1, 1, 2, 3, -1, -2, 0, 7, 2**40, 2**62, -2**62, 2**63, -2**64]) if g.bool(1, 2) else g.int(1, 4)
    if t.kind == "downto" or (t.kind == "step" and s < 0):
        sg = -1
    b = a + sg * d
    if t.kind == "times":
        a = d if g.bool(2, 3) else a
    if (part == "float" or g.bool(1, 10)) and abs(a) < 1000 and abs(b) < 1000 and t.kind != "times":
        if g.bool(2, 3):
            b = float(b) + g.choice([0.0, 0.25, 0.5, -0.25, 0.75])
        if t.kind == "step" and g.bool(1, 2):
            s = g.choice([0.5, 0.25, 1.0, 1.5, -0.5, -0.25, 2.75, -1.0, 100.0]) if abs(s) < 10 or g.bool(1, 2) else s
        if t.kind in ("range", "xrange") and g.bool(1, 10):
            a = float(a)
    if abs(s) >= 2**40 and t.kind == "step" and (isinstance(b, float)):
        s = 1
    return a, b, s


def make(g, part):
    lines = []
    exp = []
    units = []
    labels = set()
    p0 = g.choice(["int", "big", "enum"]) if part == "stress" else part
    for si in range(g.int(1, 3)):
        t = mk_it(g, 0, p0)
        wrap = g.int(0, 3)
        body = it_src(t, 1, "r = ")
        body = ["  n = 0"] + body + ["  r"]
        if wrap == 1:
            lines += ["$s%d = lambda do |a, b, s, t, u|" % si] + body + ["end"]
            call = "$s%d.call(" % si
        elif wrap == 2:
            lines += ["class K; def s%d(a, b, s, t, u)" % si] + body + ["end; end"]
            call = "K.new.s%d(" % si
        else:
            lines += ["def s%d(a, b, s, t, u)" % si] + body + ["end"]
            call = "s%d(" % si
        labels.add("use:%s.%s" % (t.kind, t.use))
        done = 0
        for _ in range(g.int(1, 6)):
            a, b, s = operands(g, t, p0)
            tt = a + g.int(0, 4) * (-1 if t.kind == "downto" else 1) if t.kind != "times" else g.int(0, 5)
            if isinstance(tt, float):
                tt = int(tt)
            u = g.int(0, 3)
            try:
                r, l, c, n = call_model(t, dict(a=a, b=b, s=s, t=tt, u=u))
            except (TooLong, RecursionError, OverflowError):
                continue
            if len(r) + len(l) > 3000:
                continue
            done += 1
            lines.append("$l = []; $c = []; x = begin; %s%s, %s, %s, %s, %s); rescue RuntimeError; :boom; rescue StandardError => e; e.class.to_s.to_sym; end" % (call, lit(a), lit(b), lit(s), lit(tt), lit(u)))
            lines.append("p x, $l, $c.map { |q| q.call }")
            exp += [r, l, c]
            units.append(((t.kind, t.use, type(a).__name__, type(b).__name__, tuple(x[0] for x in t.blk.acts), r[:20]), n >= 2 or abs(b) > 2**62 or abs(a) > 2**62 or isinstance(b, float) or n == 0))
    src = "def lg(q); $l << q; q; end\n" + "\n".join(lines) + "\n"
    return Case(src, exp, units, ["part:" + part] + sorted(labels), variant="stress" if part == "stress" else "std", cpu=10)


# ---- queries about ranges

QV = [0, 1, -1, 2, 3, 5, -5, 100, 2**31, 2**62 - 1, 2**62, -2**62, -2**62 - 1, 2**63, 2**64, 10**20, -10**20]


ORD = """class E
  include Comparable
  attr_reader :k
  def initialize(k); @k = k; end
  def <=>(o); o.is_a?(E) ? @k <=> o.k : nil; end
  def inspect; "E" + @k.to_s; end
end
"""


def ordered(g, lines, exp, units):
    """Ranges of objects with their own order, and of strings."""
    if g.bool():
        a, b, x = [g.int(-2, 5) for _ in range(3)]
        x = g.choice([a, b, x])
        la, lb, lx = ["E.new(%d)" % v for v in (a, b, x)]
        ks = ["inc", "===", "case", "begin", "ex", "stored"]
    else:
        a, b, x = [g.choice(["", "a", "aa", "ab", "b", "bz", "c", "c\u00e9", "z", "A", "\u00e9"]) for _ in range(3)]
        x = g.choice([a, b, x])
        la, lb, lx = ['"%s"' % v for v in (a, b, x)]
        a, b, x = [v.encode() for v in (a, b, x)]
        ks = ["===", "case", "stored"]
    ex = g.bool()
    form = g.int(0, 2)
    r = ["(%s%s%s)" % (la, "..." if ex else "..", lb), "Range.new(%s, %s, %s)" % (la, lb, "true" if ex else "false"), "oo"][form]
    if form == 2:
        lines.append("q = %s; w = %s; oo = q%sw" % (la, lb, "..." if ex else ".."))
    k = g.choice(ks)
    v = a <= x and (x < b if ex else x <= b)
    e = {"inc": "%s.include?(%s)" % (r, lx), "===": "%s === %s" % (r, lx), "case": "(case %s; when %s; true; else; false; end)" % (lx, r), "begin": "[%s.begin, %s.end]" % (r, r),
         "ex": "%s.exclude_end?" % r, "stored": "[%s].any? { |t| t === %s }" % (r, lx)}[k]
    v = "[E%d, E%d]" % (a, b) if k == "begin" else show(ex if k == "ex" else v)
    lines.append("p(%s)" % e)
    exp.append(v)
    units.append((("ord", k, form, ex, isinstance(a, bytes), v[:5]), k not in ("begin", "ex")))


def query(g):
    lines = [ORD]
    exp = []
    units = []
    for _ in range(g.int(3, 12)):
        if g.bool(1, 5):
            ordered(g, lines, exp, units)
            continue
        fl = g.bool(1, 4)
        a = g.choice(QV) + g.int(-1, 1)
        b = a + g.int(-2, 6) if g.bool(2, 3) else g.choice(QV) + g.int(-1, 1)
        if fl and abs(a) < 1000 and abs(b) < 1000:
            if g.bool(1, 2):
                a = a + g.choice([0.0, 0.25, 0.5])
            if g.bool(1, 2):
                b = b + g.choice([0.0, 0.25, 0.5])
        ex = g.bool(1, 2)
        form = g.int(0, 3)
        if form == 0:
            r = "(%s%s%s)" % (lit(a), "..." if ex else "..", lit(b))
        elif form == 1:
            r = "Range.new(%s, %s, %s)" % (lit(a), lit(b), "true" if ex else "false")
        elif form == 2:
            lines.append("q = %s; w = %s" % (lit(a), lit(b)))
            r = "(q%sw)" % ("..." if ex else "..")
        else:
            lines.append("rr = (%s%s%s)" % (lit(a), "..." if ex else "..", lit(b)))
            r = "rr"
        k = g.choice(["inc", "===", "case", "begin", "end", "first", "last", "first1", "last1", "to_s", "inspect", "ex", "==", "to_a", "idx", "eql", "hash", "all", "map"])
        v = None
        inside = lambda x: a <= x and (x < b if ex else x <= b)
        if k in ("inc", "===", "case"):
            x = g.choice([a, b, a - 1, b + 1, b - 1, a + 1, g.choice(QV), "nil", "'a'", ":a", "Object.new"])
            if not isinstance(x, str) and abs(x) < 1000 and g.bool(1, 3):
                x = x + g.choice([0.5, 0.0, -0.5])
            if any(isinstance(y, float) for y in (a, b, x)) and any(not isinstance(y, str) and abs(y) >= 2**53 for y in (a, b, x)):
                continue
            v = inside(x) if not isinstance(x, str) else False
            x = lit(x)
            e = {"inc": "%s.include?(%s)" % (r, x), "===": "%s === %s" % (r, x), "case": "(case %s; when %s; true; else; false; end)" % (x, r)}[k]
        elif k in ("begin", "end"):
            e, v = r + "." + k, a if k == "begin" else b
        elif k in ("first1", "last1"):
            e, v = r + "." + k[:-1], a if k == "first1" else b
        elif k in ("to_s", "inspect"):
            e, v = r + "." + k, show((a, b, ex))
        elif k == "ex":
            e, v = r + ".exclude_end?", ex
        elif k in ("==", "eql"):
            c, d, x2 = a, b, ex
            m = g.int(0, 4)
            if m == 1:
                c = c + 1
            elif m == 2:
                d = d + 1
            elif m == 3:
                x2 = not x2
            e = "%s %s (%s%s%s)%s" % (r, "==" if k == "==" else ".eql?(", lit(c), "..." if x2 else "..", lit(d), "" if k == "==" else ")")
            if k == "eql":
                e = e.replace(" .eql", ".eql")
            v = (c, d, x2) == (a, b, ex)
        elif k == "hash":
            e, v = "{%s => 5}[(%s%s%s)]" % (r, lit(a), "..." if ex else "..", lit(b)), 5
        elif isinstance(a, float) or abs(b - a) > 40 and k not in ("first",):
            continue
        else:
            lst = list(range(int(a), math.ceil(b) if ex else math.floor(b) + 1)) if abs(b - a) <= 40 else None
            if k == "first":
                n = g.int(0, 4)
                e = "%s.first(%d)" % (r, n)
                v = [a + i for i in range(n) if inside(a + i)]
            elif k == "last":
                n = g.int(0, 4)
                e, v = "%s.last(%d)" % (r, n), lst[max(0, len(lst) - n):]
            elif k == "to_a":
                e, v = r + ".to_a", lst
            elif k == "all":
                m = g.choice([a, a + 2, b])
                e, v = "%s.all? { |q| q <= %s }" % (r, lit(m)), all(q <= m for q in lst)
            elif k == "map":
                e, v = "%s.map(&:to_s)" % r, [str(q) for q in lst]
            else:
                ln = g.int(0, 6)
                arr = list(range(10, 10 + ln))
                i, j = g.int(-7, 7), g.int(-7, 7)
                e = "%s[%d%s%d]" % (show(arr), i, "..." if ex else "..", j)
                i2 = i + ln if i < 0 else i
                j2 = j + ln if j < 0 else j
                if i2 < 0 or i2 > ln:
                    v = None
                else:
                    v = arr[i2:max(i2, j2 + (0 if ex else 1))] if j2 + (0 if ex else 1) > i2 else []
        lines.append("p((begin; %s; rescue StandardError => e; e.class.to_s; end))" % e)
        exp.append(show(v) if not isinstance(v, (list, bool)) else show(v))
        units.append(((k, form, ex, type(a).__name__, type(b).__name__, str(v)[:12]), abs(a) > 2**61 or abs(b) > 2**61 or isinstance(a, float) or isinstance(b, float) or k not in ("begin", "end", "ex")))
    return Case("\n".join(lines) + "\n", exp, units, ["part:query"], cpu=10)


def strategy(part):
    if part == "query":
        return from_g(query)
    return from_g(lambda g: make(g, part))


def check(case, ctx):
    res = ctx.runner(case.variant).run(case.src, case.cpu)
    from driver import compare
    return compare(res, case.expected)
