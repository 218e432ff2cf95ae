"""C04: precedence, associativity and layout, with operators that build the string of what was applied to what."""
from driver import Case
from gen import from_g

ID = "C04"
EXAMPLES = dict(quick=2600, thorough=80000)
VARIANTS = ["std"]
RULE = ("One evaluation = one statement made of operator expressions printed with only the parentheses Ruby's operator table requires and with random layout, whose value (the string of the applications performed) and "
        "assignments are compared with the evaluation of the tree it was printed from. Non-trivial: at least three operators or a layout change (newline, comment, missing or asymmetric space) inside an expression.")
ASSUMPTIONS = ["not generated (unsupported by ruruby): not, defined? without parentheses, assignments as operands of unary operators, endless ranges, octal literals",
               "a do block after a command call whose last argument is itself a call binds to that call in ruruby (pinned by its tests, known finding): not generated", "an operator with a space before and none after it is only generated after a local variable, a literal or a closing parenthesis, where Ruby reads it as binary"]
PRE = """class E
  def initialize(s); @s = s; end
  def inspect; @s; end
  def to_s; @s; end
  def b(o, x); E.new("(" + @s + o + x.inspect + ")"); end
  def u(o); E.new("(" + o + @s + ")"); end
  def +(x); b("+", x); end
  def -(x); b("-", x); end
  def *(x); b("*", x); end
  def /(x); b("/", x); end
  def %(x); b("%", x); end
  def **(x); b("**", x); end
  def <<(x); b("<<", x); end
  def >>(x); b(">>", x); end
  def &(x); b("&", x); end
  def |(x); b("|", x); end
  def ^(x); b("^", x); end
  def <(x); b("<", x); end
  def >(x); b(">", x); end
  def <=(x); b("<=", x); end
  def >=(x); b(">=", x); end
  def ==(x); b("==", x); end
  def ===(x); b("===", x); end
  def !=(x); b("!=", x); end
  def =~(x); b("=~", x); end
  def <=>(x); b("<=>", x); end
  def -@; u("-"); end
  def ~; u("~"); end
  def !; u("!"); end
  def [](*x); E.new(@s + x.inspect); end
  def []=(*x); $l << [@s, :[]=, x]; :ignored; end
  def m; E.new(@s + ".m"); end
  def n(*x); bl = block_given? ? "{" + yield(E.new("y")).inspect + "}" : ""; E.new(@s + ".n" + x.inspect + bl); end
  def q?; E.new(@s + ".q?"); end
  def at; E.new(@s + ".at"); end
  def at=(x); $l << [@s, :at=, x]; :ignored; end
end
def f(*x, **k); bl = block_given? ? "{" + yield(E.new("y")).inspect + "}" : ""; $l << :f; E.new("f" + x.inspect + (k.size > 0 ? k.inspect : "") + bl); end
def g(*x, **k, &b); bl = b ? "{" + b.call(E.new("y")).inspect + "}" : ""; E.new("g" + x.inspect + (k.size > 0 ? k.inspect : "") + bl); end
def h; E.new("h"); end
$l = []; $v = nil; @i = nil
a = E.new("a"); b = E.new("b"); c = E.new("c"); v = nil; w = nil"""

LV = {"**": 18, "neg": 17, "*": 16, "/": 16, "%": 16, "+": 15, "-": 15, "<<": 14, ">>": 14, "&": 13, "|": 12, "^": 12, "<": 11, ">": 11, "<=": 11, ">=": 11,
      "<=>": 10, "==": 10, "===": 10, "!=": 10, "=~": 10, "&&": 9, "||": 8, "..": 7, "...": 7, "?:": 6, "=": 4, "!": 19, "~": 19}
BIN = ["+", "-", "*", "/", "%", "**", "<<", ">>", "&", "|", "^", "<", ">", "<=", ">=", "<=>", "==", "===", "!=", "=~"]
OPA = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "&&", "||"]


class EV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class Sym:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


def insp(x):
    if x is None:
        return "nil"
    if x is True:
        return "true"
    if x is False:
        return "false"
    if isinstance(x, EV):
        return x.s
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"%s"' % x.replace('"', '\\"')
    if isinstance(x, Sym):
        return ":" + x.s
    if isinstance(x, list):
        return "[" + ", ".join(insp(i) for i in x) + "]"
    if isinstance(x, dict):
        return "{" + ", ".join("%s=>%s" % (":" + k if isinstance(k, str) else insp(k), insp(i)) for k, i in x.items()) + "}"
    if isinstance(x, tuple):
        return insp(x[1]) + x[0] + insp(x[2])
    raise TypeError(x)


def tos(x):
    return "" if x is None else x.s if isinstance(x, Sym) else x if isinstance(x, str) else insp(x)


def tr(x):
    return x is not None and x is not False


class Gen:
    def __init__(self, g):
        self.g = g
        self.nops = 0
        self.fancy = 0
        self.asg = True
        self.inblk = 0
        self.multi = True
        self.nodo = False

    # ---- trees.  e: certainly an E; x: anything
    def atom(self, d):
        g = self.g
        k = g.int(0, 9 if d > 0 else 4)
        if k <= 2:
            return ("var", g.choice(["a", "b", "c"] + (["y"] if self.inblk else [])))
        if k == 3:
            return ("hm",)
        if k == 4:
            return ("post", self.atom(0), g.choice(["m", "q?"]))
        if k == 5:
            return ("call", g.choice(["f", "g"]), self.args(d - 1), self.kw(d), self.blk(d))
        if k == 6:
            return ("post", self.recv(d - 1), g.choice(["m", "q?"]))
        if k == 7:
            return ("n", self.recv(d - 1), self.args(d - 1), self.blk(d))
        if k == 8:
            return ("idx", self.recv(d - 1), [self.x(d - 1) for _ in range(g.int(1, 2))])
        return ("if", self.x(d - 1), self.e(d - 1), self.e(d - 1), g.int(0, 3))

    def recv(self, d):
        return self.e(d) if self.g.bool(1, 3) else self.atom(d)

    def args(self, d):
        return [self.x(d) for _ in range(self.g.int(0, 2))]

    def kw(self, d):
        return [("k", self.x(d - 1))] if self.g.bool(1, 6) else []

    def blk(self, d):
        if d <= 0 or not self.g.bool(1, 4):
            return None
        self.inblk += 1
        old = self.asg
        r = self.x(d - 1)
        self.inblk -= 1
        self.asg = old
        return r

    def e(self, d):
        g = self.g
        if d <= 0 or g.bool(1, 6):
            return self.atom(d)
        k = g.int(0, 11)
        if k <= 5:
            self.nops += 1
            return ("bin", g.choice(BIN), self.e(d - 1), self.x(d - 1))
        if k <= 7:
            self.nops += 1
            return ("un", g.choice(["neg", "neg", "!", "~"]), self.e(d - 1))
        if k == 8:
            self.nops += 1
            return ("and", self.e(d - 1), self.e(d - 1))
        if k == 9:
            self.nops += 1
            return ("or", self.e(d - 1), self.x(d - 1))
        if k == 10:
            self.nops += 1
            return ("tern", self.x(d - 1), self.e(d - 1), self.e(d - 1))
        if self.asg:
            return self.assign(d, self.e(d - 1))
        return self.atom(d)

    def assign(self, d, rhs):
        g = self.g
        self.nops += 1
        t = g.choice([("v", "v"), ("v", "w"), ("v", "$v"), ("v", "@i"), ("at", self.atom(0)), ("ix", self.atom(0), [self.x(0) for _ in range(g.int(1, 2))])])
        return ("asg", t, rhs)

    def x(self, d):
        g = self.g
        k = g.int(0, 12)
        if k <= 5:
            return self.e(d)
        if k == 6:
            return ("lit", g.choice([None, True, False, "s", Sym("s"), 1, 2]))
        if k == 7:
            return self.num(d)
        if d <= 0:
            return ("var", g.choice(["a", "b", "c"]))
        self.nops += 1
        if k == 8:
            return ("and", self.x(d - 1), self.x(d - 1))
        if k == 9:
            return ("or", self.x(d - 1), self.x(d - 1))
        if k == 10:
            return ("tern", self.x(d - 1), self.x(d - 1), self.x(d - 1))
        if k == 11:
            return ("rng", g.choice(["..", "..."]), self.e(d - 1), self.e(d - 1))
        if g.bool():
            return ("arr", [self.x(d - 1) for _ in range(g.int(0, 3))])
        if g.bool(1, 4):
            return ("hash2", self.e(d - 1), self.x(d - 1), self.x(0))
        if self.asg:
            return self.assign(d, self.x(d - 1))
        return ("hash", [("k", self.x(d - 1)), ("l", self.x(0))])

    def num(self, d):
        g = self.g
        if d <= 0 or g.bool(1, 4):
            return ("lit", g.int(0, 9))
        self.nops += 1
        k = g.int(0, 9)
        if k <= 1:
            return ("un", g.choice(["neg", "neg", "~"]), self.num(d - 1))
        if k == 2:
            return ("bin", "**", self.num(d - 1), ("lit", g.int(0, 3)))
        if k == 3:
            return ("bin", g.choice(["/", "%"]), self.num(d - 1), ("lit", g.choice([2, 3, 7])))
        if k == 4:
            return ("bin", g.choice(["<<", ">>"]), self.num(d - 1), ("lit", g.int(0, 4)))
        return ("bin", g.choice(["+", "-", "*", "-", "&", "|", "^"]), self.num(d - 1), self.num(d - 1))

    # ---- layout
    def sp(self):
        """optional blank"""
        return self.g.choice(["", " ", "", "  ", "\t"])

    def nl(self):
        """a place where a newline may stand"""
        g = self.g
        if not self.multi or not g.bool(1, 6):
            return ""
        self.fancy += 1
        return g.choice(["\n", "\n", " # c\n", "\n\n  ", "\n  # if (\n", " \\\n"])

    def op(self, left, o, right):
        g = self.g
        k = g.weighted([(8, 0), (4, 1), (2, 2), (2, 3)])
        endw = left[-1].isalnum() or left[-1] in "_?"
        local = left[-1] in ")]" or (left[-1] in "abcvwy" and (len(left) < 2 or not (left[-2].isalnum() or left[-2] in "_.@$:"))) and False or left[-1] in ")]"
        if left[-1] == "?" or right[0] in "-!~*&:%/<=?[":
            k = 0
        if o in ("?", ":") or o[0] == "." and left[-1].isdigit():
            k = 0
        if o[0] == "%" and k in (1, 2) or o in ("/",) and k == 2:
            k = 0
        if right[0] == "=" or o == "<<" and k in (1, 2) or o == "&" and right[0] == "&":
            k = 0
        if k == 2 and not self.binleft(left):
            k = 0
        if k == 1 and o == "-" and endw and not self.binleft(left) and not right[0].isalnum():
            k = 0
        if k == 0:
            r = self.nl()
            if not r and self.multi and g.bool(1, 25) and o not in ("?", ":"):
                self.fancy += 1
                return left + " \\\n " + o + " " + right
            return left + " " + o + (r or g.choice([" ", " ", "  "])) + right
        self.fancy += 1
        if k == 1:
            return left + o + right
        if k == 2:
            return left + " " + o + right
        return left + o + " " + right

    def binleft(self, left):
        """left ends in a local variable, a literal digit or a bracket: ` -x` continues it"""
        if left[-1] in ")]":
            return True
        i = len(left)
        while i > 0 and (left[i - 1].isalnum() or left[i - 1] in "_@$.:?"):
            i -= 1
        w = left[i:]
        return w in ("a", "b", "c", "v", "w", "y") or w.isdigit()

    def paren(self, s):
        a, b = self.nl() or self.g.choice(["", "", " "]), self.g.choice(["", "", " "])
        if self.multi and self.g.bool(1, 15):
            b = "\n"
        return "(" + a + s + b + ")"

    def pr(self, n, mn=0, fol=0, right=True):
        """source of n where operators of level >= mn may stand unparenthesised and an operator of level fol follows"""
        lv, s = self.pr1(n, fol)
        if lv >= mn:
            return s()
        if right and n[0] in ("asg",) and lv > fol:
            return s()
        if right and n[0] == "un" and lv > fol:
            return s()
        # a pair of parentheses: everything inside starts afresh
        lv, s = self.pr1(n, 0)
        return self.paren(s())

    def pr1(self, n, fol):
        """(level, thunk)"""
        k = n[0]
        g = self.g
        if k == "var":
            return 20, lambda: n[1]
        if k == "hm":
            return 20, lambda: g.choice(["h", "h()"])
        if k == "lit":
            v = n[1]
            if isinstance(v, int) and not isinstance(v, bool):
                return 20, lambda: g.choice(["%d" % v, "%d" % v, "0x%x" % v, "0b%s" % bin(v)[2:]]) if v >= 0 else "%d" % v
            if v == "s":
                return 20, lambda: g.choice(['"s"', "'s'", "%q(s)", '"#{"s"}"'])
            return 20, lambda: insp(v)
        if k == "bin" or k == "rng":
            o = n[1]
            lv = LV[o]
            la = lv + 1 if o == "**" or lv in (10, 7) else lv
            ra = lv if o == "**" else lv + 1

            def s():
                l = self.pr(n[2], la, lv, False)
                r = self.pr(n[3], ra, fol, o != "**" or n[3][0] == "un")
                return self.op(l, o, r)
            return lv, s
        if k in ("and", "or"):
            o = "&&" if k == "and" else "||"
            lv = LV[o]
            return lv, lambda: self.op(self.pr(n[1], lv, lv, False), o, self.pr(n[2], lv + 1, fol))
        if k == "un":
            o = n[1]
            lv = LV[o]

            def s():
                c = n[2]
                # operands of unary operators: no bare assignments
                r = self.pr(c, lv, fol, c[0] == "un")
                if o == "neg" and (r[0].isdigit() or r[0] == "-"):
                    # -2 is a literal: print the operation with a space only where it means the same
                    r = "(" + r + ")"
                if o == "!" and r[0] in "~=":
                    r = self.paren(r)
                return ("-" if o == "neg" else o) + r
            return lv, s
        if k == "tern":
            def s():
                c = self.pr(n[1], 7, 6, False)
                x = self.pr(n[2], 4, 0)
                y = self.pr(n[3], 6, fol)
                a = self.nl() or " "
                b = self.nl() or " "
                if b == " \\\n":
                    b = " "
                return c + " ?" + a + x + " :" + b + y
            return 6, s
        if k == "asg":
            def s():
                r = n[2]
                t = self.target(n[1])
                rs = self.pr(r, 4, fol)
                return t + g.choice([" = ", " = ", " =" + self.nl() + " "] + (["="] if rs[0] not in "~=>" and t[-1] not in "?" else [])) + rs
            return 4, s
        if k == "post":
            def s():
                r = self.pr(n[1], 20, 20, False)
                if r[-1].isdigit():
                    r = "(" + r + ")"
                return r + self.dot() + n[2] + g.choice(["", "", "()"])
            return 20, s
        if k == "n":
            def s():
                r = self.pr(n[1], 20, 20, False)
                return r + self.dot() + "n" + (self.arglist(n[2], [], True) if n[2] or g.bool() else "") + self.block(n[3])
            return 20, s
        if k == "call":
            return 20, lambda: n[1] + (self.arglist(n[2], n[3], True) if n[2] or n[3] or not n[4] else g.choice(["", "()"])) + self.block(n[4])
        if k == "idx":
            def s():
                r = self.pr(n[1], 20, 20, False)
                return r + "[" + self.commas([self.pr(i, 4, 0) for i in n[2]], False) + "]"

            def guard():
                t = s()
                return t
            return (20, guard) if n[1][0] not in ("hm", "post") else (20, lambda: self.paren(self.pr(n[1])) + "[" + self.commas([self.pr(i, 4, 0) for i in n[2]], False) + "]")
        if k == "arr":
            return 20, lambda: "[" + self.commas([self.pr(i, 4, 0) for i in n[1]], True) + "]"
        if k == "hash2":
            return 20, lambda: "{" + self.commas([self.pr(n[1], 4, 0) + g.choice([" => ", " =>" + self.nl() + " "]) + self.pr(n[2], 4, 0), g.choice(["k: ", ":k => "]) + self.pr(n[3], 4, 0)], True) + "}"
        if k == "hash":
            return 20, lambda: "{" + self.commas([g.choice(["%s: ", ":%s => ", "%s:" if False else "%s: "]) % kk + self.pr(i, 4, 0) for kk, i in n[1]], True) + "}"
        if k == "if":
            def s():
                c, x, y = self.pr(n[1]), self.pr(n[2]), self.pr(n[3])
                i = g.choice(["\n", ";", "\n  "])
                t = g.choice([" then ", "\n", " then\n", ";"])
                if n[4] == 0:
                    return "if " + c + t + x + i + "else " + y + i + "end"
                if n[4] == 1:
                    return "unless " + c + t + y + i + "else" + i + x + i + "end"
                if n[4] == 2:
                    return "begin" + i + "if " + c + t + x + i + "else" + i + y + " end" + i + "end"
                return "if false" + t + "h" + i + "elsif " + c + t + x + i + "else " + y + " end"
            return 20, s
        raise TypeError(k)

    def dot(self):
        g = self.g
        if self.multi and g.bool(1, 8):
            self.fancy += 1
            return g.choice(["\n  .", ".\n", "\n.", " # c\n  .", "\n  # c\n  ."])
        return g.choice([".", ".", ".", "&.", "."])

    def commas(self, l, trail):
        g = self.g
        s = self.nl()
        for i, t in enumerate(l):
            if i:
                s += "," + (self.nl() or g.choice([" ", " ", ""]))
            s += t
        if l and trail and g.bool(1, 10):
            s += ","
        if l and self.multi and g.bool(1, 12):
            s += "\n"
        if "\\\n" in s and not l:
            return ""
        return s

    def arglist(self, args, kw, par):
        l = [self.pr(x, 4, 0) for x in args] + ["%s: %s" % (k, self.pr(x, 4, 0)) for k, x in kw]
        return "(" + self.commas(l, True) + ")"

    def block(self, b, do=None):
        g = self.g
        if b is None:
            return ""
        old = self.multi
        s = self.pr(b)
        do = (g.bool(1, 4) and not self.nodo) if do is None else do
        self.multi = old
        if do:
            return " do |y|" + g.choice([" ", "\n"]) + s + g.choice([" ", "\n", ";"]) + "end"
        return g.choice([" ", ""]) + "{" + g.choice([" ", "", "\n"]) + "|y|" + g.choice([" ", "\n"]) + s + g.choice([" ", "\n", ";"]) + "}"

    def target(self, t):
        if t[0] == "v":
            return t[1]
        if t[0] == "at":
            return self.pr(t[1], 20, 20, False) + ".at"
        r = self.pr(t[1], 20, 20, False)
        if t[1][0] in ("hm", "post"):
            r = "(" + r + ")"
        return r + "[" + self.commas([self.pr(i, 4, 0) for i in t[2]], False) + "]"

    # ---- evaluation
    def ev(self, n, env):
        k = n[0]
        if k == "var":
            return env[n[1]]
        if k == "hm":
            return EV("h")
        if k == "lit":
            return n[1]
        if k == "bin":
            l = self.ev(n[2], env)
            r = self.ev(n[3], env)
            return binop(n[1], l, r)
        if k == "un":
            x = self.ev(n[2], env)
            if isinstance(x, int):
                return -x if n[1] == "neg" else ~x
            return EV("(" + ("-" if n[1] == "neg" else n[1]) + x.s + ")")
        if k == "and":
            x = self.ev(n[1], env)
            return self.ev(n[2], env) if tr(x) else x
        if k == "or":
            x = self.ev(n[1], env)
            return x if tr(x) else self.ev(n[2], env)
        if k == "tern" or k == "if":
            return self.ev(n[2] if tr(self.ev(n[1], env)) else n[3], env)
        if k == "rng":
            return (n[1], self.ev(n[2], env), self.ev(n[3], env))
        if k == "arr":
            return [self.ev(i, env) for i in n[1]]
        if k == "hash2":
            x = self.ev(n[1], env)
            return {x: self.ev(n[2], env), "k": self.ev(n[3], env)}
        if k == "hash":
            return {kk: self.ev(i, env) for kk, i in n[1]}
        if k == "post":
            return EV(self.ev(n[1], env).s + "." + n[2])
        if k == "idx":
            r = self.ev(n[1], env)
            return EV(r.s + insp([self.ev(i, env) for i in n[2]]))
        if k == "call":
            a = [self.ev(i, env) for i in n[2]]
            kw = {kk: self.ev(i, env) for kk, i in n[3]}
            if n[1] == "f":
                b = self.bl(n[4], env)
                self.log.append(":f")
            else:
                b = self.bl(n[4], env)
            return EV(n[1] + insp(a) + (insp(kw) if kw else "") + b)
        if k == "n":
            r = self.ev(n[1], env)
            a = [self.ev(i, env) for i in n[2]]
            b = self.bl(n[3], env)
            return EV(r.s + ".n" + insp(a) + b)
        if k == "asg":
            t = n[1]
            if t[0] == "v":
                env[t[1]] = v = self.ev(n[2], env)
                return v
            r = self.ev(t[1], env)
            ix = [self.ev(i, env) for i in t[2]] if t[0] == "ix" else []
            v = self.ev(n[2], env)
            self.log.append('[%s, %s, %s]' % (insp(r.s), ":[]=" if ix else ":at=", insp(ix + [v]) if ix else insp(v)))
            return v
        raise TypeError(k)

    def bl(self, b, env):
        if b is None:
            return ""
        old = env.get("y")
        env["y"] = EV("y")
        r = "{" + insp(self.ev(b, env)) + "}"
        env["y"] = old
        return r

    # ---- statements
    def stmt(self, env):
        """-> (source, nontrivial)"""
        g = self.g
        self.nops = self.fancy = 0
        k = g.int(0, 18)
        d = g.int(1, 4)
        if k <= 4:
            n = self.x(d)
            src = "r = " + self.pr(n, 4, 0)
            env["r"] = self.ev(n, env)
        elif k == 5:
            n = self.x(d)
            src = "r = (" + self.nl() + self.pr(n) + ")"
            env["r"] = self.ev(n, env)
        elif k == 6:
            # op-assign
            o = g.choice(OPA)
            n = self.x(d)
            v0 = self.e(1)
            src = "v = " + self.pr(v0, 4, 0) + "\n" + "r = v %s= " % o + self.pr(n, 4, 0)
            env["v"] = self.ev(v0, env)
            if o == "&&":
                env["v"] = self.ev(n, env)
            elif o != "||":
                cur = env["v"]
                env["v"] = binop(o, cur, self.ev(n, env))
            env["r"] = env["v"]
        elif k == 7:
            # and / or with assignments
            n1, n2, n3 = self.x(d - 1), self.x(d - 1), self.x(d - 1)
            o1, o2 = g.choice(["and", "or"]), g.choice(["and", "or"])
            src = "r = " + self.pr(n1, 4, 0) + " " + o1 + (self.nl() or " ") + "v = " + self.pr(n2, 4, 0) + " " + o2 + " w = " + self.pr(n3, 4, 0)
            env["r"] = x = self.ev(n1, env)
            if tr(x) == (o1 == "and"):
                env["v"] = x = self.ev(n2, env)
            if tr(x) == (o2 == "and"):
                env["w"] = self.ev(n3, env)
            self.fancy += 1
        elif k == 8:
            # modifiers
            m = g.choice(["if", "unless"])
            n, c = self.x(d), self.x(d - 1)
            form = g.int(0, 1)
            src = "r = :no\n" + "r = " + self.pr(n, 4, 0) + " " + m + " " + self.pr(c) + (" and " + self.pr(("var", "a")) if form else "")
            env["r"] = Sym("no")
            if tr(self.ev(c, env)) == (m == "if"):
                env["r"] = self.ev(n, env)
            self.fancy += 1
        elif k == 9:
            # rescue modifier
            n, m = self.x(d), self.x(d - 1)
            bad = g.bool()
            o = g.choice(["", "+"])
            src = "v = a\nr = v %s= " % o + (self.op("a", "+", "nil.zork") if bad else self.pr(n, 6, 5)) + " rescue " + self.pr(m, 6, 0)
            env["v"] = cur = env["a"]
            x = None
            if bad:
                x = self.ev(m, env)
            else:
                x = self.ev(n, env)
            env["v"] = env["r"] = binop("+", cur, x) if o else x
            self.fancy += 1
        elif k == 10:
            # command call
            args = [self.x(d - 1) for _ in range(g.int(1, 2))]
            kw = [("k", self.x(1))] if g.bool(1, 4) else []
            b = self.blk(2) if g.bool() and not kw and args[-1][0] in ("var", "lit") else None
            fn = g.choice(["f", "g"])
            self.nodo = True
            l = [self.pr(x, 6, 0) for x in args] + ["%s: %s" % (q, self.pr(x, 6, 0)) for q, x in kw]
            self.nodo = False
            if l[0][0] in "([{-*&/%<:?!~" or l[0].startswith(("if ", "unless ")):
                l[0] = "a.n(" + l[0] + ")"
                args[0] = ("n", ("var", "a"), [args[0]], None)
                if len(args) == 1:
                    b = None
            src = "r = " + fn + " " + ("," + (self.nl() or " ")).join(l)
            src += self.block(b, True) if b is not None else ""
            env["r"] = self.ev(("call", fn, args, kw, b), env)
            self.fancy += 1
        elif k == 11:
            # brace block binds to the nearest call, do block to the command
            b1 = self.blk(2) if g.bool() else None
            b2 = None
            x = self.x(1)
            inner = "g" if b1 is not None and g.bool() else "g(" + self.pr(x, 4, 0) + ")"
            ia = [] if inner == "g" else [x]
            src = "r = f " + inner + (self.block(b1, False) if b1 is not None else "") + (self.block(b2, True) if b2 is not None else "")
            env["r"] = self.ev(("call", "f", [("call", "g", ia, [], b1)], [], b2), env)
            self.fancy += 1
        elif k == 12:
            # statements on one line, in a group; several lines
            ns = [self.x(d - 1) for _ in range(g.int(2, 3))]
            sep = g.choice(["; ", ";", "\n", ";\n", "\n\n", " ;"])
            src = "r = " + g.choice(["(%s)", "begin %s end", "begin;%s;end", "(\n%s\n)"]) % sep.join(self.pr(n) for n in ns)
            for n in ns:
                x = self.ev(n, env)
            env["r"] = x
            self.fancy += 1
        elif k == 13:
            # return / yield / lambda bodies
            n = self.x(d)
            self.asg = False
            n = self.x(d)
            self.asg = True
            form = g.int(0, 3)
            body = self.pr(n, 4, 0)
            if body.startswith(("if ", "unless ")):
                body = "(" + body + ")"
            src = ["r = ->(a, b, c) { %s }.call(a, b, c)", "r = lambda do |a, b, c| %s end.call(a, b, c)", "r = ->a, b, c do\n%s\nend.(a, b, c)", "r = proc { |a, b, c| next %s }.call(a, b, c)"][form] % body
            for t in ("v", "w", "r"):
                pass
            env["r"] = self.ev(n, env)
        elif k == 14:
            # while/until loop conditions and case
            n, c = self.x(d), self.x(d - 1)
            form = g.int(0, 2)
            if form == 0:
                self.nodo = True
                cs = self.pr(c, 6, 0)
                self.nodo = False
                src = "r = :no\nwhile " + cs + g.choice([" do ", "\n"]) + "r = " + self.pr(n, 4, 0) + "; break\nend"
                t = tr(self.ev(c, env))
            elif form == 1:
                self.nodo = True
                cs = self.pr(c, 6, 0)
                self.nodo = False
                src = "r = :no\nuntil " + cs + g.choice([" do\n", ";"]) + "r = " + self.pr(n, 4, 0) + "\nbreak end"
                t = not tr(self.ev(c, env))
            else:
                src = "r = :no\ncase\nwhen " + self.pr(c, 6, 0) + g.choice([" then ", "\n"]) + "r = " + self.pr(n, 4, 0) + "\nend"
                t = tr(self.ev(c, env))
            env["r"] = self.ev(n, env) if t else Sym("no")
            self.fancy += 1
        elif k == 16:
            # chains of modifiers, with and/or in statement and conditions
            n = self.x(d - 1)
            src = "r = :no\nr = " + self.pr(n, 4, 0)
            mods = []
            for _ in range(g.int(1, 3)):
                m = g.choice(["if", "unless", "rescue", "and", "or", "iand"])
                c = self.x(d - 1)
                cs = self.pr(c)
                if m == "iand":
                    c2 = self.x(1)
                    src += " if " + cs + g.choice([" and ", " or "])
                    o = src[-4:].strip()
                    src += self.pr(c2)
                    mods.append(("if" + o, c, c2))
                    continue
                if m in ("and", "or") and mods:
                    continue
                if m == "rescue" and not mods:
                    # belongs to the right hand side
                    cs = self.pr(c, 6, 0)
                src += " " + m + " " + ("v = " if m in ("and", "or") else "") + (self.pr(c, 4, 0) if m in ("and", "or") else cs)
                mods.append((m, c, None))
            env["r"] = Sym("no")

            def run(i):
                if i < 0:
                    env["r"] = self.ev(n, env)
                    return env["r"]
                m, c, c2 = mods[i]
                if m == "rescue":
                    return run(i - 1)
                if m in ("and", "or"):
                    x = run(i - 1)
                    if tr(x) == (m == "and"):
                        env["v"] = x = self.ev(c, env)
                    return x
                x = self.ev(c, env)
                if m == "ifand":
                    x = self.ev(c2, env) if tr(x) else x
                elif m == "ifor":
                    x = x if tr(x) else self.ev(c2, env)
                if tr(x) != (m == "unless"):
                    return run(i - 1)
                return None
            run(len(mods) - 1)
            self.fancy += 1
        elif k == 17:
            # loop modifiers, command calls with receiver, op-assign to attributes and elements
            form = g.int(0, 3)
            n = self.x(d - 1)
            if form == 0:
                src = "i = 0\nr = []\n" + g.choice(["(r << (" + self.pr(n) + "); i += 1) while i < 2", "begin r << (" + self.pr(n) + "); i += 1 end until i == 2", "r << (" + self.pr(n) + ") and i += 1 while i < 2"])
                if " and i" in src and not tr(True):
                    pass
                env["r"] = [self.ev(n, env), self.ev(n, env)]
            elif form == 1:
                self.nodo = True
                s = self.pr(n, 6, 0)
                self.nodo = False
                if s[0] in "([{-*&/%<:?!~" or s.startswith(("if ", "unless ")):
                    s = "a, " + s
                    n = [("var", "a"), n]
                else:
                    n = [n]
                rc = self.atom(1)
                src = "r = " + self.pr(rc, 20, 20, False) + self.dot() + "n " + s
                env["r"] = self.ev(("n", rc, n, None), env)
            elif form == 2:
                o = g.choice(["+", "*", "<<", "||", "&&", "|"])
                rc = self.atom(1)
                src = "r = " + self.pr(rc, 20, 20, False) + ".at %s= " % o + self.pr(n, 4, 0)
                x = self.ev(rc, env)
                cur = EV(x.s + ".at")
                if o == "||":
                    env["r"] = cur
                else:
                    y = self.ev(n, env)
                    env["r"] = y if o == "&&" else binop(o, cur, y)
                    self.log.append('[%s, :at=, %s]' % (insp(x.s), insp(env["r"])))
            else:
                o = g.choice(["+", "*", "<<", "||", "&&", "|"])
                i = self.x(0)
                src = "r = a[" + self.pr(i, 4, 0) + "] %s= " % o + self.pr(n, 4, 0)
                iv = self.ev(i, env)
                cur = EV("a[" + insp(iv) + "]")
                if o == "||":
                    env["r"] = cur
                else:
                    y = self.ev(n, env)
                    env["r"] = y if o == "&&" else binop(o, cur, y)
                    self.log.append('["a", :[]=, %s]' % insp([iv, env["r"]]))
            self.fancy += 1
        elif k == 18:
            # defined?, interpolation, nested definitions
            form = g.int(0, 2)
            n = self.x(d - 1)
            if form == 0:
                src = "r = \"<#{" + self.pr(n) + "}>#{" + self.pr(("var", "b")) + "}\""
                v = self.ev(n, env)
                env["r"] = "<" + tos(v) + ">b"
            elif form == 1:
                src = "r = (defined?(" + g.choice(["a", "a + b", "zork", "@zork"]) + ")" + self.nl() + ")"
                w = src.split("defined?(")[1].split(")")[0]
                env["r"] = {"a": "local-variable", "a + b": "method", "zork": None, "@zork": None}[w]
            else:
                m = self.x(1)
                src = "def q(a, b" + g.choice(["", " "]) + "=" + g.choice(["", " "]) + "E.new(\"b\"))\n  c = E.new('c'); v = w = nil\n" + "  return " + "[" + self.pr(("arr", [n]), 4, 0) + "]" + " if " + "a\nend\nr = q(a) && q a"
                old = dict(env)
                n0 = n
                env["v"] = env["w"] = None
                env["r"] = [[self.ev(n, env)]]
                env["v"] = env["w"] = None
                env["r"] = [[self.ev(n, env)]]
                env["v"], env["w"] = old["v"], old["w"]
            self.fancy += 1
        else:
            n1, n2 = self.x(d - 1), self.x(d - 1)
            src = "r, v = " + self.pr(n1, 6, 0) + "," + (self.nl() or " ") + self.pr(n2, 6, 0)
            x = self.ev(n1, env)
            y = self.ev(n2, env)
            env["r"], env["v"] = x, y
        return src, self.nops >= 3 or self.fancy > 0


def binop(o, l, r):
    if isinstance(l, EV):
        return EV("(" + l.s + o + insp(r) + ")")
    if o == "+":
        return l + r
    if o == "-":
        return l - r
    if o == "*":
        return l * r
    if o == "/":
        return l // r
    if o == "%":
        return l % r
    if o == "**":
        return l ** r
    if o == "<<":
        return l << r
    if o == ">>":
        return l >> r
    if o == "&":
        return l & r
    if o == "|":
        return l | r
    return l ^ r


def build(g):
    G_ = Gen(g)
    G_.log = []
    env = dict(a=EV("a"), b=EV("b"), c=EV("c"), v=None, w=None, r=None)
    env["$v"] = env["@i"] = None
    wrap = g.choice([None, None, None, "def", "block"])
    out, exp, units = [], [], []

    def one():
        s, nt = G_.stmt(env)
        G_.g.choice([0])
        out.append(s + g.choice(["\n", "\n", " # ;end\n", ";\n", "\n\n"]) + "p r, v, w, $v, @i, $l; $l = []")
        exp.extend(insp(env[x]) for x in ("r", "v", "w", "$v", "@i"))
        exp.append("[" + ", ".join(G_.log) + "]")
        G_.log = []
        units.append((s, nt))
    g.rep(1, 7, one)
    body = "\n".join(out)
    src = PRE + "\n" + body
    if wrap == "block":
        src = PRE + "\nr = nil\n[0].each do |zz|\n" + body + "\nend"
    elif wrap == "def":
        src = PRE.rsplit("\n", 1)[0] + "\ndef main\n" + PRE.rsplit("\n", 1)[1] + "\n" + body + "\nend\nmain"
    return Case(src + "\n", exp, units=units)


def strategy():
    return from_g(build)
