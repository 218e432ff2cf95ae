"""C23: calls of builtin methods return or raise; they never break the interpreter."""
import re
from driver import Case, compare
from gen import from_g

ID = "C23"
EXAMPLES = dict(quick=4000, thorough=40000)
VARIANTS = ["std", "stress"]
PARTS = ["typed", "typed", "typed", "any", "any", "stress", "stress", "mut"]
RULE = ("One evaluation = one call of a builtin method with a random receiver of 40 kinds, 0-4 arguments of any kind (including huge, negative, non-finite, binary, self-referential and mutated ones) and possibly a block, by name, send or a Method object: "
        "it must give a value that can be inspected or an exception that can be rescued, and a fixed program run before and after must give the same result; under gc-stress the outcomes must be those of the plain build. "
        "Non-trivial: the call is of a method of the receiver's class, or has a block or at least two arguments.")
ASSUMPTIONS = ["calls that end the process, sleep, read or write files or run commands are not generated",
               "calls that need more than 3 GB of memory or 10 s of CPU time because of the size of an argument are not decided",
               "classes of the language itself are not modified (no definers are called on them)"]

T = {
    "Array": ("[:a] [1,2,3] [] [3,1,2] [nil,false] [[1,2],[3,4]] [[1,2],[3]] ['b','a'] [1,'a'] [2.5,1] $rec $sa [[1,[2,[]]],3] [0.0/0.0,1] (1..9).to_a Array.new(40,7) $grow",
              "* + - << <=> [] []= all? any? at bsearch bsearch_index clear clone collect collect! compact compact! concat count delete detect drop dup each each_index each_with_index empty? fill filter find find_index first flat_map flatten flatten! grep include? index inject inspect join last length map map! max min pack partition pop push reduce reject reverse reverse! rotate! select shift size slice! sort sort_by to_a to_s transpose uniq uniq! unshift zip == =~"),
    "String": ("'' 'a' 'abc' 'é€𝄞x' ('ab'*20) '1' '-12abc' '%d%s' 'C*' \"a b\\nc\\n\" [255,200].pack('C*') $ss 'Hello World' 'zz' '%5.2f' '99' 'a-c' '^a'",
               "% * + < << <= <=> =~ > >= [] []= bytes center chars chomp chomp! codepoints concat count downcase dump each_byte each_char empty? end_with? gsub gsub! include? inspect intern length lines ljust lstrip match next ord replace rjust rstrip scan size slice! split start_with? strip sub succ sum to_i to_s to_sym tr upcase =="),
    "Hash": ("{} {a:1} {1=>2,'k'=>[3]} $rech $sh {nil=>nil,1.5=>2,[1]=>{a:1}} $ih {a:1,b:2,c:3}",
             "[] []= clear clone compact compare_by_identity default delete dup each each_key each_pair each_value empty? fetch filter find_all has_key? has_value? include? inspect invert key? keys length member? merge reject select size sort to_s values =="),
    "Integer": ("0 1 -1 2 7 -8 255 256 65 4611686018427387903 4611686018427387904 -4611686018427387904 9223372036854775807 9223372036854775808 (-2**63) (2**70) (-2**70)",
                "!= % & ** +@ -@ << <=> == === >> [] ^ abs bit_length chr digits div downto even? fdiv floor gcd gcdlcm lcm next odd? ord pow pred size step succ times to_f to_i to_int upto | ~ + - * / < > <= >="),
    "Float": ("0.0 -0.0 1.5 -2.5 1e300 1e18 -1e19 (0.0/0.0) (1.0/0.0) (-1.0/0.0) 5e-324",
              "% ** +@ -@ <=> abs div floor infinite? magnitude mod nan? to_i + - * / < > <= >= =="),
    "Complex": ("$cx Complex(0,0) Complex(1.5,-2) Complex(2**70,1)", "!= * + - / == abs abs2 rect"),
    "Range": ("(1..3) (1...3) (3..1) ('a'..'c') (1.5..3) (nil..1) (-3..3) (2**64..2**64+3)", "=== all? begin each end exclude_end? first flat_map include? inspect last map to_a to_s"),
    "Symbol": (":a :+ :[]= :'' :push :@x :to_s", "<=> == id2name inspect intern to_proc to_s to_sym"),
    "Regexp": ("/a/ /(b)|c/ // /^(?<y>.)/", "=== =~"),
    "Proc": ("$pr $la :to_s.to_proc $me2", "=== [] call inspect to_s"),
    "Method": ("$me $um [1].method(:size) $k.instance_method(:foo)", "[] call owner unbind bind bind_call clone name"),
    "Module": ("$k $m $sub $S $s Object String Integer Array Class Module Kernel Comparable Math", "<=> === ancestors class_variables const_defined? const_get constants include? included_modules inspect instance_method instance_methods method_defined? name singleton_class? to_s allocate new superclass"),
    "Exception": ("$e $e2 Exception.new('x') StopIteration.new", "backtrace backtrace= initialize inspect message message= to_s"),
    "Iter": ("$fi $en [1,2].to_enum(:map) 3.times [3,1].map", "inspect resume collect each map next with_index size"),
    "Struct": ("$s $s2 $S", "x y x= y= to_s inspect == [] each members new"),
    "Time": ("$t", "+ - day gmtime inspect mday mon month to_s utc year <=>"),
    "Binding": ("$b", "eval local_variable_defined? local_variables receiver"),
    "Math": ("Math", "sqrt cos sin"),
    "Nil": ("nil true false", "& =~ ^ nil? to_a to_c to_f to_h to_i to_s | inspect !"),
    "Object": ("$o $ao $mm Object.new $m2 $cmp", "a a= foo x <=> < >= quux ! != !~ <=> == === =~ class clone dup enum_for eql? equal? extend freeze frozen? initialize inspect instance_of? instance_variable_get instance_variable_set instance_variables method methods nil? respond_to? singleton_class singleton_methods to_enum to_s instance_exec is_a? kind_of? method_missing"),
    "Kernel": ("self", "Array Complex Integer binding block_given? lambda loop proc raise rand"),
}
T = {k: (v[0].replace("a b", "a\x00b").replace("Hello World", "Hello\x00World").split(), v[1].split()) for k, v in T.items()}
T = {k: ([x.replace("\x00", " ") for x in v], m) for k, (v, m) in T.items()}
ALLV = [x for v, _ in T.values() for x in v if x not in ("Object", "String", "Integer", "Array", "Class", "Module", "Kernel", "Comparable", "self")]
ARGV = ALLV + ["Integer", "String", "Object", "Comparable", "'@x'", "'@@y'", "'K'", ":@@y", ":K", "4294967296", "-256", "[[1,2],[3,4]]", "Class.new", "Module.new"]
ALLM = sorted({m for _, ms in T.values() for m in ms} | set("send __send__ attr_accessor attr_reader alias_method extend define_method".split()))
DEFINERS = {"attr_accessor", "attr_reader", "alias_method", "define_method", "undef_method", "include", "prepend"}
SMALL = ["4", "-2", "-7", "100", "2.0", "'é'", "[]", "(1...3)", "0", "1", "2", "3", "-1", "5", "10", "nil", "'a'", "'b'", "''", ":a", "1.5", "(0..1)", "(1..-1)", "[1]", "[2,3]", "{a:1}", "/b/"]
# methods whose cost grows with the value of an argument
SIZED = {"*", "<<", "**", "ljust", "rjust", "center", "new", "fill", "pow", "pack", "%", "[]=", "drop", "digits"}
HUGE = re.compile(r"\d{9,}|\*\*|e\d\d|'(ab|%|9)")

PRE = '''$rec = [1]; $rec << $rec
$rech = {}; $rech[:r] = $rech
$ih = {1=>2}; $ih.compare_by_identity
$S = Struct.new(:x, :y); $s = $S.new(1, 2); $s2 = $S.new(nil); $s2.x = $s2
class Kl; attr_accessor :a; def initialize(*a); @x = 1; @a = a; end; def <=>(o); 0; end; def foo(a, b = 2, *c, k: 3); 1; end; def self.bar; end; include Comparable; @@y = 3; K = 1; end
class Cm; include Comparable; def <=>(o); $grow.pop; nil; end; def ==(o); $grow << 1 if $grow.size < 50; false; end; def to_s; 7; end; end
module Mo; def mo; 1; end; end
class SA < Array; end
class SH < Hash; end
class SS < String; end
class Mm; def method_missing(*a); 5; end; end
$o = Kl.new; $k = Kl; $m = Mo; $e = RuntimeError.new("boom"); $e2 = begin; 1/0; rescue => e; e; end
$pr = proc { |a, *b| a }; $la = lambda { |a| a }; $fi = Fiber.new { Fiber.yield 1; 2 }; $en = [1,2].each; $me = [1].method(:push); $um = Array.instance_method(:push)
$me2 = proc { |*a, k: 1, &b| a }
$cx = Complex(1,2); $b = binding; $ao = Object.new; def $ao.x; 1; end
$sub = Class.new(Array); $sa = SA.new; $sh = SH.new; $ss = SS.new("abc"); $mm = Mm.new
$m2 = Object.new; $m2.extend(Mo); $cmp = Cm.new; $grow = [1, $cmp, 2]
$t = Time.gm(2000, 1, 2)
def sane
  h = {}
  [3, 1, 2].sort.each_with_index { |x, i| h[x] = "k#{i}".upcase }
  s = (1..4).map { |x| x * x }.inject(0) { |a, b| a + b }
  e = begin; Integer("q"); rescue ArgumentError => e; e.class; end
  f = Fiber.new { |x| y = Fiber.yield(x + 1); y * 2 }
  r = [h, s, e, f.resume(1), f.resume(5), 2**66, "aXbX".gsub("X") { |m| m.downcase }, [1.5, nil, :a, 1..2].inspect, [[1, 2], [3]].flatten]
  r << [1, 2, 3].each.next << lambda { |a, b = 2, *c, k: 4, **o| [a, b, c, k, o] }.call(1, k: 5, z: 6) << $zz << defined?(foo)
  $S.new(1, 2).x.to_s + r.inspect
end
def t
  $c = 0
  begin
    v = yield
    puts "v " + v.inspect
  rescue Exception => e
    puts "e " + e.class.inspect + " " + e.message.to_s
  end
end
$sane = sane
'''
IDENT = re.compile(r"^[A-Za-z_]\w*[?!]?$")


MUTS = ["pop", "shift", "clear", "push(1)", "<< 'zz'", "unshift(1, 2)", "compact!", "concat([1])", "concat('é')", "delete(1)", "[7] = 1", "[0] = nil", "[:q] = 1", "[1, 1] = []", "reverse!", "fill(0)", "uniq!", "[0] = $v", "[:a] = $v",
        "sort", "each { |q| $v.clear }", "map! { 1 }", "chomp!", "replace('q')", "gsub!(/./) { $v.size < 200 ? 'wide' : 'x' }", "slice!(0, 2)", "next", "resume(1)", "rotate!(1)", "sort_by { |q| $v.push(q) if $v.size < 200; 1 }", "flatten!", "instance_variable_set('@z', 1)", "compare_by_identity", "delete(:a)", "x = $v", "to_s"]


def block(g, recv=None):
    v = g.choice(ARGV)
    if g.bool(1, 3):
        v = g.choice(SMALL)
    k = g.int(0, 9)
    lim = "$c += 1; break :b if $c > 20; "
    if recv == "$v" and g.bool(1, 2):
        m = g.choice(MUTS)
        x = "$v %s" % m if m.startswith("<<") else "$v" + m if m.startswith("[") else "$v." + m
        # the type of the receiver decides whether there is such a method
        return "{ |a| %s(%s) rescue 1; %s }" % (lim, x, g.choice(["a", "1", "true", "nil", "'a'", "$c", "[a, 1]"])) if "=" not in x else "{ |a| %sbegin; %s; rescue; end; a }" % (lim, x)
    lim = "$c += 1; break :b if $c > 20; "
    if k <= 2:
        return "{ |a| %sa }" % lim
    if k == 3:
        return "{ |a, b| %sb }" % lim
    if k == 4:
        return "{ |*a| %s%s }" % (lim, v)
    if k == 5:
        return "{ |a| %s%s }" % (lim, v)
    if k == 6:
        return g.choice(["{ break 7 }", "{ raise 'x' }", "{ $c += 1; break if $c > 20; next }", "{ |a| %s$c }" % lim])
    if k == 7:
        return "{ |a, b| %sa <=> b }" % lim
    if k == 8:
        return "{ |a| %sa == 2 }" % lim
    return "{ |a, b, *d| %s[a, b, d] }" % lim


def call(g, part, recv=None, ms=None):
    """(source, non-trivial, key)"""
    if recv is None:
        kind = g.choice(sorted(T))
        vs, ms = T[kind]
        recv = g.choice(vs)
    if part == "any" or g.bool(1, 12):
        m = g.choice(ALLM)
        own = False
        if recv == "self" and m in ("begin", "end", "class", "loop", "next", "define_method"):
            m = "inspect"
    else:
        m = g.choice(ms)
        own = True
    if m in DEFINERS and recv not in ("$k", "$sub", "$m", "Class.new", "Module.new"):
        m = "inspect"
    if recv == "self" and m in ("loop", "raise", "extend"):
        own = True
    n = g.weighted([(4, 0), (6, 1), (3, 2), (1, 3), (1, 4)])
    args = []
    for _ in range(n):
        a = g.choice(SMALL) if g.bool(3, 5) else g.choice(ARGV)
        if m in SIZED and HUGE.search(a):
            a = "3"
        args.append(a)
    if m in SIZED and HUGE.search(recv) and m != "%":
        recv = "3"
    sized_kw = False
    if g.bool(1, 20):
        args.append("*" + g.choice(["[1,2]", "[]", "nil", "5", "$rec", "(1..3)", "{a: 1}"]))
    if g.bool(1, 20):
        args.append("k: " + g.choice(SMALL))
        sized_kw = True
    blk = ""
    if m == "loop" or g.bool(2, 5):
        blk = " " + block(g, recv)
        if m != "loop" and g.bool(1, 6):
            blk = ""
            args.append("&" + g.choice(["$pr", "$la", ":to_s", "nil", "$me", "5", ":size", "$me2"]))
    if m == "upto" or m == "downto" or m == "step" or m == "times" or m == "each" or m == "with_index" or m == "map" or m == "collect":
        # unbounded iteration needs a block that stops
        if args and args[-1].startswith("&") and (HUGE.search(recv) or any(HUGE.search(a) for a in args)):
            args.pop()
    a = ", ".join(args)
    form = g.int(0, 3)
    r = "(%s)" % recv if recv.startswith(("-", "{")) else recv
    ms_ = ":" + m if re.match(r"^[A-Za-z_]\w*[?!]?$|^[+\-*/%<>=!~&|^\[\]@]+$", m) else '"%s"' % m
    if form <= 1 and IDENT.match(m):
        s = "%s.%s(%s)%s" % (r, m, a, blk) if recv != "self" else "%s(%s)%s" % (m, a, blk) if a else "%s%s" % (m, blk)
        if recv == "self" and m in ("Array", "Integer", "Complex") and not a:
            s = "%s()%s" % (m, blk)
    elif form == 2 and recv != "self":
        s = "%s.method(%s).call(%s)%s" % (r, ms_, a, blk)
    else:
        s = "%s.__send__(%s)%s" % (r, ", ".join([ms_] + args), blk)
    return s, own or bool(blk) or n >= 2, (recv, m, len(args), bool(blk))


def program(g, part):
    lines = []
    units = []
    if part == "mut":
        # one receiver, a history of calls
        kind = g.choice(["Array", "String", "Hash", "Array", "String", "Iter", "Struct", "Object", "Exception"])
        vs, ms = T[kind]
        lines.append("$v = " + g.choice(vs))
        for i in range(g.int(4, 14)):
            s, nt, key = call(g, "typed", "$v", ms)
            lines.append("t { %s }" % s)
            units.append(((kind,) + key[1:] + (i,), nt))
    else:
        for _ in range(g.int(1, 8)):
            s, nt, key = call(g, "typed" if part == "stress" and g.bool(3, 4) else part)
            lines.append("t { %s }" % s)
            units.append((key, nt))
    lines.append("puts(sane == $sane)")
    n = len(units)
    return Case(PRE + "\n".join(lines) + "\n", str(n), units, ["part:" + part], variant="stress" if part in ("stress", "mut") else "std", extra=None)


def strategy(part):
    return from_g(lambda g: program(g, part))


ADDR = re.compile(r"0x[0-9a-f]+")
STARTS = ("v ", "e ")


def outcome(res, n):
    """None or a message"""
    if res.status == "t":
        return "no result within the time limit: " + res.detail[:200]
    if res.status in "ps":
        if "memory allocation" in res.detail:
            return "inconclusive"
        return "interpreter %s: %s" % ("panic" if res.status == "p" else "crash", res.detail[:400])
    if res.status != "o":
        return "exception that was not rescued: " + res.detail[:400]
    if not res.out.endswith("true\n"):
        return "the interpreter does not work properly after the calls: " + res.out[-400:]
    return None


def check(case, ctx):
    n = int(case.expected)
    res = ctx.runner("std").run(case.src, case.cpu)
    msg = outcome(res, n)
    if msg is not None or case.variant == "std":
        return msg
    res2 = ctx.runner("stress").run(case.src, case.cpu * 3)
    if res2.status == "t":
        return "inconclusive"
    msg = outcome(res2, n)
    if msg is not None:
        return msg if msg == "inconclusive" else "under gc-stress: " + msg
    a, b = ADDR.sub("0x", res.out), ADDR.sub("0x", res2.out)
    if a != b and "rand" not in case.src and "methods" not in case.src and "constants" not in case.src:
        for x, y in zip(a.split("\n"), b.split("\n")):
            if x != y:
                return "the outcome depends on garbage collection: %r, but %r under gc-stress" % (x[:300], y[:300])
    return None
