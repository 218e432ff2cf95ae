# One entry per property.  ext: note is the level_note, technique the deciding method.
STD_NOTE = ("Sampled: a pass means no disagreement in the programs generated with this seed (counts in the evidence). Trusts the Python reference, "
            "Hypothesis' generators and the fork-server harness; syntax/builtins ruruby does not implement are not generated. ")

prop("C01", "Integer arithmetic is exact at every magnitude",
     "Every Integer operation (operators and methods: + - * / % ** unary minus, shifts, bit operations and bit reference, comparisons, div/fdiv/divmod-like queries, "
     "digits, to_s, gcd-like and predicate methods, literals in every base) gives the mathematically exact Ruby result, or the documented exception, "
     "whatever the size of its operands and whether they are small or arbitrary-precision. The result of an expression does not depend on whether intermediate "
     "values crossed the small/big boundary, nor on whether the operator, its opt-assign form or an explicit method call was written.",
     ["inputs"], "all pairs of integers (dense at 0, +-1, the 63/64-bit and 2**62 boundaries, powers of two +-1, up to hundreds of bits) x every operator/method x literal/variable/receiver position",
     "Tests use a handful of small constants; overflow, sign and normalisation errors occur only at particular magnitudes and sign combinations.",
     ["ruruby/src/arith.rs", "ruruby/src/builtin/integer.rs", "ruruby/src/vm/executor/ops.rs", "ruruby/src/value.rs", "ruruby-parse/src/lexer.rs"],
     [("fixnum overflow promotes to BigInt, BigInt results are normalised", "ruruby/src/arith.rs, Value::bignum"), ("operator fast paths with method fallback", "ruruby/src/vm/executor/ops.rs")],
     STD_NOTE + "Oracle: Python integers.", "property-based testing: generated expressions vs Python big integers")

prop("C02", "Float arithmetic and mixed numeric operations follow IEEE-754 double semantics",
     "Float arithmetic, comparison, rounding to Integer and printing, including mixed Integer/Float operands, negative zero, infinities and NaN, produce the correctly "
     "rounded double result; a float literal or printed float denotes the nearest double, and printing then re-reading a finite Float gives the same value.",
     ["inputs"], "all pairs of doubles (random bit patterns, boundary values, small decimals, integers of any size mixed in) x every operator/method",
     "Tests check a few decimal constants; representation (the packed 62-bit float form against heap floats), rounding and special values depend on bit patterns.",
     ["ruruby/src/arith.rs", "ruruby/src/builtin/float.rs", "ruruby/src/value.rs", "ruruby/src/vm/executor/ops.rs"],
     [("packed float encoding with heap fallback", "ruruby/src/value.rs"), ("numeric tower dispatch", "ruruby/src/arith.rs")],
     STD_NOTE + "Oracle: Python floats (same IEEE hardware); mixed comparison follows the tests in the repository (the Integer is converted).",
     "property-based testing: generated expressions vs Python floats")

prop("C06", "Non-local exits and cleanup run exactly as nested control flow says",
     "In any nesting of methods, blocks, lambdas, procs, loops, iterators, conditionals and begin/rescue/else/ensure, an exit (break, next, return, raise) "
     "goes to the construct it names with its value, abandons exactly the code in between, and runs every ensure clause it leaves once, innermost first. "
     "The values of all enclosing, partially evaluated expressions are unaffected by exits that happen inside them.",
     ["programs"], "all programs of a grammar of nested control constructs (depth <= 6, several methods forwarding/yielding blocks), every exit kind with and without value and condition",
     "Each test exercises one construct in isolation; the interaction of exits, saved operands and handlers is combinatorial.",
     ["ruruby/src/codegen.rs", "ruruby/src/vm/executor.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/vm/executor/frame.rs", "ruruby/src/vm/executor/method.rs", "ruruby/src/codegen/defined.rs", "ruruby-common/src/code_context.rs"],
     [("exception table with per-entry stack depth", "ruruby-common/src/code_context.rs, run_loop in vm/executor.rs"), ("escape code generation (ensure clauses inlined before jumps)", "ruruby/src/codegen.rs"),
      ("break/return as unwinding errors with a destination frame", "vm/executor.rs")],
     STD_NOTE + "Oracle: a reference interpreter of the generated subset written in Python.", "property-based testing: generated programs vs reference interpreter (trace equality)")

prop("C13", "Array operations agree with the sequence model over any history",
     "Over every history of Array operations on aliased and nested arrays - element and slice access/assignment with any index, length or range, push/pop/shift/unshift, concat, + - *, "
     "join, comparison, search, reverse/rotate/compact/transpose/flatten/uniq/zip/sort/min/max, fill, delete, Array.new/splat, and the block iterators - each operation returns "
     "Ruby's result, mutates exactly the receiver (all aliases see it, copies do not), and raises instead of corrupting state on invalid arguments; "
     "iterators see the live array when their block modifies it, and break stops them.",
     ["histories", "inputs"], "all operation histories (<= ~12 steps) over three aliased/nested array variables holding integers, floats, strings, symbols, nil, ranges and each other, with out-of-range, negative, empty and overlapping arguments",
     "A test applies one operation to one literal; index arithmetic, aliasing and mutation during iteration depend on lengths and history.",
     ["ruruby/src/builtin/array.rs", "ruruby/src/value/array.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/builtin/comparable.rs", "ruruby/src/vm/executor.rs"],
     [("index/slice arithmetic", "ruruby/src/value/array.rs"), ("iterators calling blocks", "ruruby/src/builtin/array.rs, vm/executor.rs eval_block_map1"), ("sorting", "vm/executor/opt_core.rs merge_sort")],
     STD_NOTE + "Oracle: a reference model of Ruby arrays in Python.", "stateful model-based testing: generated operation histories vs a Python list model")

prop("C14", "Hash is an insertion-ordered map keyed by eql?, over any history",
     "Over every history of Hash operations on aliased hashes with keys of any supported kind (Integers of any size, Floats, Strings, Symbols, nil/true/false, Ranges, Arrays, nested Hashes): "
     "a key finds exactly the entry whose key is eql? to it (or identical, after compare_by_identity), however either was computed; re-assignment keeps position, deletion keeps the order of the rest, "
     "new keys go last; literals, lookup, fetch, merge, select/reject, compact, invert, each*, keys/values, ==, dup, op-assign return Ruby's result and change only the receiver; "
     "deleting or updating entries while iterating is safe.",
     ["histories", "inputs"], "all operation histories (<= ~16 steps) over three aliased hashes with key pools rich in ==-but-not-eql? and equal-but-distinct keys",
     "Tests use small literal hashes with simple keys; hashing/equality agreement, ordering after deletion and aliasing depend on key representation and history.",
     ["ruruby/src/value/hash.rs", "ruruby/src/builtin/hash.rs", "ruruby/src/value/rvalue.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/vm/executor.rs"],
     [("HashKey equality and hashing", "ruruby/src/value/hash.rs, RValue::eql"), ("identity maps", "ruruby/src/value/hash.rs IdentKey"), ("iteration over a snapshot of keys", "HashInfo::live_iter")],
     STD_NOTE + "Oracle: an insertion-ordered map model in Python. User-defined hash/eql? methods are not supported by ruruby and not generated.", "stateful model-based testing: generated operation histories vs an ordered-map model")

prop("C15", "String is a mutable sequence of characters, however stored or shared",
     "Over every history of String operations on aliased strings - append, replace, index/slice access and assignment, slice!, sub/gsub, split, tr/count, scan, comparison, case/strip/chomp/padding, "
     "to_i, succ, conversions to bytes/chars/codepoints/symbols and back, use as hash keys - each gives Ruby's result in characters (not bytes), mutates exactly the receiver (every alias sees it, copies do not), "
     "and equality, hashing and ordering depend on the content only, never on how or where (inline or heap) the string is stored.",
     ["histories", "inputs"], "all operation histories (<= ~16 steps) over three aliased strings with ASCII, 2-, 3- and 4-byte characters and lengths dense around the 31-byte inline capacity",
     "Tests apply single methods to short ASCII literals; representation changes, multibyte indexes and aliasing need particular lengths and histories.",
     ["ruruby/src/value/string.rs", "ruruby/src/builtin/string.rs", "ruruby/src/value/rvalue.rs", "ruruby/src/vm/executor/ops.rs"],
     [("inline/heap representation", "ruruby/src/value/string.rs"), ("character index arithmetic", "ruruby/src/builtin/string.rs")],
     STD_NOTE + "Oracle: Python str held in a mutable cell; chomp without argument follows the tests in the repository.", "stateful model-based testing: generated operation histories vs a code-point model")

prop("C20", "Regexp matching and the operations built on it agree with the pattern",
     "For every pattern of the supported syntax and every subject: =~, !~, ===, match, case/when, grep, String#[] and slice! find the leftmost match (position in characters) and report its groups; $&, $1.., $' describe the last match "
     "and are nil after an unsuccessful one; scan, sub, gsub (replacement text with back references, or block), gsub! and split visit exactly the successive non-overlapping matches, including empty ones, and terminate; "
     "flags, interpolated sub-patterns, Regexp.new and Regexp.escape keep the meaning of the text they are given.",
     ["inputs"], "patterns from a grammar (classes, groups, alternation, greedy/lazy quantifiers, anchors, lookaround, back references; flags i, m) x subjects over a small alphabet with newlines and multibyte characters",
     "Tests use a few fixed patterns; empty matches, unmatched groups, multibyte offsets and stale match variables depend on the pattern and the subject.",
     ["ruruby/src/builtin/regexp.rs", "ruruby/src/builtin/string.rs", "ruruby/src/vm/executor.rs", "ruruby/src/vm/executor/ops.rs", "ruruby/src/codegen.rs"],
     [("match iteration", "ruruby/src/builtin/regexp.rs find_next/replace_repeat, string.rs split_by_regexp"), ("match variables", "vm/executor.rs get_captures")],
     STD_NOTE + "Oracle: Python's re driven by Ruby's iteration rules. Combinations mishandled by the fancy_regex/regex crates themselves are not generated.",
     "property-based testing: generated patterns and subjects vs Python re")

prop("C10", "A call runs the method found first in the receiver's ancestors, as of now",
     "At every point of every history of class/module definition and change - def and redefinition, singleton methods, reopening (also builtin classes), include/prepend/extend in any order, subclassing, alias, attr accessors, "
     "module_function, Class.new, class_eval, dup - a call, send or method object runs the method that comes first in the receiver's ancestor order at that moment, super continues with the next one after the running method's owner "
     "(with the arguments and block it is given or inherits), and a name found nowhere goes to method_missing. What earlier executions of the same call site resolved to never matters; respond_to?, is_a?/===, ancestors, "
     "method_defined?, instance_methods, superclass and included_modules report the same hierarchy.",
     ["histories"], "all histories (3-14 changes) over <= 5 classes, <= 4 modules, <= 5 objects, builtin receivers and 4 method names, with every call site re-executed after every change",
     "Tests define a hierarchy once and call it; cache staleness, chain splicing and super/alias ownership errors need calls interleaved with later changes in a particular order.",
     ["ruruby/src/value/class.rs", "ruruby/src/globals/method.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/vm/executor/method.rs", "ruruby/src/builtin/module.rs", "ruruby/src/builtin/object.rs", "ruruby/src/builtin/class.rs"],
     [("inline and global method caches invalidated by the class version", "ruruby/src/globals/method.rs"), ("included/prepended class chain", "ruruby/src/value/class.rs append_include/append_prepend"),
      ("super lookup", "ruruby/src/value/class.rs search_super_method, opt_core.rs vm_super")],
     STD_NOTE + "Oracle: explicit ancestor-chain model in Python. Not generated: visibility, repeated modules in one chain and super from an alias of a replaced method (known findings), modules extended after being included.",
     "stateful model-based testing: generated definition/call histories vs an ancestor-chain model")

prop("C12", "Garbage collection is transparent and reclaims what became unreachable",
     "Whether, when and how often a collection runs never changes what a program computes: every object reachable from a variable, constant, container, closure or binding environment (including its self and block), "
     "method object, suspended fiber or external enumerator, pending exception, match data, or a partially evaluated expression or builtin call keeps its identity and contents. "
     "Conversely, objects that became unreachable are reclaimed by GC.start (the number of live slots returns to its former level).",
     ["histories", "schedules"], "all programs of the other properties' generators plus a GC-specific grammar (32 kinds of holders, 70 kinds of expressions with temporaries, object graphs of thousands of nodes), with a collection at every safepoint, or real threshold-triggered ones",
     "The tests allocate too little to trigger collections at interesting points; a missed root shows only when a collection falls between two particular instructions.",
     ["ruruby/src/alloc.rs", "ruruby/src/vm/executor.rs", "ruruby/src/vm/executor/frame.rs", "ruruby/src/vm/executor/frame/heap.rs", "ruruby/src/value/rvalue.rs", "ruruby/src/coroutine.rs", "ruruby/src/globals.rs", "ruruby/src/builtin/enumerator.rs"],
     [("mark phase and lazy sweep", "ruruby/src/alloc.rs"), ("roots: VM stack, temp stack, environments, globals", "vm/executor.rs GC for VM, frame.rs, globals.rs"), ("suspended coroutines", "ruruby/src/coroutine.rs")],
     STD_NOTE + "Oracle: a Python model of the values stored; safepoints are the ones the interpreter uses (feature gc-stress of the repository).",
     "property-based testing: generated holders/temporaries with a collection at every safepoint vs a value model; live-slot accounting")

prop("C08", "Arguments are bound to parameters by Ruby's rules, however the call is made",
     "For every parameter list (required, optional with default expressions, rest, trailing required, required and optional keywords, keyword rest, block) and every argument list (positional, splats of arrays/ranges/hashes/nil, "
     "keywords, double splats, block literal/proc/lambda/symbol/nil), each parameter receives exactly the argument Ruby's binding assigns to it: arguments and then the defaults actually needed are evaluated once, in order, "
     "defaults see the parameters before them; methods and lambdas raise ArgumentError for a wrong number of arguments, unknown or missing keywords and do not expand arrays, procs and blocks pad, truncate and expand; splatted "
     "containers are copied. This holds for every way of calling: direct, safe navigation, send, method objects, new, method_missing, [], super (explicit and implicit), `...` delegation, yield, call and builtin iterators.",
     ["inputs"], "all parameter lists of <= 2+2+rest+2 positional and 2 keyword parameters with keyword rest and block x call forms x argument lists of up to two more arguments than accepted",
     "Tests call a few signatures with matching arguments; slot computation errors depend on which optional parts are present and on how many arguments are missing or extra.",
     ["ruruby/src/vm/executor/frame/arg_handler.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/vm/executor.rs", "ruruby/src/codegen/send.rs", "ruruby/src/codegen.rs", "ruruby/src/globals/method.rs", "ruruby-parse/src/parser.rs"],
     [("slot filling and arity checks", "vm/executor/frame/arg_handler.rs"), ("argument instructions SEND/SUPER/YIELD/SPLAT", "vm/executor/opt_core.rs"), ("splat expansion on the stack", "vm/executor.rs pop_args_to_args"),
      ("argument compilation", "codegen/send.rs gen_arglist")],
     STD_NOTE + "Oracle: binding model in Python. Known findings: keywords given to builtin methods, implicit super with an anonymous rest parameter. Nested parameter patterns are not supported by ruruby and not generated.",
     "property-based testing: generated signatures x calls vs an argument-binding model")

prop("C07", "Closures, bindings and scopes share variables, not copies",
     "A block, proc, lambda, method body, binding or eval refers to the variable that is lexically visible where it is written (or, for eval, at that point of that binding): writes through any of them are seen through all "
     "others as long as any is alive, whether the defining frame is still active or has returned; every invocation of a method or block has fresh variables and parameters; parameters, block locals and method bodies "
     "shadow or hide outer variables as Ruby specifies; self and instance variables are those of the closure's definition, or of the receiver under instance_exec.",
     ["histories"], "programs of up to 34 statements with nested closures to depth 4, stored closures and bindings called or evaluated in any order, recursion, loops, eval in the current scope and in stored bindings",
     "Tests use one closure at a time; whether an environment is on the stack or moved to the heap depends on the history of captures, returns and further calls.",
     ["ruruby/src/vm/executor/frame/heap.rs", "ruruby/src/vm/executor/frame.rs", "ruruby/src/vm/executor.rs", "ruruby/src/codegen.rs", "ruruby-parse/src/parser.rs", "ruruby/src/builtin/binding.rs"],
     [("moving environments to the heap", "vm/executor/frame/heap.rs, frame.rs"), ("variable resolution", "ruruby-parse parser.rs is_local_var, codegen.rs get_local_var"), ("eval and bindings", "vm/executor.rs, builtin/binding.rs")],
     STD_NOTE + "Oracle: environment-passing interpreter in Python; a quarter of the programs run with a collection at every safepoint.",
     "property-based testing: generated closure/binding programs vs a reference interpreter with explicit environments")

prop("C09", "Assignments evaluate each operand once, in order, and store the right value",
     "For every assignment - plain, op=, ||=, &&=, with safe navigation, chained, multiple (fewer, equal or more values, splats, a single array, swaps), with a rescue modifier - to locals (also captured ones), instance and global "
     "variables, constants, elements, attributes and multi-index elements: receiver, indices and right hand side are evaluated exactly once and in order, the right hand side only if the operator needs it; the value of the "
     "expression is the assigned value whatever the writer method returns; targets are assigned from left to right; an exception or jump in the right hand side leaves the target unchanged.",
     ["inputs"], "statement lists of up to 8 assignments with right hand sides nested to depth 2 (assignments inside right hand sides, rescue, ternaries, traced operands), at top level, in methods, blocks, lambdas, eval, loops",
     "Tests check final values of simple assignments; duplicated or reordered evaluation is visible only with side effects in receivers or indices, and stack-shuffling errors only when the value is used.",
     ["ruruby/src/codegen.rs", "ruruby-parse/src/parser/expression.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/vm/executor/ops.rs", "ruruby/src/codegen/send.rs"],
     [("assignment code generation", "codegen.rs gen_assign, gen_assign2, gen_assign_op, gen_assign_multi"), ("assignment grammar", "ruruby-parse parser/expression.rs"), ("TAKE/DUP/SINKN/TOPN", "vm/executor/opt_core.rs")],
     STD_NOTE + "Oracle: a model of the state computed while the program is generated, including the trace of evaluations. Not generated: nested and splat targets of multiple assignment (unsupported).",
     "property-based testing: generated assignments with traced operands vs a state-and-trace model")

prop("C16", "Iteration over integers and ranges visits exactly the specified numbers",
     "Integer#times, upto, downto, step, Range#each, map, flat_map, all?, for loops and enumerators of them call the block with exactly the specified numbers, in order, for bounds and steps of every kind and size "
     "(fixnum, arbitrary precision, Float limits), and return the specified value, whatever the block does: next, break, raise, return, assigning to the parameter, the bounds or captured variables, capturing the parameter in closures, "
     "iterating again. Range#to_a, first, last, include?, ===, begin, end and exclude_end? agree with the numbers visited; membership in ranges of strings and of objects with their own <=> is decided by <=>.",
     ["inputs", "histories"], "bounds around 0, +-2**31, +-2**62, +-2**63, 2**64, 10**20 and steps of every sign, blocks of up to 5 statements, up to three nested iterations, sites executed repeatedly with different operands; a share of the programs under gc-stress",
     "Tests iterate over a few small ranges; the boundary between small and big numbers, empty and exclusive ranges, and early exits each take another path of the implementation.",
     ["ruruby/src/builtin/integer.rs", "ruruby/src/builtin/range.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/codegen.rs"],
     [("iteration of numbers", "builtin/integer.rs, builtin/range.rs"), ("for loops and block invocation", "codegen.rs, vm/executor/method.rs")],
     STD_NOTE + "Oracle: Python integers and a model of the blocks.",
     "property-based testing: generated iterations vs a reference model")

prop("C17", "Sorting, extrema and Comparable agree with <=>",
     "Array#sort, sort_by, min, max and bsearch answer what the elements' order <=> (or the block) defines: a sorted array is a permutation of the elements in which no element precedes a smaller one, min and max are a least and a greatest element, "
     "the receiver is not changed, and the comparison methods of Comparable, Array#<=> and the operators agree with <=>. This holds for every size and initial order, for comparisons that return any Integer or Float, and incomparable elements raise an error. "
     "If the comparison is inconsistent, is left early or changes the receiver, no element is lost or duplicated, and nothing else is affected.",
     ["inputs", "histories"], "arrays of 0-300 numbers of all kinds, strings, arrays and objects with their own <=> in random, sorted, reversed, nearly sorted, few-valued and sawtooth orders, 30 comparing blocks, exits at every comparison, a share under gc-stress",
     "Tests sort a few short arrays; the merge sort has separate paths for short arrays, runs and merges, and the comparison is arbitrary Ruby code that can fail, exit or run the collector at any point.",
     ["ruruby/src/builtin/array.rs", "ruruby/src/builtin/comparable.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/vm/executor.rs", "ruruby/src/value/value.rs", "ruruby/src/vm/executor/ops.rs"],
     [("merge sort with fallible comparison", "vm/executor/opt_core.rs"), ("sort, min, max, bsearch", "builtin/array.rs"), ("comparison results", "value/value.rs to_ordering, builtin/comparable.rs")],
     STD_NOTE + "Oracle: order and permutation of the model's keys.",
     "property-based testing: generated arrays and comparisons vs an order/permutation oracle")

prop("C19", "Fibers and external enumerators resume exactly where they stopped",
     "A fiber runs its block up to the next Fiber.yield when resumed and continues there on the next resume with all its locals, operands being evaluated, active blocks, recursion and ensure clauses intact, however many other "
     "fibers and enumerators run in between; resume returns the yielded value(s) or the block's value, Fiber.yield returns the value given to resume; an exception leaving the block is raised from resume and kills the fiber; "
     "resuming a dead or already resumed fiber, or yielding outside of any, raises FiberError. Enumerator#next hands out one value per call and then raises StopIteration; each and next of one enumerator do not influence each other.",
     ["histories", "schedules"], "programs of up to 36 statements creating at most 8 fibers and 5 enumerators, switching in argument lists, literals, blocks, recursion, loops and ensure clauses; a quarter with a collection at every safepoint",
     "Which machine stack and VM stack is live at a switch depends on the history of switches; tests use one or two fibers with straight-line bodies.",
     ["ruruby/src/coroutine.rs", "ruruby/src/coroutine/stack.rs", "ruruby/src/coroutine/asm_x64.rs", "ruruby/src/vm/executor/fiber.rs", "ruruby/src/builtin/fiber.rs", "ruruby/src/builtin/enumerator.rs"],
     [("context switch", "coroutine.rs resume, fiber_yield; coroutine/asm_x64.rs"), ("machine stack pool", "coroutine/stack.rs"), ("enumerators", "builtin/enumerator.rs, vm/executor/fiber.rs")],
     STD_NOTE + "Oracle: Python generators. Known finding: Enumerator#each packs several yielded values. Not generated: fibers resumed with several arguments, Enumerator#peek/rewind/size (unsupported).",
     "property-based testing: generated fiber/enumerator histories vs a model on Python generators")

prop("C04", "Operators associate by Ruby's precedence table in any layout",
     "An expression or statement means what Ruby's operator table (precedence and associativity of unary, binary, range, ternary, assignment, and/or operators and statement modifiers) and its rules for command calls, blocks, parentheses "
     "and literals say, whatever operators and operands are combined and however it is laid out: with or without spaces, with newlines after operators and commas, before leading dots, inside brackets, with comments, separators and "
     "line continuations. Every operator calls the method of its left operand with the value of its right operand, operands being evaluated from left to right.",
     ["programs"], "expression trees of depth <= 4 over 25 operators, calls, blocks, indexing, assignments, conditionals, literals, printed with the minimal parentheses and random layout, in 16 statement forms",
     "Tests use a few combinations of two operators on numbers, where a wrong grouping often gives the same value; the number of pairs of operators and layouts is large.",
     ["ruruby-parse/src/parser/expression.rs", "ruruby-parse/src/parser/lexer.rs", "ruruby-parse/src/parser/flow_control.rs", "ruruby-parse/src/parser.rs", "ruruby/src/codegen.rs"],
     [("one parse function per precedence level", "ruruby-parse parser/expression.rs"), ("whitespace-sensitive tokens", "ruruby-parse parser/lexer.rs, expression.rs is_command"), ("blocks and statement forms", "ruruby-parse parser.rs parse_block, parser/flow_control.rs")],
     STD_NOTE + "Oracle: evaluation of the tree the text was printed from, on objects whose operators record what was applied to what. Known finding: do blocks of command calls whose last argument is a call.",
     "property-based testing: generated operator trees printed with minimal parentheses and random layout vs evaluation of the tree")

prop("C05", "Any text is compiled or rejected with SyntaxError",
     "For every text, parser and code generator either produce a program or report a SyntaxError; they never panic, crash or hang. Texts with unbalanced delimiters or keywords, invalid assignment targets, duplicate parameters, definitions where "
     "they are not allowed and similar malformed constructs are rejected. A text rejected by eval raises SyntaxError at the eval, which the program can rescue and continue from unaffected. Blank lines, comments or statements before "
     "or after a text change neither whether it is accepted nor its syntax tree.",
     ["inputs"], "texts up to 3000 bytes: truncated, spliced and mutated Ruby code, random token sequences, nested constructs up to 200 levels, valid nested programs with one delimiter removed, swapped or added, malformed constructs in random contexts",
     "Tests contain well-formed programs and a few errors; robustness is about the other texts.",
     ["ruruby-parse/src/parser/lexer.rs", "ruruby-parse/src/parser.rs", "ruruby-parse/src/parser/expression.rs", "ruruby-parse/src/parser/define.rs", "ruruby/src/codegen.rs", "ruruby-common/src/source_info.rs"],
     [("recursive descent with SyntaxError results", "ruruby-parse/src/parser/*.rs"), ("tokeniser", "ruruby-parse/src/parser/lexer.rs"), ("compile errors", "ruruby/src/codegen.rs"), ("error locations", "ruruby-common/src/source_info.rs")],
     STD_NOTE + "Oracle: the outcome must be acceptance or SyntaxError; known-valid texts must be accepted, known-invalid ones rejected; syntax trees are compared with and without surrounding text. Known findings: missing ) of argument lists, nesting beyond 500 levels.",
     "fuzzing: mutation and grammar based generation of texts, with totality, rejection and metamorphic oracles")

prop("C03", "An operator expression is the method call, in every position",
     "`l op r`, `op l`, `l[r]`, `l[r] = v`, `l op= r` and their uses as conditions of if, unless, while, until, ?:, &&, case and modifiers give what calling the operator as a method gives (explicit .op, send, Method objects): "
     "the method found by the receiver's class chain, including singleton, prepended, included, inherited, redefined and method_missing operators and those of subclasses of builtin classes, is called exactly once with the operand, "
     "its value (truthiness for conditions, negation for a != or !~ that is not defined) is the result and its exceptions propagate. Literal operands, reused call sites and later redefinitions change nothing.",
     ["inputs", "histories"], "1-3 classes (plain, derived from each other, from Array, String, Hash, StandardError or Struct) with random operator definitions, up to 8 call sites in 60 syntactic forms, reused with up to 24 operand pairs of all builtin types",
     "Tests call operators on a few builtin operands; the compiler has fused instructions per form and operand kind which must agree for all receivers.",
     ["ruruby/src/codegen.rs", "ruruby/src/vm/executor/ops.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/arith.rs", "ruruby/src/globals/method.rs"],
     [("fused compare-and-jump and immediate instructions", "codegen.rs gen_jmp_if_false, opt_core.rs"), ("operator fast paths", "vm/executor/ops.rs"), ("method and inline caches", "globals/method.rs")],
     STD_NOTE + "Oracle: a model of the generated classes' definitions (value, call log) for user-defined operators; agreement with __send__ for builtin ones. Known finding: Float#== with a non-number.",
     "property-based testing: generated operator definitions and call sites vs model and vs explicit method calls")

prop("C22", "case and rescue select the first matching clause",
     "A case expression evaluates its subject once, tries the patterns of its when clauses from left to right and top to bottom by pattern === subject (truth if there is no subject), evaluates no pattern after the first match, runs exactly "
     "that clause (or else, or gives nil) and has its value; whether labels are literals or computed, duplicated, dense or sparse changes nothing. A raised exception is matched the same way against the lists of rescue clauses (classes, modules, splats, "
     "computed, by ===; StandardError if none is given), is assigned to the variable, and propagates unchanged if nothing matches; else and ensure clauses run as Ruby says. Bodies may leave by return, next, break or raise.",
     ["inputs"], "up to 5 sites per program (methods, blocks, loops, lambdas) with nested case and begin expressions of up to 9 clauses with up to 4 patterns, called with up to 24 subjects of 12 kinds; random exception hierarchies",
     "Tests select clauses of a few labels; the compiler chooses between jump tables, hash tables and comparisons by the kinds and the range of the labels, and must agree with === for every subject.",
     ["ruruby/src/codegen.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/vm/executor/ops.rs", "ruruby/src/vm/executor.rs", "ruruby/src/builtin/exception.rs", "ruruby-parse/src/parser/flow_control.rs", "ruruby-parse/src/parser/expression.rs"],
     [("jump tables for literal labels", "codegen.rs NodeKind::Case, opt_core.rs OPT_CASE/OPT_CASE2, ops.rs case_label"), ("=== dispatch", "ops.rs eval_teq"), ("rescue matching", "codegen.rs NodeKind::Begin, executor.rs eval_rescue")],
     STD_NOTE + "Oracle: a model of the matching rules over the generated values and definitions. Known finding: Integer labels and objects with their own ==. Not generated: when *array, retry, case/in.",
     "property-based testing: generated case expressions and rescue clauses vs a model of first-match selection")

prop("C11", "Constants and variables resolve in their lexical scope, then by ancestors",
     "At any point of a program's history a constant name gives the constant of the innermost lexically enclosing class or module that has it, else of the ancestors of the innermost one, else of Object; A::X searches A's ancestors but not Object; "
     "a class variable belongs to the innermost enclosing class and is shared with its descendants and includers; an instance variable belongs to the object and a global to the program. This holds for all sites - methods called on any "
     "receiver, blocks, procs, eval, default arguments, class << self, class_eval, Class.new - and after any later definition, assignment, inclusion or reopening, whatever was cached before. NameError is raised (nil for instance variables and globals) if nothing is found.",
     ["histories"], "up to 30 steps opening nested, reopened (by name or path), derived, including, prepending and extending classes and modules named from 4 names, 3 constants, 3 class variables, 5 instance variables and 3 globals read and written from sites of 16 forms",
     "Inline caches make the value depend on what was executed before; tests read a constant once from one place.",
     ["ruruby/src/vm/executor/constants.rs", "ruruby/src/globals/constants.rs", "ruruby/src/vm/executor.rs", "ruruby/src/vm/executor/opt_core.rs", "ruruby/src/value/class.rs", "ruruby/src/value/rvalue.rs", "ruruby/src/builtin/module.rs"],
     [("lookup through class_defined and ancestors", "vm/executor/constants.rs find_const, get_scope"), ("inline constant cache and its version", "globals/constants.rs"), ("class variables", "vm/executor.rs get_class_var, set_class_var"), ("instance variable tables", "value/rvalue.rs")],
     STD_NOTE + "Oracle: a model of scopes and ancestors. Not generated: class variables defined twice in one ancestor chain, bare names below class << self that only an ancestor defines, const_missing, autoload.",
     "property-based testing (stateful): generated histories of scopes, definitions and reads vs a scope model")

prop("C23", "Every builtin call returns or raises and leaves the VM intact",
     "A call of a builtin method with any receiver, any number and kinds of arguments (huge, negative, non-finite, binary, frozen, self-referential, of a wrong type), splats, keywords and any block - also one that breaks, raises, or mutates the receiver during "
     "the call - by name, send or a Method object either gives a value that can be inspected or raises an exception that can be rescued; it never panics, crashes, loops forever or raises something outside Exception, "
     "and later computations are not affected. The outcome does not depend on when the garbage collector runs.",
     ["inputs", "histories"], "up to 8 calls (or a history of up to 14 calls on one receiver) of all builtin methods on 150 receivers of 25 kinds with 0-4 of 160 argument values",
     "Tests call builtin methods as intended; the number of combinations of receiver, arguments and block is large and wrong combinations are what programs under development consist of.",
     ["ruruby/src/builtin.rs", "ruruby/src/builtin/array.rs", "ruruby/src/builtin/string.rs", "ruruby/src/builtin/integer.rs", "ruruby/src/builtin/hash.rs", "ruruby/src/builtin/range.rs", "ruruby/src/builtin/object.rs", "ruruby/src/builtin/module.rs", "ruruby/src/value/value.rs", "ruruby/src/value/array.rs"],
     [("argument checks", "args.rs check_args_num, value/value.rs coerce_to_fixnum, expect_*"), ("iteration over mutable receivers", "value/array.rs live_iter, builtin/array.rs"), ("index arithmetic", "builtin/array.rs, builtin/string.rs, value/array.rs"), ("rooting of temporaries", "vm/executor.rs temp_push")],
     STD_NOTE + "Oracle: totality, a fixed program run before and after the calls, and agreement of the plain build with the gc-stress build. Calls exhausting memory or time because of an argument's size are counted as inconclusive.",
     "fuzzing: generated builtin calls with totality, sanity-program and GC-differential oracles")

prop("C21", "Literals denote their values, and inspect is re-readable",
     "Every literal - double- and single-quoted strings with all their escapes and nested interpolation, %-notations with any delimiters, adjacent strings, here documents (<<, <<-, <<~, quoted, several per line), character literals, symbols, word and symbol arrays, "
     "numbers, ranges, arrays and hashes - denotes exactly the value its text says, whatever it is nested in or surrounded by. For data built from nil, booleans, numbers, strings, symbols, ranges, arrays and hashes, inspect gives a text that, "
     "evaluated, gives an equal value, and p, puts, to_s and interpolation print what they should.",
     ["inputs"], "literals of up to 12 pieces nested to depth 3 over all characters below U+0180 and samples of the others, 20 delimiters, up to 3 here documents per line; data to depth 4",
     "The lexer works in modes that nest (strings in interpolations in here documents); tests show each notation once, with harmless contents.",
     ["ruruby-parse/src/parser/lexer.rs", "ruruby-parse/src/parser/literals.rs", "ruruby/src/vm/executor.rs", "ruruby/src/value/string.rs", "ruruby/src/builtin/symbol.rs"],
     [("escapes, delimiters, here documents", "parser/lexer.rs read_string_literal_double, read_escaped_char, read_heredocument"), ("interpolation", "parser/literals.rs parse_interpolated_string_literal"), ("inspect", "value/string.rs inspect, builtin/symbol.rs, vm/executor.rs val_inspect")],
     STD_NOTE + "Oracle: the value the literal was generated from (round trip text -> value -> inspect -> value). Known finding: \\x80-\\xFF and octal escapes of bytes above 127 denote characters.",
     "property-based testing: round trip between generated values, their literals in random notations, and inspect")

prop("C24", "Every object keeps its own state, identity and methods",
     "In any history of object creation, attribute and instance variable access by any means (attr methods, op-assign, methods defined in classes, modules and singleton classes, super, instance_variable_get/set, send, Method objects), reopening of classes, "
     "dup and clone, an instance variable holds what was last stored in it through that object, is listed in the order of first assignment, and other objects - of the same class, of subclasses, copies, classes themselves - are unaffected. dup and clone copy the variables "
     "shallowly, clone also the singleton methods and extensions; a copied class has its own methods. equal?, ==, object_id, class, is_a?, respond_to?, owner, singleton_methods and instance_methods agree with that history. This includes instances of Struct classes and of subclasses of Array, Hash, String and exceptions.",
     ["histories"], "up to 30 operations on up to 9 objects of up to 6 classes (and copies of them) with 2 modules and 9 instance variables",
     "Slots, method caches and singleton classes are shared structures; tests use one object of one class.",
     ["ruruby/src/value/rvalue.rs", "ruruby/src/value/value.rs", "ruruby/src/value/class.rs", "ruruby/src/builtin/object.rs", "ruruby/src/builtin/module.rs", "ruruby/src/builtin/structobj.rs", "ruruby/src/builtin/class.rs", "ruruby/src/vm/executor/opt_core.rs"],
     [("instance variable tables", "value/rvalue.rs get_var, set_var, var_table"), ("copies", "builtin/object.rs copy, clone, dup; value/rvalue.rs shallow_dup"), ("singleton classes", "value/value.rs get_singleton_class"), ("attr methods", "builtin/module.rs set_attr_accessor, vm/executor/method.rs"), ("Struct", "builtin/structobj.rs")],
     STD_NOTE + "Oracle: a model of an object store. Not generated: freeze (no effect in ruruby), initialize_copy, Struct#== (identity in ruruby).",
     "property-based testing (stateful): generated object histories vs a model of the object store")

prop("C28", "Files are loaded once, from the right place, in their own scope",
     "In a program of several files require and require_relative run a file exactly once - whichever of the names of the file, relative to the requiring file, absolute or in the load path (in its order), is used, also in cycles - and return whether they ran it; load runs it every time; "
     "an autoloaded constant runs its file at the first reference. Everything a file prints happens at that point; its methods, constants, classes and globals are visible afterwards, its local variables only in its own blocks and lambdas; __FILE__, __dir__, __LINE__ and relative requires mean the "
     "file they are written in; return leaves only the file. A file that is missing raises LoadError; an exception raised in a file reaches the requirer, and the file can be required again.",
     ["inputs", "histories"], "4-8 generated files in 5 nested directories (equal base names, dots in names) of up to 7 statements plus up to 12 in the main program",
     "The order of loading is a history over a graph of files with cycles and failures; tests load single fixture files.",
     ["ruruby/src/vm/executor/loader.rs", "ruruby/src/builtin/kernel.rs", "ruruby/src/vm/executor/constants.rs", "ruruby/src/value/class.rs", "ruruby/src/builtin/module.rs", "ruruby/src/globals.rs"],
     [("lookup of files and the table of loaded files", "vm/executor/loader.rs require, load_exec; globals.rs add_source_file"), ("relative paths", "builtin/kernel.rs require_relative"), ("autoload", "vm/executor/constants.rs get_mut_const, value/class.rs insert_const_autoload")],
     STD_NOTE + "Oracle: a model of the loader executing the same file graph. Files are created in a scratch directory the check removes. Not generated: symbolic links, .so files, syntax errors in files.",
     "property-based testing (stateful): generated multi-file programs vs a model of the loader")

prop("C29", "Recursion computes exact results or raises SystemStackError",
     "Recursion through any chain of calls - methods, blocks, procs, builtin iterators, operators, conversions, method_missing, super, eval, fibers, with any signature - gives exactly the value the program defines, at least up to 200 levels (10 in fibers). "
     "Unbounded recursion, and calls with more arguments than the stack holds, raise SystemStackError, which can be rescued at any level, is not a StandardError, runs the ensure clauses of all frames it leaves, and does not affect later computations, "
     "however often it happens. Deeply nested and self-referential data can be built, compared, inspected, flattened and collected.",
     ["inputs", "histories"], "up to 4 mutually recursive functions calling each other in 60 ways, recursion to 400 levels (20 in fibers) exact, unbounded recursion rescued at chosen levels up to 6 times; nesting to 50000 levels; splats to 2 million elements",
     "Tests recurse a few levels through one kind of call; the machine stack, the VM stack and the frame pointers must agree for every mixture and at whatever depth the stack runs out.",
     ["ruruby/src/vm/executor.rs", "ruruby/src/vm/executor/frame/ruby_stack.rs", "ruruby/src/vm/executor/frame/arg_handler.rs", "ruruby/src/vm/executor/method.rs", "ruruby/src/vm/executor/frame.rs", "ruruby/src/value/value.rs", "ruruby/src/builtin/array.rs", "ruruby/src/coroutine.rs"],
     [("stack limits", "vm/executor.rs check_stack, frame/ruby_stack.rs"), ("unwinding", "vm/executor.rs, opt_core.rs"), ("frames and environments", "frame.rs, frame/heap.rs"), ("recursion over data", "value/value.rs, builtin/array.rs")],
     STD_NOTE + "Oracle: the same recursion evaluated in Python. Known finding: eql? of very deeply nested data overflows the machine stack.",
     "property-based testing: generated recursive programs vs a Python evaluation of the same recursion, with fault injection by stack exhaustion")
