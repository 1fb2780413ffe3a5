#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long JSON stays reviewable)."""
import json, os
A = "projects/sm-algorithm/src/"
S = "projects/sm-ast/src/"
P = "projects/sm-parser/"
props = []

def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    props.append(d)

p("C01", "Integer powers are exact for every base and exponent",
  "Raising an integer of any sign and size to a natural-number power returns exactly the mathematical value (so a^0 = 1 for a != 0, a^1 = a, 0^b = 0 for b > 0, and the sign follows the parity of the exponent). 0^0, and only 0^0, is reported as the indeterminate error. The overflow error is reported exactly for exponents that do not fit in 32 bits together with a base of magnitude 2 or more (for base -1 either the value or that error); no call returns a wrong number.",
  ["inputs"], "all integer bases (negative, zero, multi-word) and all natural-number exponents",
  "The only test (test_power) calls the num crate's pow on one pair and never calls the project's function; the claim is over all pairs, including the short-cut branches.",
  [A + "basic/mod.rs"], [("power_iu short cuts and num pow", A + "basic/mod.rs: power_iu")],
  ["return value of power_iu"])

p("C02", "Extended gcd gives a Bezout identity; coprimality agrees with it",
  "For every pair of integers the extended gcd returns the non-negative greatest common divisor together with exactly two coefficients x, y satisfying a*x + b*y = gcd. The coprimality predicate is true exactly when the greatest common divisor is 1, whatever the signs, sizes or order of the arguments.",
  ["inputs"], "all pairs of integers, including zeros, negatives, equal, divisible and multi-word values",
  "test_extend_gcd prints one result without asserting; nothing checks the identity, the divisor property or coprimality for any input.",
  [A + "basic/mod.rs"], [("extended_gcd2 / is_coprime", A + "basic/mod.rs")], ["return values of extended_gcd2 and is_coprime"])

p("C03", "Modular inverse exists exactly for units and is an inverse",
  "For every integer a and every non-zero modulus m, the modular inverse is returned exactly when gcd(a, m) = 1, and then a times it is congruent to 1 modulo m; otherwise the answer is 'none'. This holds for negative a, for a larger than m, for negative m, for m = 1 and for multi-word values.",
  ["inputs"], "all (a, m) with m != 0",
  "test_modulo_inverse prints one result and asserts nothing; the claim is an if-and-only-if over all pairs.",
  [A + "basic/mod.rs"], [("modulo_inverse via extended gcd", A + "basic/mod.rs: modulo_inverse")], ["return value of modulo_inverse"])

p("C04", "Modular division solves b*x = a (mod m) exactly when solvable",
  "For every a, b and every non-zero modulus m, modular division of a by b returns a value x with b*x congruent to a modulo m exactly when the congruence has a solution (gcd(b, m) divides a), and 'none' otherwise. It never returns a number that does not satisfy the congruence.",
  ["inputs"], "all (a, b, m) with m != 0, solvable and unsolvable, with gcd(b, m) = 1 and > 1",
  "test_modulo_division prints one result and asserts nothing (at the pinned commit the printed result was wrong); the claim quantifies over all triples.",
  [A + "basic/mod.rs"], [("modulo_division: Bezout coefficient of the divisor", A + "basic/mod.rs: modulo_division")], ["return value of modulo_division"])

p("C05", "Chinese remainder answers satisfy every congruence",
  "For residues u_1..u_k and pairwise coprime non-zero moduli m_1..m_k, for every k >= 0, the Chinese remainder function returns a value congruent to u_i modulo m_i for every i. When the two lists have different lengths, or the moduli are not pairwise coprime and no common solution exists, it answers 'none'; it never returns a number that violates one of the congruences.",
  ["inputs"], "all residue/modulus lists of every length (0 included), residues of any sign and size, moduli non-zero",
  "test_crt prints one three-modulus answer and asserts nothing; mixed-radix reconstruction errors only show for particular lengths, orders, signs or repeated factors.",
  [A + "basic/mod.rs"], [("Garner mixed-radix loop", A + "basic/mod.rs: chinese_remainder"), ("modular inverse of the running product", A + "basic/mod.rs: modulo_inverse")], ["return value of chinese_remainder"])

p("C06", "Factorial is exact on naturals and an error elsewhere",
  "For every natural number n both factorial entry points return exactly n! (0! = 1), at every size that can be computed. The integer entry point answers every negative integer, however large in magnitude, with the complex-infinity error, and every non-negative integer beyond the machine word with the overflow error; it never returns a number for them.",
  ["inputs"], "all integers n; exact values for all n whose factorial is computable in the run",
  "factorial_test prints 100! and asserts nothing; negative and oversized arguments are never called.",
  [A + "gamma/factorial.rs"], [("factorial_fold_u product", A + "gamma/factorial.rs"), ("factorial_i domain dispatch", A + "gamma/factorial.rs")], ["return values of factorial_fold_u and factorial_i"])

p("C07", "Fibonacci numbers are exact for every index, negative included",
  "For every natural number n the iterative and the fast-doubling algorithm both return exactly F(n) (F(0) = 0, F(1) = 1), and therefore agree with each other. The integer entry point returns F(n) for n >= 0 and (-1)^(n+1) * F(|n|) for n < 0; indices beyond the machine word are the overflow error.",
  ["inputs"], "all integer indices; exact values for all indices whose result is computable in the run",
  "fibonacci_test checks only n = 100, one even index; odd indices, base cases, large and negative indices are untested.",
  [A + "linear/fibonacci.rs"], [("fold recurrence", A + "linear/fibonacci.rs: fibonacci_fold_u"), ("memoised doubling recursion", A + "linear/fibonacci.rs: fibonacci_fast_u"), ("sign and range dispatch", A + "linear/fibonacci.rs: fibonacci_i")], ["return values of the three fibonacci functions"])

p("C08", "Sum of primes is exact for every bound",
  "For every n the sum of the primes up to and including n is returned exactly: by the machine-word sieve for every n >= 0 whose true sum fits in 64 bits, and by the big-integer entry point for every non-negative n that fits the machine word and for the powers of ten up to 10^25; larger bounds are answered exactly or with an error. Negative bounds are an error; no bound yields a wrapped or approximate sum.",
  ["inputs"], "all bounds n >= 0 (0, 1, squares of primes, neighbours of primes and squares, beyond 2^32, powers of ten up to 10^25) and negative n",
  "test_prime_sum samples 14 bounds; the sieve's index arithmetic goes wrong only near perfect squares, at tiny bounds or where intermediate sums leave 64 bits, and the table constants are never cross-checked.",
  [A + "prime/prime_sum.rs"], [("Lucy-style sieve over floor(n/i)", A + "prime/prime_sum.rs: prime_sum_u64"), ("table of powers of ten", A + "prime/prime_sum.rs: prime_sum_table")], ["return values of prime_sum_u64 and prime_sum_i"],
  [("S(v)", "sum of numbers <= v surviving the sieve so far", A + "prime/prime_sum.rs")])

p("C09", "Prime counts are never wrong",
  "Whenever the prime-counting function returns a number for n, that number is exactly the count of primes up to and including n. Every power of ten from 10^0 to 10^27 is answered with a number; a negative argument is an error, and any other argument is either answered correctly or reported as an error.",
  ["inputs"], "all integers n, in particular all 28 tabulated powers of ten and their neighbours",
  "No test calls the function; 28 long constants were pasted from a table and nothing checks them or the dispatch around them.",
  [A + "prime/prime_count.rs"], [("prime_count_table and dispatch", A + "prime/prime_count.rs")], ["return value of prime_count_i"])

p("C10", "Arithmetic calls always come back with a value or an error",
  "No integer argument, of any sign or size, makes an implemented arithmetic function panic, hang, abort or allocate out of proportion to its operands and result: it returns a value, 'none' or an error value. (Moduli are non-zero, machine-word results are representable, and powers, factorials, Fibonacci numbers and prime sums are asked for at sizes whose result can be computed; a prime sum up to n works in space of the order of the square root of n.) In particular zero, negative numbers, machine-word boundaries and arguments far outside the supported domain are answered at once.",
  ["inputs"], "all integer arguments whose exact result is of moderate size, and all out-of-domain arguments",
  "The tests use small positive arguments only; crashes sit at zero, negatives, 2^31/2^32/2^63/2^64 boundaries and empty lists.",
  [A + "basic/mod.rs", A + "gamma/factorial.rs", A + "linear/fibonacci.rs", A + "prime/prime_sum.rs", A + "prime/prime_count.rs", A + "error.rs"],
  [("range checks (to_u32/to_isize/to_u64, sign tests) before computing", A)], ["panic/return of every public function", "allocation volume and CPU time per call"])

p("C11", "Results do not depend on the build profile and no UB is executed",
  "The same sequence of arithmetic calls produces the same answers in a debug build (overflow checks on), in the project's optimised release profile and under memory/undefined-behaviour instrumentation. No call performs an arithmetic overflow, out-of-bounds or uninitialised access, leak or other undefined behaviour on the way to its answer.",
  ["inputs", "configurations"], "all argument values, over build configurations {debug, overflow-checked optimised, release (opt-level z, LTO), AddressSanitizer, Miri}",
  "The suite runs in one profile only; wrapping arithmetic and unchecked operations (the crate enables unchecked_math) differ silently between profiles.",
  ["Cargo.toml", A + "lib.rs", A + "prime/prime_sum.rs", A + "linear/fibonacci.rs"], [("checked/wrapping machine arithmetic", A + "prime/prime_sum.rs"), ("release profile", "Cargo.toml")], ["result transcript per build", "sanitizer / Miri reports"])

p("C12", "Arithmetic functions are pure under repetition and concurrency",
  "The answer of every arithmetic function depends only on its arguments: it is the same whatever calls were made before it, in whatever order, and however many threads call the same or other functions at the same time. Concurrent calls never race on shared state, deadlock or corrupt each other's results.",
  ["schedules", "histories"], "all call histories and all interleavings of concurrent callers",
  "Each test calls a function once with fixed arguments; state leaking between calls (memo tables, caches, scratch buffers) is invisible to that.",
  [A + "linear/fibonacci.rs", A + "prime/prime_sum.rs", A + "cache/mod.rs", A + "basic/mod.rs", A + "gamma/factorial.rs"], [("memo table local to each call", A + "linear/fibonacci.rs: fibonacci_fast_u"), ("tables built per call", A + "prime/prime_sum.rs: prime_sum_table")], ["recorded call histories from many threads", "ThreadSanitizer / Miri reports"])

p("C13", "Literals denote exactly the value written",
  "Parsing a numeric literal of any length yields exactly the number written: decimal integers, binary/octal/hexadecimal integers (either letter case, with digit-separating underscores), and decimals with all their digits. Plain and block string literals yield exactly the characters between their delimiters; true and false are the booleans and null the null constant.",
  ["inputs"], "all literals the grammar accepts",
  "Tests cover a dozen literals of one or two digits; long digit strings, separators, upper-case prefixes and non-ASCII strings are untested.",
  [S + "parser/parse.rs", P + "simple-math.pest", P + "src/sm_parser.rs"], [("parse_integer / parse_decimal / parse_byte / parse_string / parse_special", S + "parser/parse.rs")], ["syntax tree of parsed literal"])

p("C14", "Parsed trees follow the documented precedence and keep every operand",
  "Parsing an expression built from atoms, prefix and postfix operators, infix operators, parentheses, juxtaposition products, calls, member calls, indexing with slices, and lists yields the tree given by the documented grouping: power binds tighter than /, which binds tighter than *, which binds tighter than + and -; power groups to the right and the other arithmetic operators to the left; prefix and postfix operators bind tighter than infix ones. A postfix operator or index written after a member call applies to the whole member call. Every operand and operator of an accepted text appears in the tree, in source order; a text of several expressions yields all of them, in order.",
  ["inputs", "programs"], "all texts of one or several expressions over the supported constructs, of any size (except a member call whose right side is parenthesised or prefixed)",
  "About forty fixed inputs with one to three operators are tested; the combinations of operator pairs, nesting and unary operators are unbounded.",
  [S + "parser/mod.rs", S + "parser/parse.rs", S + "parser/ops.rs", P + "src/sm_parser.rs"], [("OPERATORS table and precedence climbing", S + "parser/mod.rs"), ("tree construction", S + "parser/parse.rs")], ["syntax tree returned by parse", "Wolfram form of the tree"])

p("C15", "Layout does not change meaning",
  "Inserting or removing spaces, tabs, line breaks inside brackets or around infix operators, and line or block comments at those places, never changes the tree an expression parses to. Neither do redundant parentheses around a sub-expression.",
  ["inputs", "programs"], "all expressions and all ways to lay them out",
  "Tests parse each expression in one layout only.",
  [P + "simple-math.pest", P + "src/sm_parser.rs", S + "parser/parse.rs"], [("implicit WHITESPACE/COMMENT rules", P + "simple-math.pest"), ("transparent parentheses", S + "parser/parse.rs: parse_node")], ["syntax trees of layout variants compared modulo positions"])

p("C16", "Printed expressions read back as the same expression",
  "Printing an expression built from numbers, booleans, symbols, operators, calls and lists (or a sequence of such expressions), and parsing the printed text, gives back the same expression (a negative number reads back as a negated one, and a product of three or more factors as the nested product). Operators and lists are printed in their own notation, with parentheses wherever the grouping would otherwise change.",
  ["inputs", "programs"], "all printable expression trees, parsed or built, of any depth",
  "Nine fixed expressions are compared with fixed strings; no test reads printed text back.",
  [S + "ast/traits.rs", S + "parser/ops.rs"], [("precedence-driven parenthesising in Display", S + "ast/traits.rs"), ("infix precedences", S + "parser/ops.rs: infix_map")], ["Display output re-parsed"])

p("C17", "Evaluation returns the exact value or an error",
  "Evaluating sums, products and powers of two integer literals, factorials and Fibonacci numbers of an integer, and first/last/length of a string (length counts characters) yields exactly the mathematical result; atoms evaluate to themselves. Whatever cannot be evaluated - negative or oversized exponents, 0^0, non-integer arguments, missing arguments, unknown functions, nested expressions, several expressions at once - is reported as an error, never as a wrong value.",
  ["inputs", "programs"], "all expressions accepted by the parser and all trees built through the public constructors",
  "Two unit tests evaluate fibonacci and factorial at 0 and 10; the operators, the error paths and the string functions are never evaluated.",
  [S + "evaluate/forward.rs", S + "internal/elementary.rs", S + "internal/list_like.rs", S + "internal/number_theory.rs"], [("evaluate_function dispatch and evaluate_additive/multiplicative/power", S + "evaluate/forward.rs"), ("factorial/fibonacci/first/last/length", S + "internal")], ["value or error returned by evaluation"])

p("C18", "Translation to Wolfram form preserves the expression",
  "Translating a tree to Wolfram form maps every node to exactly one node: calls keep their head (capitalised, with the documented renamings), their curried argument groups, and all arguments in order, followed by one rule per option with its key and value. Integers and decimals keep their exact digits, strings their exact text, booleans become True/False and null becomes Null; the text and the byte form describe the same value.",
  ["inputs", "programs"], "all trees the parser can produce",
  "About fifty fixed inputs are compared with strings; argument order, options, currying depth and large numbers are only sampled.",
  [S + "traits/wolfram/mod.rs"], [("ToWolfram for AST", S + "traits/wolfram/mod.rs"), ("function_map", S + "traits/wolfram/mod.rs")], ["WolframValue produced by to_wolfram"])

p("C19", "TeX rendering shows every operand",
  "Rendering an expression of numbers, booleans, symbols, strings, operators, calls, elementary functions and lists to TeX succeeds and contains each positional operand of the expression and the name of each function called, in order, with its exact digits or name, each of its operators (a multiplication possibly as juxtaposition), each list in braces or brackets, and no operand or operator that is not in the expression. Braces and left/right delimiters in the output are balanced.",
  ["inputs", "programs"], "all trees over the supported constructs (strings without braces)",
  "Eleven fixed expressions with at most three operands are tested.",
  [S + "traits/tex/mod.rs", S + "traits/tex/utils.rs"], [("ToTex for AST and Parameter", S + "traits/tex/mod.rs"), ("infix_tex / omit_brackets_function", S + "traits/tex/utils.rs")], ["string returned by to_tex"])

p("C20", "No input text crashes the parser, evaluator or playground",
  "For every input text the parser returns a tree or an error, and the evaluator and the playground entry points return a result or an error text; none of them panics. Unsupported constructs and malformed input are reported as errors, and an input never makes a later call fail.",
  ["inputs", "histories"], "all Unicode strings (valid, malformed, unsupported constructs) of moderate nesting depth, in any sequence",
  "The suite parses well-formed supported inputs only; a panic in the playground also poisons its shared session for every later call.",
  [S + "parser/parse.rs", S + "parser/ops.rs", S + "evaluate/forward.rs", S + "internal/list_like.rs", S + "internal/elementary.rs", "projects/sm-playground/src/lib.rs"], [("errors propagated from tree construction", S + "parser/parse.rs"), ("errors for unsupported calls", S + "evaluate/forward.rs"), ("shared session behind a mutex", "projects/sm-playground/src/lib.rs")], ["panic/return of parse, evaluate, last, result, result_tex"])

p("C21", "A session reports the latest result and inputs do not interfere",
  "In one session, every input evaluates to what it would evaluate to in a fresh session, whatever was entered before. Asking for the last result gives the value of the most recent input when that input succeeded, and an error when it failed or nothing was entered; failed inputs leave the session usable, cloned sessions are independent, and the playground functions report exactly what the session reports.",
  ["histories", "schedules"], "all sequences of inputs, successes and failures mixed, sessions cloned at any point, playground called from several threads",
  "No test evaluates through a session at all, apart from one playground input that only prints.",
  [S + "evaluate/traits.rs", S + "evaluate/mod.rs", "projects/sm-playground/src/lib.rs"], [("index / inputs / outputs bookkeeping", S + "evaluate/traits.rs")], ["return values of evaluate and last over a history"],
  [("index", "number of inputs so far", S + "evaluate/mod.rs"), ("outputs", "result per input index", S + "evaluate/mod.rs")])

p("C22", "Translating a file is all-or-nothing and matches parsing its text",
  "Translating a source file writes to the destination exactly the byte form of the tree its text parses to, replacing whatever was there. When the source cannot be read (missing, a directory, not valid text) or does not parse, an error is returned and the destination is neither created nor changed; when the destination cannot be opened or written an error is returned.",
  ["inputs", "fault_sequences"], "all source texts and all failing-read, failing-parse and failing-open situations",
  "No test calls the file entry point.",
  [S + "parser/parse.rs"], [("parse_file: read, parse, then create", S + "parser/parse.rs: parse_file")], ["return value and file contents before/after"])

p("C23", "Recorded source positions delimit the construct they belong to",
  "Each argument group of a parsed expression carries the file name of its parser settings and start/end line and column positions (1-based, counted in characters) that delimit its construct in the source: start is not after end, both lie inside the text, and the text in between is exactly the call's argument group, the list, the slice, the operator or the enclosing infix expression it stands for. Positions of nested constructs lie within those of the infix expression, list, slice or argument group enclosing them.",
  ["inputs", "programs"], "all parsed expressions over any layout, multi-line and non-ASCII text included",
  "No test looks at positions.",
  [S + "parser/parse.rs", S + "parser/traits.rs", S + "ast/mod.rs"], [("get_position from spans", S + "parser/traits.rs")], ["position fields of parsed argument groups"])

p("C24", "The shipped recogniser implements the published grammar",
  "The recogniser compiled into the product accepts exactly the texts that the published grammar file describes, and produces the same token tree (rule names, nesting and extents) for each of them, from every rule of the grammar.",
  ["inputs", "programs"], "all texts, accepted and rejected, for every grammar rule as entry point",
  "The recogniser is 1100 generated lines committed by hand-run generation; nothing compares it with the grammar file.",
  [P + "simple-math.pest", P + "src/sm_parser.rs", P + "src/pre_build.rs"], [("generated recogniser", P + "src/sm_parser.rs"), ("grammar", P + "simple-math.pest")], ["token trees of SMParser and of a parser freshly derived from the grammar file"])

p("C25", "Deeply nested text is handled in moderate time and space",
  "Parsing any text of up to several hundred characters, whatever brackets, calls, indexes, operators or statement beginnings it repeats or nests (well-formed or not, up to hundreds of levels), takes a moderate number of steps: effort does not multiply with each level of nesting. The same holds for printing, rendering, translating and evaluating the tree, and a well-formed nest still yields exactly the tree it denotes.",
  ["inputs"], "all texts of moderate length at every nesting depth and in every repetition pattern",
  "The tests nest two or three levels; exponential backtracking (the pinned grammar had it for nested indexes and calls) only shows from some twenty levels on and only for particular combinations.",
  [P + "simple-math.pest", P + "src/sm_parser.rs", S + "parser/parse.rs", S + "ast/traits.rs", S + "traits/tex/mod.rs", S + "traits/wolfram/mod.rs"],
  [("ordered choice with common prefixes: index, node, space_call", P + "simple-math.pest"), ("recursive descent over pairs", S + "parser/parse.rs"), ("recursive rendering", S + "ast/traits.rs")],
  ["number of recogniser steps", "CPU time and size of the renderings"])

p("C26", "Alternative spellings mean the same",
  "Writing an operator, separator or literal in its alternative spelling - the multiplication and division signs, the negation sign, full-width commas, semicolons and colons, the single-character name separator, either letter case and any digit separators of byte literals, plain or block quotation marks, a member call x.f(a) or the call f(x, a), trailing commas - never changes the tree a text parses to, its Wolfram form or the answer of its evaluation.",
  ["inputs", "programs"], "all expressions and every subset of their alternative spellings",
  "One or two texts use an alternative spelling at all and none compares it with the usual one.",
  [P + "simple-math.pest", S + "parser/ops.rs", S + "parser/parse.rs", S + "ast/traits.rs"],
  [("operator tables", S + "parser/ops.rs"), ("names split at separators", S + "ast/traits.rs: From<&str> for Symbol"), ("separators and literals", S + "parser/parse.rs")],
  ["tree, Wolfram text and evaluation outcome of both spellings"])

p("C27", "Errors say what went wrong and where",
  "Text that does not fit the grammar is reported as a parse error naming the line and column of the place it cannot be continued at, and only such text is; constructs that fit the grammar but are not supported, unknown functions and unsuitable arguments are reported as unimplemented. The factorial of a negative number is complex infinity; factorials, Fibonacci numbers and powers with arguments beyond the supported range are an overflow; first and last of an empty string, and the last result when there is none, are an empty-container error; unreadable sources and unwritable destinations are an I/O error. The playground's text names the same kind of error.",
  ["inputs", "histories", "fault_sequences"], "all inputs, histories and file situations that cannot succeed",
  "No test provokes an error.",
  [S + "error/mod.rs", S + "error/traits.rs", S + "evaluate/forward.rs", S + "evaluate/traits.rs", S + "internal/elementary.rs", S + "internal/list_like.rs", S + "parser/parse.rs"],
  [("conversions into the error type", S + "error/traits.rs"), ("unsupported constructs", S + "parser/parse.rs: debug_cases"), ("empty containers", S + "internal/list_like.rs"), ("missing results", S + "evaluate/traits.rs: last")],
  ["error value of parse, evaluate, last, parse_file and the playground text"])

p("C28", "Slots and history references denote the index or name written",
  "A slot (#, #n, #name, ##, ##n) parses to a slot or slot-sequence reference carrying exactly the number or name written, of any length, and none when none is written. A history sign with a number n denotes input or output n; k signs in a row denote the k-th last. This holds wherever the reference stands in an expression, and its Wolfram form carries the same argument.",
  ["inputs"], "all slot and history references, alone and as any operand",
  "The tests print a few such texts and assert nothing about the indices.",
  [P + "simple-math.pest", S + "parser/parse.rs"], [("parse_slot / parse_in_out", S + "parser/parse.rs")], ["tree and Wolfram form of the parsed reference"])

p("C29", "The head of an expression and its last arguments make it up",
  "The head of a call, list, operator or curried call, applied to the last argument group, is exactly the expression again (same name, same earlier argument groups, same options and positions); with a single argument group it is the symbol itself. The head of a number, boolean, symbol or string is the symbol of its type.",
  ["inputs"], "all expressions, any number of argument groups",
  "No test calls it.",
  [S + "internal/list_like.rs", S + "ast/mod.rs"], [("head", S + "internal/list_like.rs: head")], ["return value of head"])

p("C30", "Parsing, rendering and evaluating are pure and thread-safe",
  "What a text parses to (positions included), how the tree prints, renders and translates, and what it evaluates to depend only on the text and the file name of the settings: they are the same every time, whatever was parsed before, by whichever settings value or clone of it, and however many threads work on the same or other texts at the same time. Rendering and evaluating a tree leave it unchanged, the file name influences nothing but the recorded positions, and no data race occurs.",
  ["inputs", "histories", "schedules"], "all texts, all orders of calls and all interleavings of threads",
  "Every test parses each text once, in one thread.",
  [S + "parser/parse.rs", S + "parser/mod.rs", P + "src/sm_parser.rs", S + "ast/traits.rs", S + "traits/tex/mod.rs", S + "traits/wolfram/mod.rs", S + "evaluate/forward.rs"],
  [("static operator table", S + "parser/mod.rs: CLIMBER"), ("recogniser state", P + "src/sm_parser.rs")],
  ["tree, renderings and evaluation outcome of repeated and concurrent calls", "ThreadSanitizer reports"])

p("C31", "Every tree that can be built can be printed, rendered, translated and evaluated",
  "A syntax tree assembled through the public types (any symbol name and name space, any of the node kinds with any number of argument groups, arguments and options, any option key, empty and nested programs, any atom, any positions), whether or not a text parses to it, is handled by every public operation without a panic and without being changed: it prints, renders as TeX, translates to Wolfram form, has a head and evaluates to a value or an error. The Wolfram form has the symbol's (capitalised) name as head, applied to each argument group in turn, arguments first, then one rule per option. An operator node whose arguments do not fit the operator notation (wrong number, several groups, options) prints as a call of the operator's function; whenever all names and atoms can be spelled in the language, the printed text reads back as the same names applied to the same arguments and options (operator nodes of more than two operands read back as nested pairs).",
  ["inputs"], "all trees over the public types",
  "The tests only render trees that come out of the parser.",
  [S + "ast/mod.rs", S + "ast/traits.rs", S + "traits/tex/mod.rs", S + "traits/tex/utils.rs", S + "traits/wolfram/mod.rs", S + "evaluate/forward.rs", S + "evaluate/rewrite.rs", S + "internal/list_like.rs"],
  [("Display for AST", S + "ast/traits.rs"), ("ToTex for AST", S + "traits/tex/mod.rs"), ("ToWolfram for AST", S + "traits/wolfram/mod.rs"), ("forward", S + "evaluate/forward.rs")],
  ["result of each operation on built trees, and the tree afterwards"])

p("C32", "Options are matched by name, not by place",
  "In a call, options may be written anywhere among the positional arguments: moving them leaves the tree (positions aside), its printed, TeX and Wolfram form and its value as they were, as long as the positional arguments keep their order. Every name counts once, with the value written last, and an overwritten option leaves no trace. This holds in every argument group of curried calls, in member calls (whose object stays the first argument), and in calls inside arguments, options, lists and indices. Every option is found in the tree under the symbol that names it, and in no case becomes a positional argument or the other way round.",
  ["inputs"], "all calls with options, any number of them, in any order",
  "The tests contain a handful of calls with one or two options, always after the positional arguments.",
  [S + "parser/parse.rs", S + "ast/mod.rs", S + "ast/traits.rs", S + "traits/wolfram/mod.rs", P + "simple-math.pest"], [("parse_apply / parse_kv", S + "parser/parse.rs"), ("Parameter::options", S + "ast/mod.rs")],
  ["trees, printed, TeX and Wolfram form and value of a call and its reordered spellings"])

p("C33", "An expression means the same wherever it stands",
  "A text that parses as an expression by itself gives the same tree when it stands as an argument, an option value, a list element, an index or slice bound, a parenthesised operand, or a statement of a sequence, any number of levels down and next to any other expressions; its surroundings mean what they mean with a plain name in its place. Every recorded position inside it is the one it has by itself, shifted by where it stands (counted in characters, over lines of its own), and every position around it is shifted by its length.",
  ["inputs"], "all expressions in all surroundings",
  "The tests parse fixed texts; none compares an expression with itself in another place.",
  [S + "parser/parse.rs", P + "simple-math.pest", P + "src/sm_parser.rs"], [("parse_expr / parse_term / parse_node", S + "parser/parse.rs"), ("get_position", S + "parser/parse.rs")],
  ["tree and positions of an expression alone and in place"])

p("C34", "Comparison and ordering of trees agree",
  "Two trees are equal exactly when they have the same parts (numbers by value) and the same recorded positions: a copy is equal to its original, and a tree with another name, name space, number, string, argument, option or argument group somewhere is not. Equality is symmetric and agrees with the order; the order is total, antisymmetric and transitive; trees used as keys of a map or set, or as option names, are found again with the value last stored under an equal tree.",
  ["inputs"], "all trees over the public types",
  "The tests compare printed strings, never trees.",
  [S + "ast/mod.rs"], [("derived comparisons of AST, Parameter, Position, Symbol, SymbolKind", S + "ast/mod.rs")],
  ["results of ==, cmp, partial_cmp and map lookups on families of similar trees"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for d in props:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(props), "properties")
