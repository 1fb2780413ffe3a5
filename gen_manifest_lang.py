T = {
 "C13": ("runtime monitor: expected-value oracle over generated literal texts (the generator knows the value it wrote), in a build with every run-time check on",
   "Held on every observed literal: integers up to several hundred digits, byte literals, decimals compared digit by digit, strings character by character."),
 "C14": ("runtime monitor: reference-tree oracle over generated expressions (an independent precedence model renders a tree to text; the parse must give the tree back)",
   "Held on every observed expression. Exhaustive over operator pairs, sampled beyond."),
 "C15": ("runtime monitor: metamorphic oracle (layout variants and redundant parentheses of one token sequence must parse to one tree, the reference tree)",
   "Held on every observed layout variant."),
 "C16": ("runtime monitor: round-trip oracle (print, parse, compare) over parsed and constructed trees",
   "Held on every observed tree; numbers, booleans, symbols, operators, calls, lists and decimals with a fractional part."),
 "C17": ("runtime monitor: reference-evaluator oracle (independent big-integer arithmetic) over source texts and constructed trees",
   "Held on every observed expression; exponents, factorials and Fibonacci indices bounded by what the reference computes. Results beyond 200000 bits are not computed."),
 "C18": ("runtime monitor: reference-translation oracle on the WolframValue the code builds",
   "Held on every observed tree. The WXF crate is absent offline; a stand-in with its documented constructors records the value, so the crate's own serialisation is trusted, not checked."),
 "C19": ("runtime monitor: structural oracle on rendered TeX (ordered operand tokens, balanced braces and delimiters)",
   "Held on every observed tree; operands must appear in order and nothing else besides known notation."),
 "C20": ("hostile-input workload with panic trap, CPU-time watchdog, AddressSanitizer build and Miri interpretation of a sample",
   "Held on every observed text, in any sequence through one playground session. Nesting up to 60 brackets here; C25 nests deeper."),
 "C21": ("history monitor: every input's answer is compared with a fresh session's; offline linearizability-style check of recorded playground calls from many threads, natively and under ThreadSanitizer",
   "Held on the observed histories and interleavings."),
 "C22": ("fault-injection monitor on the file entry point: destination bytes, other files and return value before and after",
   "Held in every observed situation. Write errors are provoked with a full device; a crash in mid-write is out of scope. The WXF encoder is a stand-in."),
 "C23": ("runtime monitor: reference positions (the generator records where it put every token) against recorded positions",
   "Held on every observed text; a position may include the layout that follows its construct."),
 "C24": ("differential monitor: the shipped recogniser against one derived from the grammar file during the check, token tree for token tree",
   "Held on every observed text, every rule as entry point. Trusts pest's generator."),
 "C25": ("runtime monitor: recogniser step budget (deterministic call counter), CPU-time watchdog and output-size bound over deep and repetitive texts, reference-tree oracle for well-formed nests",
   "Held on every observed text (up to about 1500 characters, some hundred levels). The budget is 16 times what the worst observed text needs. Long flat texts (ten thousand items, quadratic) and nestings of thousands of levels (stack) are outside the property."),
 "C26": ("runtime monitor: metamorphic oracle (an expression and its respelled variants must give one tree, one Wolfram form, one evaluation outcome)",
   "Held on every observed pair."),
 "C27": ("fault-injection and hostile-input monitor on error values: malformed texts with a known first bad character, unsupported constructs, out-of-domain calculations, failing files and histories",
   "Held on every observed failure. The kind of error for 0^0 and negative exponents is not specified."),
 "C28": ("runtime monitor: expected-value oracle over generated slot and history references, tree and Wolfram form",
   "Held on every observed reference."),
 "C29": ("runtime monitor: reconstruction oracle (head plus last argument group must equal the expression) at every node of generated trees",
   "Held on every observed node."),
 "C30": ("history and concurrency stress against first-call answers: repeated, reordered and cloned calls, many threads natively and under ThreadSanitizer",
   "Held on the observed histories and interleavings; a race on a path these texts never take would not be seen."),
 "C31": ("runtime monitor: panic trap, before/after comparison, translation model and read-back oracle over trees built from arbitrary symbols, kinds, groups, options and atoms",
   "Held on every observed tree (up to some hundred nodes). Trees of names the language cannot spell are not read back; very large powers, factorials and Fibonacci numbers are not evaluated."),
 "C32": ("runtime monitor: metamorphic oracle (a call and respellings of it with moved and dropped options) plus reference-tree oracle for names and last values",
   "Held on every observed call, up to some sixty options in a group."),
 "C33": ("runtime monitor: compositional oracle (tree and positions of a filled text against those of its parts and of the frame around them)",
   "Held on every observed expression and frame; frames up to three constructs deep with up to three expressions in them. Juxtaposed factors are not frames."),
 "C34": ("runtime monitor: algebraic oracle (equivalence, total order, key lookup) over families of similar trees built and parsed",
   "Held on every observed family."),
}
