#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

EX, AT, PM, LIB = "src/parser/expression/mod.rs", "src/parser/atom/mod.rs", "src/parser/mod.rs", "src/lib.rs"
PEG, RU, P2C, GC = "src/peg/mod.rs", "src/peg/rules.rs", "src/peg/peg2code.rs", "src/peg/gcode.rs"
AST, FL = "src/ast/mod.rs", "src/ast/flat.rs"

prop("C01", "A parse succeeds exactly when PEG semantics match the whole input",
 "For every rule set without left recursion and every text, parsing succeeds if and only if the rule `main` matches the whole text under PEG semantics: sequences in order, ordered choice that commits to its first matching alternative, greedy repetition of at least the minimum and at most the maximum number of times (a further iteration that consumes nothing ends it), negation that succeeds exactly when its operand fails and consumes nothing, literals, character classes (listed characters or inclusive ranges), any-character and end-of-file. "
 "An alternative, repetition or negation that fails leaves the position, and everything parsed after it, as if it had never been tried. "
 "How the rules were built (macros, constructors or PEG text) makes no difference.",
 ["programs", "inputs"], "every rule set (repetition bounds with min <= max, no left recursion) and every text, including empty, very long, multi-line and non-ASCII ones",
 "The tests parse some 60 fixed grammar/text pairs, nearly all ASCII and shorter than 20 characters; interactions of backtracking, nesting and bounds over all grammars are not sampled.",
 [EX, AT, LIB, PM], [("parse_expr and its per-operator functions", EX), ("atom parsers", AT), ("full consumption check in parse_with_debug", LIB)],
 ["result of parse()"], [("Status.pos / Status.it_parsing", "current position", PM)])

prop("C02", "A successful parse returns exactly the derivation tree of the input",
 "When a parse succeeds, the returned tree is the derivation that PEG semantics give: its root is the rule `main`, every rule matched on the successful path is one node with its name, in input order and nested as the rules were entered, and every literal, class or any-character match is one value holding the text it matched. "
 "Nothing matched inside a negation, an abandoned alternative or the failed last iteration of a repetition leaves a node. "
 "The values, read left to right, spell exactly the input text; an end-of-file match is an end-of-file node and adds no text.",
 ["programs", "inputs"], "every rule set without left recursion and every text it accepts",
 "The tests hardly look at a produced tree at all (nearly all assert only is_ok / is_err).",
 [EX, AT, AST], [("node accumulation in parse_and/parse_repeat/parse_or", EX), ("ok! macro building values", AT)],
 ["the ast::Node returned by parse()"])

prop("C03", "Text is processed per character: consistent renaming changes nothing",
 "If all characters other than line breaks are replaced, in the literals and classes of a rule set and in the text alike, by other characters in an order-preserving one-to-one way (one-byte ones by two-, three- or four-byte ones in particular), parsing gives the same result with the characters replaced: same verdict, same tree, same error row, column and character position, same surrounding line text. "
 "The same holds when the grammar is given as PEG text. "
 "No text, whatever its encoding length, is rejected, mislocated or makes the library panic because its characters take more than one byte.",
 ["inputs", "programs"], "every rule set, text, and order-preserving injection on characters that fixes CR and LF",
 "All existing tests use ASCII only, where byte and character positions coincide.",
 [LIB, PM, AT, PEG], [("Status.get_char advances one char", AT), ("full consumption check", LIB), ("Error::from_status line extraction", PM)],
 ["parse(), rules_from_peg(), fields of parser::Error"])

prop("C04", "Error coordinates always describe one real point of the text",
 "In every error a parse (or the parse of a grammar text) returns, all coordinates denote one point of the text given: the character position is between 0 and the number of characters, the row is the number of line feeds before the point, the line start is the position after the last of them (0 if none), and the column is the number of characters since the last line feed or carriage return before the point. "
 "The `before` text is exactly the text from the line start to the point and the `after` text is exactly the text from the point up to the next line feed, carriage return or end of text.",
 ["inputs", "programs"], "every failing parse, for every rule set and text (any mix of CR, LF, CRLF, non-ASCII, long lines, many lines), and every rejected grammar text",
 "Tests check row/col on successful statuses of 3 short texts; no error coordinate is asserted anywhere.",
 [PM, AT], [("Status.get_char updates n,row,col,start_line", AT), ("Error::from_status", PM)],
 ["pos, line_before, line_after of parser::Error"], [("Possition", "n,row,col,start_line", PM)])

prop("C05", "The failure reported is the farthest one; error() and missing rules abort",
 "When every alternative of an ordered choice fails, its failure is the one located farthest in the text, the last of those on a tie; a failing literal, class or end-of-file is located just after the character that refuted it (or at the end of text) and a failing negation where it started. "
 "An `error(message)` or a reference to an undefined rule reached outside a negation ends the whole parse at once, through any choices and repetitions, with critical priority, at that position, with exactly that message or the name of the missing rule. "
 "When `main` matches only a prefix, the failure that ended the most recent failure-ended repetition still on the successful path is reported, or, if there is none, that the input was not fully consumed, at the end of the match.",
 ["programs", "inputs"], "every rule set without left recursion and every text it rejects",
 "Tests assert one error message of one grammar; which of many failures survives nested choices, repetitions and negations is not sampled.",
 [EX, AT, LIB, PM], [("deep_err in parse_or", EX), ("critical propagation in parse_or/parse_repeat", EX), ("potential_error", PM), ("final match in parse_with_debug", LIB)],
 ["parser::Error returned by parse()"], [("Status.potential_error", "failure that ended the last repetition", PM)])

prop("C06", "PEG text yields the rules it denotes, whatever its layout",
 "For every grammar, every way of writing it in the documented PEG syntax gives rules that behave exactly as that grammar: negation and repetition bind tighter than sequence, which binds tighter than choice; parentheses group; alternatives and sequence items keep their order; references keep their names, and rules inside modules are defined under their own names. "
 "Spaces, line breaks (LF, CR or CRLF), line comments, multi-line comments, redundant parentheses and the choice of quotes never change the rules. "
 "If a rule is defined twice at one level the last definition counts; a rule of a level counts rather than one of the same name in a module inside it, and one in an earlier module rather than one in a later one.",
 ["programs", "inputs"], "every grammar expressible in PEG text and every legal rendering of it",
 "Tests translate 15 small texts in one layout and check a handful of parses with each.",
 [PEG, RU, P2C], [("LL(1) consume_* functions over the flattened AST", PEG), ("built-in rules of the PEG syntax", RU)],
 ["SetOfRules returned by rules_from_peg()", "parse() with it"])

prop("C07", "Exactly the documented PEG syntax is accepted; the rest is a clean error",
 "rules_from_peg returns rules for every text that follows the documented PEG grammar of PEG grammars, and an error for every other text, never rules for part of the text. "
 "An error caused by the text carries its location in it.",
 ["inputs"], "every text: well-formed grammars, grammars with any small or large corruption, truncations, arbitrary text",
 "Tests validate 5 and reject 6 fixed texts.",
 [PEG, RU, P2C], [("parse with built-in rules then full consumption of nodes", PEG), ("built-in rules", RU)],
 ["Ok/Err of rules_from_peg()"])

prop("C08", "The grammar of grammars reproduces the built-in PEG parser",
 "The Rust code that the library prints for its own grammar of PEG grammars compiles, and the rules it builds accept and reject exactly the same grammar texts as rules_from_peg, locating the failures of the rejected ones at the same point. "
 "Thus the published grammar, the code generator and the built-in grammar parser never diverge.",
 ["inputs"], "every grammar text, valid or not",
 "No test compares the printed rules with the built-in ones (the printing is only run).",
 [P2C, GC, RU, PEG, "src/main.rs"], [("text_peg2code / print_rules2parse_peg", P2C), ("rust_from_rules", GC), ("parse_peg", RU)],
 ["stdout of print_rules2parse_peg(), compiled", "rules_from_peg()"])

prop("C09", "Generated Rust code compiles and builds an equivalent rule set",
 "For every rule set obtained from PEG text, the Rust code generated from it is valid inside the rule-set macro, and the rule set that it builds behaves exactly as the original one for every text. "
 "It holds for any characters in literals, error messages, classes and ranges: quotes, backslashes, control characters, raw-string delimiters, non-ASCII.",
 ["programs"], "every rule set obtained from PEG text",
 "The only test prints the code of one grammar and never compiles it.",
 [GC, LIB], [("rust_from_rules, expr2code, atom2code, match_rules2code", GC), ("macros", LIB)],
 ["code returned by rust_from_rules(), compiled and run"])

prop("C10", "AST transformations keep text, order and names, and do only their job",
 "For every tree: pruning removes exactly the rule nodes with a listed name, with all their content, and passing through removes exactly the rule nodes with a name not listed, putting their children in their place (in both cases the root is kept); compacting joins each maximal run of consecutive sibling values into one and changes nothing else; flattening lists, in document order, a begin mark, the content and an end mark for each rule and each value once (end-of-file nodes are omitted). "
 "Everything not removed keeps its order, name, text and nesting, and the original tree is not modified.",
 ["inputs"], "every tree (any depth, width, repeated or empty names and values, end-of-file nodes) and every list of names",
 "One doc-test per operation on a tree of at most 6 nodes with one listed level.",
 [AST, FL], [("prune, pass_through_except, compact", AST), ("flatten", FL)],
 ["results of the four operations"])

prop("C11", "AST cursor helpers never skip, lose or invent a node",
 "Each helper that looks at or consumes the first node of a list (tree or flattened form) returns exactly that node's value, name or children together with exactly the remaining nodes when the first node is what was asked for, and an error otherwise, empty lists included; the list itself is never altered and no helper panics. "
 "A helper asked for a specific value or rule name succeeds only on that very kind of node with exactly that value or name.",
 ["inputs"], "every node list and every requested value or name",
 "One doc-test per helper, on the successful path only (besides one).",
 [AST, FL], [("consume_*, peek_*, split_*, get_*, check_*", AST), ("same for flat nodes", FL)],
 ["results of the helper functions"])

prop("C12", "A rule set edited at run time equals one built at once",
 "After every sequence of rule additions and merges, the set holds exactly the union of the rules given: adding a rule replaces a previous rule with that name, and merging keeps the receiver's rule when both sets define one and loses no other rule. "
 "Parsing with it at any moment of its history gives the same result as with a set built at once with the same rules, in any order.",
 ["histories"], "every history of new/add/merge/parse operations",
 "One doc-test adds one rule, one merges one rule, with no name clash.",
 [EX, LIB], [("SetOfRules::add / merge / new", EX), ("rules! macro", LIB)],
 ["contents of SetOfRules", "parse() with it"])

prop("C13", "Parsing is pure: no call influences another, in any order or thread",
 "The result of a parse, grammar translation or tree operation depends only on its arguments: repeating it, interleaving it with any other calls (failing, aborted by errors, in debug mode, with other rule sets over the same text), running it in another thread at the same time or in another process, gives the identical result. "
 "The rule set is never modified by parsing.",
 ["histories", "schedules"], "every interleaving of calls, sequential or concurrent, sharing rule sets and texts",
 "Each test makes one call per rule set; no test repeats, interleaves or shares anything between threads.",
 [LIB, EX, PEG], [("all state lives in Status, passed by value", PM), ("rules borrowed immutably", PM)],
 ["results of all public functions"])

prop("C14", "Debug parsing gives the same result, plus the exact trail of rules",
 "Parsing in debug mode returns the same tree, or an error equal in everything but the rule trail, as normal parsing. "
 "The trail of its errors lists in order `main` and the rules entered since on the path that was not abandoned when the failure occurred; rules entered only in abandoned alternatives, in the failed last iteration of a repetition or in negations are not in it. "
 "In normal mode the trail is empty.",
 ["programs", "inputs"], "every rule set without left recursion and every text",
 "parse_debug is not called by any test.",
 [LIB, EX, PM], [("trace_rules / push_rule", PM), ("parse_rule_name", EX)],
 ["parse_debug() against parse()"], [("Status.walking_rules", "rules entered on the current path", PM)])

prop("C15", "No input makes the library panic, abort or run forever",
 "For any text, any grammar text and any rule set without left recursion (undefined references, empty alternatives, repetitions of expressions that match nothing, huge bounds included; a huge minimum of an expression that matches nothing takes that many steps), every public operation returns: it never panics, overflows arithmetic, aborts, exhibits undefined behaviour or runs without end, as long as nesting stays moderate (50 levels). "
 "It holds as well for formatting every result and error and for generating code from any rule set.",
 ["inputs", "programs"], "every text, grammar text, rule set without left recursion, tree; nesting up to 50 levels",
 "Tests feed well-formed ASCII inputs; none feeds arbitrary text or degenerate grammars.",
 [LIB, EX, AT, PM, PEG, GC, AST, FL], [("Result-based error propagation", PEG), ("repetition bounds and progress check", EX)],
 ["return of every public function under a watchdog"])

prop("C16", "Stack use depends on nesting, not on the length of input or lists",
 "The stack needed to parse grows only with the nesting of rules and expressions being matched: the length of the text, the number of iterations of a repetition, of items of a sequence, of alternatives of a choice, of rules in the set, of characters of a literal or of listed characters and ranges of a class do not add to it. "
 "The tree operations likewise need stack only for the depth of the tree, never for its width, and translating a grammar text or generating code only for its nesting, never for the number or length of its rules, modules, alternatives, items, literals, classes, names or comments.",
 ["inputs", "programs"], "texts, repetitions, sequences, choices and sibling lists of hundreds of thousands of elements on a stack of fixed size",
 "The longest text in any test has fewer than 100 characters.",
 [EX, AT, AST, FL, PEG, GC], [("tail_call trampolines in parse_and/parse_or/parse_repeat", EX), ("iterative folds over siblings", AST)],
 ["completion in a thread with a small fixed stack"])

prop("C17", "Literals and classes in PEG text denote exactly the documented characters",
 "A single-quoted literal matches exactly the characters between the quotes, backslashes included; in a double-quoted one \\n, \\r, \\t, \\\\, \\\" and \\0xHH (two upper-case hexadecimal digits) denote one character each (the one with that code) and any other character denotes itself; the same holds for error messages. "
 "A class matches exactly one character: any of the listed ones or any within one of its inclusive ranges, with no escapes. "
 "A dot matches exactly one character, whichever it is.",
 ["inputs"], "every literal, message and class over all Unicode characters, in both quotings",
 "Tests use about 20 plain alphabetic literals, two classes and no escape.",
 [PEG, RU, AT], [("consume_literal_esc / esc_char / hex_char / literal_no_esc / match", PEG), ("parse_match, parse_literal, parse_dot", AT)],
 ["rules_from_peg() then parse()"])

prop("C18", "Parsing does no repeated work and keeps no memory",
 "The expression evaluations a parse makes, and so its memory allocations, are those that backtracking PEG evaluation performs on that input up to a constant factor: no operand is evaluated again for the same attempt, so nesting never multiplies the cost, and the memory asked for per evaluation (but for the copy of its line that each failure holds) does not grow with the length of the text. "
 "Once the results are dropped, all memory taken by parses, grammar translations and tree operations is released: any number of them leaves memory use where it was.",
 ["inputs", "histories"], "every rule set without left recursion, text and number of repetitions",
 "No test measures anything; double evaluation or retained memory would pass all of them.",
 [EX, LIB, AT, PM], [("single evaluation per attempt in parse_*", EX), ("ownership of Status and nodes", PM)],
 ["allocation counts and live bytes seen by an instrumented allocator"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
