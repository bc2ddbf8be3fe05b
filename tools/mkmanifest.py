#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEM = "Trusts the reference model of PEG matching in harness/src/model.rs (400 lines, written from the property statement); min > max bounds and left recursion are not generated."
T = {
 "C01": ("online comparison of parse() with a reference PEG evaluator on generated grammars and texts", "Verdict of every execution compared with the model. " + SEM),
 "C02": ("online comparison of returned trees with the reference derivation, and a conservation monitor on the text", "Every accepted execution's tree compared node by node with the model's. " + SEM),
 "C03": ("metamorphic monitor: executions under character renaming compared", "No model needed: the library is compared with itself under an order-preserving injection of characters into 1- to 4-byte ones, for rule sets and for PEG text."),
 "C04": ("assertion monitor on every error returned, coordinates recomputed from the text", "All six coordinates of every error recomputed from the text by definition. The model is used only to skip non-terminating cases."),
 "C05": ("online comparison of reported failures with the reference evaluator", "Position, priority and cause of every rejected execution compared with the model's; the wording of a cause is learnt from the library at start, so rewording is not an alarm. " + SEM),
 "C06": ("differential monitor: rendered grammars translated and compared in structure and behaviour", "Random grammars are written in random layouts; the translated rules are compared with the grammar, and where they are not the same up to trivial regrouping, by behaviour on texts. The renderer checks itself against an independent reading of the documented grammar."),
 "C07": ("online comparison of rules_from_peg verdicts with a reference recogniser of the documented grammar", "Verdict on rendered, mutated, truncated and random grammar texts compared with the documented grammar of grammars run by the reference evaluator; coordinates of errors checked."),
 "C08": ("bootstrap execution: the printed parser is compiled and run against the built-in one", "The rules printed by print_rules2parse_peg are compiled into a program which runs the same grammar texts as rules_from_peg; verdicts and failure points are compared."),
 "C09": ("execution of compiled generated code compared with the original rule sets", "260 rule sets per program, compiled by rustc from the generated text; the rules built and their behaviour on texts are compared with the original."),
 "C10": ("online comparison of tree operations with reference definitions on generated and parsed trees", "Each operation compared with a direct definition; the original tree compared with a copy taken before."),
 "C11": ("assertion monitor on every cursor helper at every position of generated lists", "Every helper called at every suffix of tree and flat lists, with matching and near-miss names; results compared with their definition."),
 "C12": ("history monitor: rule-set edits checked against a map after every operation", "Sequential histories of new, add, merge and parse against a map; contents compared after each operation, parses with a set built at once."),
 "C13": ("replay monitor: results recorded once, compared when interleaved, concurrent and in other processes", "The same calls are made in other orders, with arguments rebuilt in reused memory, in 4 threads sharing rule sets, and in fresh processes; all results must be equal. The interleavings are those the scheduler gives; thread safety of the types is what rustc proves of safe code; where the rule set type is not Sync, each thread gets a set of its own."),
 "C14": ("trace monitor: rule trails compared with the reference evaluator, debug with normal mode", "Debug and normal results compared in all fields; the trail compared with the model's. " + SEM),
 "C15": ("crash, panic, overflow and hang monitor over hostile inputs (debug assertions, overflow checks; Miri and AddressSanitizer in the thorough tier)", "Every public operation on hostile grammar texts, rule sets and trees under a supervisor that sees panics, signals, CPU time and memory. A run forever is one that takes more than 20 s of CPU where the model needs fewer than 60,000 steps."),
 "C16": ("stack monitor: long inputs run on a small fixed stack, overflow seen by the supervisor", "42 scenarios of 20,000 to 50,000 elements (thorough 200,000) on a 1 MB stack: growth of 50 bytes per element is seen."),
 "C17": ("online comparison of literals and classes with the characters they denote, all of Unicode swept", "Literals, messages and classes written in PEG text, membership probed around every bound; sweeps of all Unicode characters and all 256 hexadecimal escapes."),
 "C18": ("resource monitor: counting allocator, evaluations counted against the reference evaluator", "Allocations against model evaluations (a factor 10 above what is seen), operators nested so that repeated evaluation is exponential, an expensive operand whose evaluations are counted exactly by its cost, and live bytes before and after batches. " + SEM),
}
m = {
 "version": 1,
 "setup_cmd": "./check --build",
 "checks": [{"property": k, "quick_cmd": f"./check {k}", "thorough_cmd": f"VERIF_TIER=thorough ./check {k}", "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in T.items()],
 "not_applicable": [],
 "notes": "No hooks in /repo: every monitor observes the public API, from a harness crate with a path dependency on it. ./check --case ID SEED I replays one case.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
