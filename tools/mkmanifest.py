#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# technique, assurance and trust per property
T = {
 "C01": ("property-based fuzzing of the tokenizer (random, structured and exhaustive short inputs); termination and progress invariant",
         "Every byte string up to length 2 exhaustively, millions of random and structured ones; a watchdog turns a loop into a violation. Trusts the watchdog's limits (20 s wall and 16 s CPU per case)."),
 "C02": ("property-based testing: tiling invariant over generated sources",
         "The tokens of generated UTF-8 sources are laid against the source bytes; independent of how the tokenizer works."),
 "C03": ("property-based testing against a reference line and column count",
         "Line and column of each token are recomputed by counting bytes; trusts only the token's offset, which C02 decides."),
 "C04": ("property-based testing against a model lexer, with exhaustive operator strings and lexeme pairs",
         "Lexemes are generated together with their kind; all operator strings up to length 6 and all lexeme pairs are enumerated against a longest-match model."),
 "C05": ("fault injection into generated schemas: the parser must diagnose",
         "One grammar-breaking edit of 15 kinds at a drawn place of a generated valid schema, broken by construction; and edited token sequences and arbitrary texts that a liberal recogniser cannot read."),
 "C06": ("fuzzing of the parser (bytes, token soup, mutations, deep nesting) with crash, hang and consistency oracle",
         "No crash, no hang, bounded and rendered diagnostics, and a usable tree on millions of inputs."),
 "C07": ("property-based testing: generated trees spelled and parsed back (round trip)",
         "The tree that spelled the source is the oracle; covers the constructs in the statement, within the grammar described in DESIGN.md. For arbitrary accepted sources every token is accounted for in the tree."),
 "C08": ("property-based testing against a reference precedence printer, with exhaustive combinations",
         "Random expressions with known grouping, and all combinations of 24 operand spellings around the choices."),
 "C09": ("property-based and metamorphic testing (rule order, layout) against a model of names",
         "Exact multiset and places of unresolved names on generated schemas in two orders."),
 "C10": ("model-based testing of assignment histories",
         "Exact redefinitions and symbol table for generated histories of =, /= and //= assignments."),
 "C11": ("metamorphic testing: layout and comments are changed, tree and diagnostics compared",
         "Two spellings of one schema, valid or faulty, compared without positions."),
 "C12": ("property-based testing: positions are recorded while a tree is spelled",
         "Position of every construct in generated sources, plus order invariants between nodes."),
 "C13": ("property-based testing of literals against exact arithmetic",
         "Values near and beyond the limits in every place a literal may stand; math/big as oracle."),
 "C14": ("property-based testing against a typing model of operands",
         "Operands of every kind, directly or through chains of names, judged by a model of the rules in the statement."),
 "C15": ("model-based stateful testing of batches over one symbol table",
         "Histories of batches, failing ones included, against a write-once map and the concatenation."),
 "C16": ("property-based differential testing (repeat, alias, concurrency) with the race detector",
         "Same results three times, with poisoned and reused buffers, and by concurrent goroutines in a race-instrumented build."),
 "C17": ("property-based testing of traversals against a reference walk",
         "Event sequences of full and declining visitors against the tree found by reflection."),
 "C18": ("property-based testing of the printer against the nodes found by reflection",
         "Every node of generated trees printed in two orders; the kind, value and position shown are checked against the node."),
 "C19": ("model-based stateful testing against maps",
         "Operation sequences on several tables against write-once maps."),
 "C20": ("property-based testing: generated schemas are compiled by go/types and compared with gofmt",
         "The generated file is parsed, type-checked and formatted with the standard library; identifiers and constructs within the subset in DESIGN.md. One known finding (a member named Valid)."),
 "C21": ("property-based testing against a reference mapping from schema to Go declarations",
         "Type-checked declarations, order, struct tags and values against the expectation recorded while the schema is generated."),
 "C22": ("stateful property-based testing of the cddlc binary in scratch projects",
         "File-system state before and after each run against a model of the project. Runs as nobody inside a scratch directory."),
 "C23": ("fault injection into scratch projects of the cddlc binary",
         "One fault per history: exit status, message, marker and file contents. Runs as nobody inside a scratch directory."),
 "C24": ("stateful property-based testing of init and generate histories",
         "Histories of init, generate and edits against a model of the directory."),
 "C25": ("property-based round-trip and differential testing of configuration files",
         "Values written by an independent writer in drawn spellings, in JSON and YAML; damaged files must be errors."),
 "C26": ("differential testing of the lex and parse commands against the library",
         "Complete output of the commands on generated sources compared with what the library computes."),
 "C27": ("model-based stateful testing of interactive sessions",
         "Generated sessions of the repl against a model of the definitions it must remember."),
 "C28": ("property-based testing against exact big-number comparison, with exhaustive extremes",
         "All 12 numeric types; every triple over seven extreme values enumerated."),
 "C29": ("property-based testing against reference sizes and a reference matcher",
         "Sizes by construction, patterns against an independent matcher for a generated subset of regular expressions."),
 "C30": ("fault injection into generated schemas: the position of the first diagnostic",
         "The place of the injected fault is known; positions of all diagnostics are checked against the source. For arbitrary texts a liberal recogniser gives the first token that no schema can have."),
 "C31": ("property-based testing: the places where nodes may end are recorded while a tree is spelled",
         "End of every node of generated schemas against the spelled text; both conventions (last character, one behind) are accepted, as the code mixes them."),
}

props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough",
                   "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
     "notes": "All checks drive the code in /repo through its exported API or the cddlc binary; no hooks in /repo. The thorough tier adds coverage-guided search (Go native fuzzing). See DESIGN.md."}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
