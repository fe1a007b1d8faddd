#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py). Keeps the long records readable."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

LEX, PAR = "lexer/lexer.go", "parser/parser.go"

p("C01", "Tokenizing any byte sequence terminates cleanly",
  """For every byte sequence, including invalid UTF-8, control characters and truncated literals, tokenization
  neither crashes nor loops. It delivers at most one token per source byte and then end-of-input, and keeps
  answering end-of-input, at the same position, when asked again.""",
  ["inputs"], "all byte strings (random bytes, mutated sources, truncations of valid sources)",
  """The lexer tests use well-formed ASCII lexemes only; no invalid UTF-8, no unterminated literal, no empty or truncated source.""",
  [LEX], [("Scan/next advance on every rune", "lexer/lexer.go Scan, next, scanString, scanComment, scanIdentifier, scanNumber")],
  observe=["lexer.NewLexer(...).Scan()"])

p("C02", "Tokens tile the source with nothing lost, invented or repeated",
  """For every UTF-8 source, the tokens in order account for the whole text: each token's offset is where its text
  stands, tokens strictly advance without overlap, and only blanks, tabs, carriage returns and newlines lie between
  them. A token's literal is exactly its source text, except that a comment's omits the leading ';' and a text
  literal's omits the quotes.""",
  ["inputs"], "all UTF-8 sources: random text, token soup, valid schemas, any layout",
  """TestLexerFuzz checks offsets only for ten known lexemes on one line separated by single blanks, without comments or newlines; gaps between tokens are never examined.""",
  [LEX], [("start offset captured before scanning, literal sliced from the source", "lexer/lexer.go Scan, scan*")],
  observe=["token, position and literal returned by Scan"])

p("C03", "Token line, column and offset agree for every layout",
  """For every source, each token's line is one plus the number of newline characters before it and its column is
  one plus the number of bytes between the start of that line and the token. This holds for any mixture of blank
  lines, CRLF line ends, tabs, comments and text literals before the token, and for end-of-input.""",
  ["inputs"], "all multi-line sources",
  "The lexer tests contain no source with more than one line.",
  [LEX, "token/position.go"], [("line-offset table filled while skipping whitespace", "lexer/lexer.go skipWhitespace, addLineOffset, Scan")],
  state=[("lineOffsets", "offsets of the newlines seen so far", "lexer/lexer.go")],
  observe=["position returned by Scan", "line:column printed by `cddlc lex`"])

p("C04", "Every lexeme gets its own token kind, by longest match",
  """Every CDDL lexeme - identifiers over letters, digits and @ _ $ - . , reserved words, decimal, hexadecimal, octal
  and binary integers, decimals, text literals, comments, delimiters, the operators = => / // /= //= .. ... and the
  control operators - is recognised as its own kind whatever precedes or follows it, the longest operator winning.
  Reserved words are matched whole and case-sensitively; characters outside the language and unknown
  control-operator names are reported as illegal, never as identifiers.""",
  ["inputs"], "all sequences of lexemes, adjacent or separated, and all single lexemes of each class",
  """TestIdentifers and TestNumbers list about 30 isolated lexemes; TestLexerFuzz only concatenates canonical spellings separated by blanks, so adjacency (1..5, a=>b, ///=, 3.size) is never exercised.""",
  [LEX, "token/token.go"], [("character dispatch with lookahead; keyword table", "lexer/lexer.go Scan; token/token.go Lookup, init")],
  state=[("keywords", "reserved spelling to token kind", "token/token.go")],
  observe=["token kind returned by Scan", "token.Lookup"])

p("C05", "Malformed schemas are never silently accepted",
  """A source that breaks the CDDL grammar is always reported with at least one diagnostic: a missing assignment,
  operand, value or closing delimiter, a mismatched or stray delimiter, a doubled comma, an illegal character, an
  unknown control operator, an unterminated text literal, or an out-of-range number. This holds wherever the fault
  stands, at any nesting depth, in the first rule or the last. More generally, any text that no reading of the grammar
  allows is reported.""",
  ["inputs"], "every valid schema of the supported language, with every single injected fault of the listed classes at every position; all texts",
  "The parser tests compare diagnostics only when their count happens to match the expectation, so no test fails when an error is swallowed.",
  [PAR, LEX], [("diagnostics returned up the recursive descent and collected", "parser/parser.go ParseFile, parseRule, parseEntry, parseTag, parseGroup, parseMap, parseArray"), ("lexer error list", "lexer/lexer.go error, scanString")],
  observe=["the diagnostics returned by ParseFile"])

p("C06", "Parsing any input terminates with a tree and usable diagnostics",
  """For every byte sequence and every sequence of tokens, parsing neither crashes nor loops; it returns a tree
  together with a finite list of diagnostics, each of which renders and is positioned inside the source. The tree it
  returns without diagnostics can be walked, printed, exported as JSON and asked for the start and end of every node
  without crashing.""",
  ["inputs"], "all byte strings and token sequences (random bytes, token soup, mutated valid schemas)",
  "Parser tests feed about 60 hand-written, almost all valid, sources.",
  [PAR, "parser/diagnostic.go", "ast/", "ast/astutils/"], [("nud/led tables with nil checks", "parser/parser.go parseEntry"), ("Start/End of nodes", "ast/*.go")],
  observe=["ParseFile result", "astutils.Walk/Format", "encoding/json of the tree"])

p("C07", "A valid schema is parsed into exactly the tree it spells",
  """For every schema built from the supported constructs - rules, all primitive types, literals, identifiers,
  groups, maps, arrays, keyed entries, occurrence indicators, choices, ranges, size/regexp/bits/comparison
  controls, tags, unwrap, enumerations and comments - the tree has one rule per definition in source order and, below it, exactly
  the written constructs with their names, keys, bounds, operators and operands; names that begin with $ are known as sockets, with $$ as plugs. No member, bound, operand or
  comment trailing a rule or a keyed entry is dropped, duplicated, reordered or attached elsewhere, and no diagnostic is issued. Whatever the source,
  if it is accepted without a diagnostic then each of its names, literals, types and operators stands in the tree exactly once, in its place.""",
  ["inputs", "programs"], "all schemas of the supported language, up to a size bound",
  "The parser tests check about 40 one-line rules and skip the comparison whenever list lengths differ; TestE2EFast only checks that no error is reported.",
  [PAR, "ast/"], [("Pratt parser building ast nodes", "parser/parser.go parse*")],
  observe=["tree returned by ParseFile"])

p("C08", "Operators group by binding strength, parentheses only regroup",
  """In every expression mixing operators, unwrap (~) and enumeration (&) bind tightest, then ranges and control
  operators, then type choice (/), then member keys (: and =>), and group choice (//) binds loosest; choices of
  equal strength keep their alternatives in written order. How an operand is spelled - literal, identifier, bracketed
  group, or prefixed by another operator - never changes the grouping.""",
  ["inputs", "programs"], "all operator/operand sequences up to a length bound",
  "TestTypeChoice covers only chains of / over literals; operator_precedence.cddl is parsed but its tree is never inspected.",
  [PAR, "token/token.go"], [("precedence table and climbing loop", "token/token.go Precedence; parser/parser.go parseEntry, parseTypeChoice, parseGroupChoice, parseUnwrap")],
  observe=["tree returned by ParseFile"])

p("C09", "Exactly the undefined references are diagnosed, in any rule order",
  """Parsing a schema reports an unresolved reference for every use of a name that no rule defines, at that use, and
  never for a name that is defined anywhere in the schema, before or after the use, at any nesting depth. Names
  starting with $ (sockets) and member keys written with a colon are never reported; reordering the rules does not
  change which names are reported.""",
  ["inputs", "programs"], "all sets of rules, use sites and definition orders",
  "Tests contain no schema with an undefined name; forward references occur in a handful of fixed files.",
  [PAR, "environment/environment.go"], [("deferred existence checks run after the whole file", "parser/parser.go parseNamedIdentifier, ParseFile tasks")],
  state=[("tasks", "checks postponed until all rules are known", "parser/parser.go"), ("environment", "name to definition", "environment/environment.go")],
  observe=["diagnostics of ParseFile"])

p("C10", "Redefinitions are reported once each and the first definition wins",
  """When a name is assigned with = more than once, every assignment after the first yields exactly one diagnostic,
  at the redefinition and naming the line of the first one; names assigned once yield none. Extending a name with /= or //= is never
  reported as a redefinition, and the symbol table keeps the first definition.""",
  ["inputs", "histories"], "all sequences of assignments over a small set of names, with arbitrary definitions",
  "Only the symbol table's own Add is tested with one repeated name; the parser's reporting of duplicates is untested.",
  [PAR, "environment/environment.go"], [("definition registered after the rule is parsed", "parser/parser.go parseRule; environment/environment.go Add")],
  observe=["diagnostics of ParseFile", "environment.Get after parsing"])

p("C11", "Layout and comments never change what a schema means",
  """Changing the whitespace between tokens (blanks, tabs, newlines, CRLF), or inserting comment lines between rules,
  before a member of a collection, at the end of a member's or rule's line, or before a closing delimiter, leaves
  the parsed rules and their diagnostics unchanged apart from positions and the comments themselves.""",
  ["inputs", "programs"], "all valid schemas under all such re-layouts",
  "Comments appear in two test sources, both on their own at the end of input or between rules.",
  [PAR, LEX], [("whitespace skipping; comment tokens consumed around entries and rules", "lexer/lexer.go skipWhitespace; parser/parser.go parseEntry, parseRule, parseColon, parseComment")],
  observe=["tree and diagnostics of ParseFile for two layouts of one schema"])

p("C12", "Every node starts where its text starts",
  """In the tree of every valid schema, each named, literal, type, tag or collection node reports as its start the
  line, column and offset of the first character of its own text in the source, and operators report the position
  of their own operator symbol. A node's start never lies after the start of any node it contains, and siblings
  start in source order.""",
  ["inputs", "programs"], "all valid schemas in all layouts, all nodes",
  "Only type keywords on line 1 have their position compared.",
  [PAR, "ast/", "token/position.go"], [("node positions copied from the current token", "parser/parser.go parse*; ast/*.go Start")],
  observe=["Start() and Pos of every node"])

p("C13", "Literal values are preserved exactly or rejected",
  """An integer literal in decimal, 0x, 0o or 0b notation, a decimal fraction and a text literal evaluate in the tree
  to exactly the written value for every value in range (64-bit integers, double-precision fractions, any text
  without quotes or newlines), also as a range bound, size, occurrence bound, tag number or member key. A literal
  that does not fit is reported, never wrapped, truncated or rounded to another integer.""",
  ["inputs"], "all literal values and notations, in every position that accepts one",
  "TestNumericLiteral checks four numbers.",
  [PAR, LEX], [("strconv conversion with base detection", "parser/parser.go parseIntegerLiteral, parseFloatLiteral, parseUintLiteral, parseTag, parseFloatTag, parseOccurrence"), ("digit scanning", "lexer/lexer.go scanNumber, scanHexDigits, scanBinaryDigits, scanOctalDigits, scanString")],
  observe=["literal fields of tree nodes", "diagnostics"])

p("C14", "Operand types of ranges and control operators are enforced",
  """A range accepts two integer or two decimal bounds and reports a mixture, also when a bound is a name whose
  definition is the other kind of number, wherever that definition stands. .size is accepted exactly on uint, bstr
  and tstr/text bases, .regexp exactly on text bases with a text literal or name as pattern, comparison operators
  exactly on numeric bases, and occurrence bounds exactly on non-negative integers; anything else is reported.""",
  ["inputs", "programs"], "every operator crossed with every kind of left and right operand, literal or through a name defined before or after",
  "Tests cover int..int and float..float, three .size bases and two .regexp patterns; their error expectations are skipped when counts differ.",
  [PAR], [("type switches on operands, deferred checks for names", "parser/parser.go parseBound, parseIntBound, parseFloatBound, parseIdentBound, parseSizeOperator, parseRegexp, parseComparatorOp, parseOccurrence")],
  observe=["diagnostics of ParseFile"])

p("C15", "Splitting a schema over a shared session keeps its meaning",
  """When the rules of a schema are fed one batch at a time through parsers sharing one symbol table, names defined by
  any earlier batch resolve in later ones, redefinitions across batches are reported, and the set of reported
  redefinitions equals that of parsing the concatenation. A batch that fails to parse never removes or replaces an
  earlier definition.""",
  ["histories", "inputs"], "all sequences of valid, duplicate and failing batches",
  "No test parses twice with the same environment.",
  [PAR, "environment/environment.go", "cmd/cddlc/commands/repl.go"], [("WithEnv option", "parser/parser.go NewParser, parseRule; environment/environment.go")],
  state=[("symbols", "definitions accumulated over the session", "environment/environment.go")],
  observe=["diagnostics per batch", "environment lookups"])

p("C16", "Results are deterministic and inputs are left untouched",
  """Tokenizing or parsing the same source always yields the same tokens, tree and diagnostic texts, also when many
  sources are processed concurrently. Neither ever modifies the caller's byte buffer, including capacity beyond its
  length, and later changes to that buffer never affect results already returned.""",
  ["inputs", "schedules"], "all sources and buffer layouts; concurrent mixes of sources",
  "Tests process one source at a time, once, in exactly sized buffers.",
  [LEX, PAR, "token/token.go"], [("per-instance state; read-only keyword table", "lexer/lexer.go NewLexer; parser/parser.go NewParser; token/token.go init")],
  observe=["repeated and concurrent runs; caller's buffer before and after"])

p("C17", "Walking a tree visits every node once, in order, balanced",
  """Walking the tree of any valid schema visits every node in it exactly once, parents before children, siblings in
  source order, and closes every visited node exactly once after its last child. Declining to descend into a node
  skips exactly that node's subtree, and no node of a parsed schema is refused.""",
  ["inputs", "programs"], "all trees of valid schemas, all descend/skip decisions",
  "The walker has no test at all.",
  ["ast/astutils/walk.go", "ast/"], [("type switch over node kinds", "ast/astutils/walk.go Walk")],
  observe=["sequence of Visit calls"])

p("C18", "Printed trees show every construct's own content",
  """Formatting any node of a valid schema succeeds, is deterministic, and shows for identifiers, integers, decimals,
  numeric type names, type choices, enumerations and groups the node's own kind, its own name, value or member count and its own
  line and column, nested in source order. The printed text is the same whether produced alone or as part of
  printing another tree before it.""",
  ["inputs", "programs"], "all nodes of all valid schemas",
  "The printer has no test.",
  ["ast/astutils/print.go"], [("printer.format dispatch", "ast/astutils/print.go")],
  observe=["astutils.Format", ":tree in the repl"])

p("C19", "The symbol table behaves as a write-once map",
  """After any sequence of additions and lookups, a symbol table reports a name as existing exactly if it was added,
  returns for it the first value added, refuses every later addition of that name without changing it, and returns
  nothing for other names. Separate tables never influence each other.""",
  ["histories"], "all sequences of add/exists/get over several tables",
  "Two tests make three additions in total.",
  ["environment/environment.go"], [("Add guarded by Exists", "environment/environment.go")],
  observe=["Add/Exists/Get results"])

p("C20", "Generated Go code always compiles",
  """For every schema whose rules are primitive types (perhaps limited in size), literals, references to types (without recursion), and arrays or groups of keyed, optional
  and embedded members under ordinary CDDL names (words joined by hyphens or underscores, Go's own keywords included), the
  generated Go file parses, type-checks and is already in gofmt form. Literals become correctly typed and quoted Go values.
  For any other valid schema, generation is refused or still yields Go that parses, with one declaration per rule. Writing
  the result again yields the same.""",
  ["inputs", "programs"], "all schemas of the generator's supported subset",
  "TestGen generates code for one rule and never looks at it.",
  ["transforms/codegen/golang/"], [("go/ast construction and go/format printing", "transforms/codegen/golang/gen.go, gen_grouped.go, gen_identifiers.go, gen_literals.go, gen_base_types.go")],
  observe=["text written by Generator.String, checked with go/parser and go/types"])

p("C21", "Generated Go declarations mirror the schema",
  """Generated code has, in schema order, one declaration per rule under the rule's camel-cased name: literals become
  variables with the same value, everything else a type with the Go counterpart of the CDDL type, and a validation
  method. Arrays and groups become structs whose fields correspond one to one, in order, by name, type and
  optionality, to the members, and only arrays carry the array-encoding marker. The validation method of a rule limited
  by `.size` checks against that very size.""",
  ["inputs", "programs"], "all schemas of the generator's supported subset",
  "TestGen does not inspect the output.",
  ["transforms/codegen/golang/"], [("transpileNode and helpers", "transforms/codegen/golang/gen_grouped.go, gen_identifiers.go, gen_literals.go, gen_base_types.go")],
  observe=["declarations in the text written by Generator.String"])

p("C22", "generate writes exactly one Go file per schema, where configured",
  """For every configuration and directory layout, `cddlc generate` writes for each build exactly one .go file per
  .cddl file of its source directory, named after it, in its output directory (created when missing), declaring the
  configured package and carrying the do-not-edit header, whatever else stands on the command line. Re-running it reproduces the same files, and no source or
  unrelated file is created, changed or removed.""",
  ["configurations", "inputs", "histories"], "all small project layouts: configs (JSON, YAML, none), several builds, mixed files, existing outputs",
  "The command has no test.",
  ["cmd/cddlc/commands/generate.go", "config/config.go"], [("loop over builds and directory entries", "cmd/cddlc/commands/generate.go GenerateCmd, generateFile, loadConfigFromDir")],
  observe=["file tree before and after running the cddlc binary"])

p("C23", "A failing generate reports it and destroys nothing",
  """When a schema has an error, or a source or output location is unusable, `cddlc generate` exits with a failure
  status and names the problem, for schema errors with the offending line and a marker under the offending column.
  Files generated earlier keep their previous content for the failing schema, also when writing the new content fails
  midway, and sources are never altered. Once the fault is repaired the same command succeeds.""",
  ["fault_sequences", "configurations", "inputs"], "all project layouts with one or more injected faults after zero or more successful runs",
  "The command has no test.",
  ["cmd/cddlc/commands/generate.go"], [("parse before write; error propagation to exit status", "cmd/cddlc/commands/generate.go generateFile, errorStringer; cmd/cddlc/main.go")],
  observe=["exit status, stderr and file tree of the cddlc binary"])

p("C24", "init never overwrites and produces a loadable default",
  """`cddlc init` creates a configuration file in the current directory only when none is there, and otherwise fails
  leaving it byte for byte unchanged; nothing else is touched. When it cannot write the file it fails and leaves no
  incomplete one behind. The file it creates loads back to the default configuration and `cddlc
  generate` accepts it.""",
  ["histories", "configurations"], "all sequences of init, edits of the config file and generate in one directory",
  "The command has no test.",
  ["cmd/cddlc/commands/init.go", "config/config.go"], [("existence check before create", "cmd/cddlc/commands/init.go getFileHandle")],
  observe=["exit status and file content"])

p("C25", "Configuration files load exactly what they say, JSON or YAML alike",
  """Any configuration (version, plugins, builds, options) written as cddlc.json or as cddlc.yaml loads back with the
  same values in the same order, both forms giving the same result. A missing, malformed or unrecognised file is an
  error, never a partly filled or default configuration, and plugin validation fails exactly when a plugin's local path is not a directory.
  The options of the generator are valid exactly when the case conversion they name is a known one, camelcase or snakecase.""",
  ["inputs", "configurations", "fault_sequences"], "all configurations and truncations/corruptions of their files",
  "The config package has no test.",
  ["config/config.go"], [("format chosen by base name; decoding errors returned", "config/config.go LoadConfig, Valid")],
  observe=["config.LoadConfig, Config.Valid"])

p("C26", "The lex and parse commands report what the library computes",
  """For every source file, `cddlc lex` prints the tokens of the source in order with line:column, kind and literal
  (a reserved word or operator is shown as its own spelling, never as another's), and fails exactly when an illegal character occurs. `cddlc parse` prints the tree as valid JSON carrying every name and value of
  the tree the library computes, and prints for each diagnostic its message, the offending source line and a marker under its column.
  A file that cannot be read is a failure for both.""",
  ["inputs"], "all source files, valid or not",
  "The commands have no test.",
  ["cmd/cddlc/commands.go", "parser/diagnostic.go"], [("LexerCmd, ParseCmd, errorStringer", "cmd/cddlc/commands.go")],
  observe=["stdout, stderr and exit status of the cddlc binary"])

p("C27", "A repl session remembers definitions and survives any line",
  """In an interactive session every accepted definition stays available to all later lines: references to it resolve,
  redefining it is reported and leaves it unchanged, and :tree prints it. No input line - malformed, empty,
  incomplete, a command in any order or with any arguments - ends or corrupts the session other than :exit.""",
  ["histories", "inputs"], "all sequences of definitions, references, malformed lines and commands",
  "The repl has no test.",
  ["cmd/cddlc/commands/repl.go", "environment/environment.go"], [("one environment shared by per-line parsers", "cmd/cddlc/commands/repl.go Repl")],
  observe=["stdout and exit status of `cddlc qrepl`"])

p("C28", "Numeric range validators agree with arithmetic for every number type",
  """The inclusive range check is true exactly when lower <= value <= upper, the exclusive one exactly when lower <
  value < upper, and the less-than and greater-than checks exactly when the strict comparison holds, for every
  integer and floating-point type, including extreme values, equal bounds, inverted bounds, infinities and NaN.""",
  ["inputs"], "all triples of values over all numeric types",
  "The validators have no test.",
  ["runtime/validators/validators.go"], [("generic comparisons", "runtime/validators/validators.go")],
  observe=["return values"])

p("C29", "Size and pattern validators measure the value itself",
  """The size check is true exactly when the value occupies fewer bytes than the limit: the machine size for numbers
  and booleans, the content length for text and byte strings, also behind a pointer. The pattern check is true exactly when the
  regular expression matches the text, and the must-helpers panic exactly on false and on non-nil errors.""",
  ["inputs"], "all values of the mapped Go types, limits around the size, patterns and texts",
  "The validators have no test.",
  ["runtime/validators/validators.go"], [("reflection on the value", "runtime/validators/validators.go CheckSize, RegexpMatches, Must*")],
  observe=["return values and panics"])

p("C30", "Diagnostics point at the fault and say so",
  """Every diagnostic's start lies inside the source, on an existing line at an existing column, and its rendered text
  names exactly that line and column. When a single fault is injected into a valid schema - an illegal character, a stray or mismatched
  delimiter, a missing operand, an undefined or redefined name, a wrong operand - the first reported diagnostic points at the faulty token or name,
  not at an unrelated place. In any broken source the first diagnostic stands no later than the first token with which no
  schema can continue. Of many one-line rules, some of them faulty, each faulty one is reported on its own line, in the
  same way wherever it stands, and no other is.""",
  ["inputs", "programs"], "all valid schemas with one injected fault, all positions and layouts",
  "Two range tests state expected positions, but the comparison is skipped unless error counts match.",
  [PAR, "parser/diagnostic.go", "token/position.go"], [("positions captured from tokens/nodes", "parser/parser.go error*; parser/diagnostic.go"), ("rendering", "token/position.go PositionRange.String")],
  observe=["Start(), End(), Diagnostic() of every diagnostic"])

p("C31", "Every node ends where its text ends",
  """In the tree of every valid schema the end of each leaf - name, key, literal, primitive type, bound, tag number, comment - is its last
  character or the position right behind it, as line, column and offset; every larger construct ends where its last
  part does, a collection or tag content at the latest right behind its closing delimiter. The end of a diagnostic never precedes
  its start, and its rendered text names that end.""",
  ["inputs", "programs"], "all valid schemas in all layouts, all nodes; all diagnostics",
  "No test looks at End.",
  ["ast/", PAR, "parser/diagnostic.go", "token/position.go"], [("ends computed from spelling lengths and from the last part of a construct", "ast/*.go End; token/position.go To, PositionRange.String; parser/diagnostic.go")],
  observe=["End() of every node and diagnostic"])

ids = [x["id"] for x in P]
assert len(set(ids)) == len(ids)
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
