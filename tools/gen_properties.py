#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is this script's output)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = "kfparser/visitor.go"; PR = "kfparser/parser.go"; VA = "schema/validator.go"; G = "kfgrammar/kuneiform_parser.go"; L = "kfgrammar/kuneiform_lexer.go"
S = "schema/schema.go"; T = "schema/types.go"; E = "utils/error_listener.go"; A = "utils/annotation.go"; C = "cmd/root.go"; W = "wasm/wasm.go"

p("C01", "The schema records exactly the tables the source declares",
  "For every accepted source, the resulting schema contains the declared tables in source order, each with exactly its columns (name, type, constraints with their literal argument text), indexes (name without '#', kind, columns) and foreign keys (child columns, parent table, parent columns, update/delete rules), in source order. Nothing is dropped, invented, reordered, or attached to the wrong table, column or key, however many of each are declared.",
  ["programs"], "every combination of tables, column types, constraint lists, index definitions and foreign keys, in every order and number",
  "The tests compare some 40 hand-written sources, nearly all with one table, one or two columns and at most two indexes/keys; the guarantee is over all combinations, orders and list lengths.",
  [V, G, S], [("VisitTable_decl / VisitColumn_def / VisitColumn_constraint / VisitIndex_def / VisitForeign_key_def", V), ("generated table_decl, column_def, index_def, foreign_key_def rules", G)],
  observe=["kfparser.Parse result", "CLI output file"])
p("C02", "Action headers are recorded exactly, with the documented defaults",
  "For every accepted source, each declared action appears once, in source order, with its name, its parameters in order (including '$'), and its annotations in order and without the leading '@'. It is public only if declared public (otherwise private), 'view' only if declared view (otherwise 'update'), and carries the owner restriction only if declared owner; the order of the modifiers is irrelevant and modifiers never leak from one action to another.",
  ["programs"], "every sequence of actions, parameter lists, annotations and modifier orders",
  "Visibility, mutability and owner-only are access-control facts; tests cover a handful of single-action sources, not orders, multiplicities or interactions between neighbouring actions.",
  [V, G, S], [("VisitAction_decl / VisitAction_attr_list / VisitParam_list / VisitAnnotation_decl", V)],
  observe=["kfparser.Parse result"])
p("C03", "Action bodies keep every statement, in order, with its meaning",
  "For every accepted source, an action's statement list has one entry per statement of its body, in source order. An SQL statement is recorded verbatim (its text up to and including the semicolon, comments and spacing included); a call statement is recorded as text that reads back as the same receivers, target and argument expressions as were written.",
  ["programs"], "every action body: every mix and number of SQL and call statements, SQL texts, receiver lists and argument expressions",
  "The recorded text is what the engine later executes. Tests compare about ten bodies; whether joining tokens changes the meaning depends on every pair of adjacent tokens in an argument expression.",
  [V, G], [("VisitAction_stmt_list / VisitAction_stmt", V)],
  observe=["kfparser.Parse result"])
p("C04", "init becomes one private update action, placed last",
  "If and only if the source declares init, the schema has exactly one action named 'init'; it is private, of mutability update, without parameters, annotations or auxiliaries, holds exactly the init body, and follows all declared actions wherever init stood in the source. A source with more than one init is rejected with the 'more than one init' error.",
  ["programs"], "every position and number of init declarations among tables and actions",
  "Two tests have an init, both at the end of the source.",
  [V], [("VisitSource_unit / VisitInit_decl", V)], observe=["kfparser.Parse result"])
p("C05", "Extension directives are recorded exactly",
  "For every accepted source, the schema lists the used extensions in source order with name, alias and configuration entries (key and literal value text, strings with their quotes) exactly as written, in order and with none attached to another extension.",
  ["programs"], "every number of extension directives, with and without configuration, every configuration list and literal",
  "Tests use one extension with the same two-entry configuration throughout.",
  [V, G], [("VisitExtension_directive / VisitExt_config_list", V)], observe=["kfparser.Parse result"])
p("C06", "Exactly the language's syntax is accepted",
  "A source that does not conform to the language grammar never yields a schema and is reported as a syntax error; a source that conforms is never reported as a syntax error. This holds wherever in the source the deviation (a missing, extra or wrong token) occurs.",
  ["inputs", "programs"], "every token sequence: every reachable grammar position and every token that can or cannot follow it",
  "Tests contain eight syntactically invalid sources; acceptance is decided by a generated parser with error recovery, over some 80 token kinds and hundreds of positions.",
  [G, L, PR, E], [("generated rules + ATN prediction", G), ("error listener is consulted before a tree is visited", PR)], observe=["kfparser.ParseKF error"])
p("C07", "Layout and comments never change the meaning",
  "Outside SQL text and string literals, adding, removing or changing spaces, tabs, newlines (LF, CR, CRLF), line comments or block comments between tokens never changes the resulting schema or whether the source is accepted. Comment-like text inside string literals is never treated as a comment.",
  ["programs"], "every gap between two tokens of every program, every kind of separator",
  "Tests use ordinary spaces and newlines only; there is no test with a comment.",
  [L, V], [("WS/TERMINATOR/BLOCK_COMMENT/LINE_COMMENT on the hidden channel", L), ("text is rebuilt from tokens", V)], observe=["kfparser.Parse result"])
p("C08", "Names are taken whole; keywords are reserved and case-sensitive",
  "Every name that starts with a letter and continues with letters, digits or underscores, other than a reserved word, is accepted in every naming position and recorded unchanged, including its letter case, its length and any reserved word it merely contains; two names differing only in case are different names. Reserved words, and names that do not have this form, are rejected wherever a name is expected. Behind '$', '#' or '@' any word of that form is a name, reserved words included.",
  ["inputs"], "every identifier spelling (bounded length) in every naming position; every reserved word and its case variants and extensions",
  "Tests check four reserved words in four positions.",
  [L, G, V, VA], [("IDENTIFIER vs keyword rules, longest match", L)], observe=["kfparser.Parse result and error"])
p("C09", "Duplicate declarations are rejected, and only duplicates",
  "A source is rejected with the matching duplicate error if two tables, two actions, two extension aliases, two columns or two indexes of one table (columns and indexes of a table share one namespace), two constraints of the same kind on one column, two parameters of one action, two rules for the same event on one foreign key, or two receivers of one extension call coincide, wherever the two stand. Equal names in different namespaces, tables, actions, keys or statements are never treated as duplicates.",
  ["programs"], "every list of declarations of each kind, every pair of positions holding the duplicate, every cross-namespace coincidence",
  "Each kind has one test with two adjacent duplicates.",
  [VA], [("VisitSchema / VisitTable / VisitColumn / VisitForeignKey / VisitAction / visitActions", VA)], state=[("tableCtx/actionCtx/extCtx", "names seen so far", VA)], observe=["kfparser.Parse error"])
p("C10", "Indexes and foreign keys only reference existing tables and columns",
  "No schema is produced in which an index names anything but columns of its own table, or a foreign key has a child key that is not a column of its own table, a parent table that is not declared, or a parent key that is not a column of that parent table; such sources get the table-not-found or column-not-found error. References to the table itself and to tables declared earlier or later are accepted.",
  ["programs"], "every arrangement of tables, columns, index names, indexes and foreign keys, including forward and self references and any position in the column lists",
  "Four tests each check one dangling reference in first position.",
  [VA], [("VisitIndex / VisitForeignKey / second pass of VisitSchema", VA)], state=[("tableCtx", "table -> declared names", VA)], observe=["kfparser.Parse error"])
p("C11", "Value and length bounds only apply to column types that have them",
  "An int column with a minlen or maxlen constraint and a text column with a min or max constraint are rejected with the attribute-not-allowed error, whatever other constraints the column has and wherever in the list they stand; every other combination of distinct constraints and types is accepted.",
  ["programs"], "every column type with every list of constraints, at any column position",
  "Four tests check a column with a single forbidden constraint.",
  [VA], [("VisitColumn", VA)], observe=["kfparser.Parse error"])
p("C12", "Calls only target declared actions and extension aliases",
  "A call statement is accepted only if its target is an action declared anywhere in the same source, or its extension part is an alias (not merely an extension name) of a used extension; otherwise the source is rejected with the action-not-found or extension-not-found error. Forward calls, self calls and calls from init are accepted; names must match exactly.",
  ["programs"], "every call graph over declared, undeclared and differently-cased targets; every position of the call in a body, action or init",
  "Two tests check one unresolved call each.",
  [VA], [("visitActions", VA)], state=[("actionCtx/extCtx", "declared targets", VA)], observe=["kfparser.Parse error"])
p("C13", "Variables passed to calls are defined before use",
  "A source is rejected with the variable-not-found error if any call argument, at any depth of its expression, mentions a '$' variable that is neither a parameter of the same action nor received from an extension call earlier in the same body, or an '@' variable other than @caller; otherwise it is not rejected for that reason. Variables of one action are never visible in another.",
  ["programs", "histories"], "every sequence of call statements with receivers and argument expressions, across several actions",
  "Four tests check one undefined variable passed directly; definition-before-use is a property of statement histories and expression shapes.",
  [VA], [("checkArgRef and the per-action set of local variables", VA)], state=[("localCtx", "variables defined so far in the action", VA)], observe=["kfparser.Parse error"])
p("C14", "Every SQL statement of every action is vetted",
  "No schema is produced containing an SQL statement that the SQL checker rejects, including the documented forbidden functions, keywords, joins and DDL statements, whichever action (or init) and whichever position it stands in; conversely a source is not rejected on account of SQL that the checker accepts.",
  ["programs"], "every body position, number of statements and actions, every statement of the SQL alphabet (valid, malformed, forbidden), SQL keywords in any case",
  "Every SQL statement in the tests is valid; no test puts a forbidden or malformed statement in a body.",
  [VA, V], [("visitActions calls the action parser, the SQL parser and its printer for every statement", VA)], observe=["kfparser.Parse error"])
p("C15", "Each action modifier may be given at most once",
  "An action declaring visibility twice (same or different), mutability twice, or the same auxiliary twice is rejected with the corresponding already-specified error, wherever the modifiers stand and whatever stands between them; every other combination of modifiers is accepted.",
  ["programs"], "every sequence of modifiers of bounded length, on any action",
  "Four tests check one sequence each.",
  [V], [("VisitAction_attr_list", V)], observe=["kfparser.Parse error"])
p("C16", "Parsing any text terminates with a schema or an error, never a panic",
  "For every input string whatsoever, parsing returns: either a usable schema and no error, or a non-empty error. It never panics, never hangs, and never returns neither or reports success without a schema.",
  ["inputs"], "every string: arbitrary bytes, truncations, splices and corruptions of valid sources",
  "Tests feed about 85 well-chosen strings; the visitor relies on tree shapes that only hold for error-free trees.",
  [PR, V, G, E], [("recover in ParseKF; error listener checked before visiting", PR)], observe=["kfparser.Parse result"])
p("C17", "A rejection names the real cause, at its real place",
  "The error returned for a rejected source identifies (via the exported error values) a rule that the source really breaks, never one it satisfies. A syntax error reports the line and column of the first token at which the source stops being a beginning of a valid source (or of an unrecognisable character that ends the valid beginning or directly follows that token).",
  ["inputs", "programs"], "every single-token corruption at every grammar position, on any line; every single rule violation",
  "Tests check the error class of about 30 sources and never look at line or column.",
  [E, PR, VA, "schema/errors.go"], [("SyntaxError listener formats line:column", E), ("sentinel errors wrapped with %w", VA), ("Unwrap yields the first error", E)], observe=["error text", "errors.Is"])
p("C18", "A parse depends only on its input, not on earlier parses",
  "Parsing the same text gives the same result every time, whatever was parsed before in the same process, successfully or not, and whatever callers did with earlier results; earlier results are not altered by later parses.",
  ["histories"], "every sequence of parses (accepted, rejected at any stage) up to a bounded length, with callers modifying returned schemas in between",
  "Every test parses once and looks only at that result.",
  [PR, V, VA, E, G], [("fresh listener, lexer, parser, visitor and validator per call; shared static tables and prediction cache of the generated parser", PR)], state=[("generated static data", "ATN, DFA and prediction caches shared by all parses", G)], observe=["kfparser.Parse result"])
p("C19", "Concurrent parses do not interfere",
  "When several goroutines parse at the same time, each gets exactly the result it would get alone, under every interleaving, without data races or deadlock.",
  ["schedules"], "every interleaving of two or three concurrent parses up to a preemption bound",
  "All tests are sequential.",
  [PR, V, VA, E, A, G], [("no mutable package state in the parser, visitor, validator; generated static data initialised once", PR)], state=[("generated static data", "shared by all parsers", G)], observe=["kfparser.Parse results of concurrent callers"],
  hook="statement-level scheduling points are inserted by a build-time overlay; no hook is committed in /repo")
p("C20", "The JSON form is lossless and has the documented shape",
  "Serialising a schema (or any of its parts) gives JSON whose keys and nesting follow the documented field names, in which every value (any valid Unicode string content included) decodes back to the value that was serialised, and which is the same on every call. Decoding the JSON of a schema into a schema yields an equal schema.",
  ["inputs"], "every schema value, with every field empty, single or multiple and any string content",
  "No test serialises anything, though the JSON file is the only product users deploy.",
  [S], [("astMarshal and the json tags", S)], observe=["ToJSON output"])
p("C21", "A successful compile leaves exactly the schema's JSON in the output file",
  "When the command is given an input file (and neither the version nor the help option) and exits 0, the file <output dir>/<input base name without extension>.json holds exactly the JSON of that input's schema, whatever the file held before and whatever was compiled before, the output directory is created if needed, and no other file is changed. Exit status 0 is given if and only if the input was compiled; each kind of failure has its documented exit status.",
  ["histories", "configurations"], "every sequence of compiles over a set of inputs and output locations; every previous content of the output; every input name shape",
  "There is no test of the command at all.",
  [C], [("rootCmd.Run, writeToFile", C)], observe=["exit status", "output file"])
p("C22", "The command never reports success when the output could not be stored",
  "If storing the output fails at any point (file cannot be created or opened, storage fills up after any number of bytes, write or close fails), the command exits with a non-zero status and does not print its success message.",
  ["fault_sequences"], "every byte count after which storage is exhausted; every failing storage operation",
  "No test injects a storage failure.",
  [C], [("error returns of writeToFile", C)], observe=["exit status", "stderr", "output file"])
p("C23", "A failed compile never touches existing output files",
  "When an input file is missing, unreadable or rejected, the command exits non-zero and every file already in the output directory, in particular the result of an earlier successful compile of the same input, keeps its content; no new output file appears.",
  ["histories"], "every sequence of compiles of valid and invalid inputs, every stage of failure",
  "No test of the command.",
  [C], [("parse and serialise before the output is opened", C)], observe=["output directory"])
p("C24", "The browser binding agrees with the library",
  "For every input text, the function exported to JavaScript returns the same JSON as the library with no error, or an error carrying the library's message and no JSON when the library rejects the input; it keeps working after any failed call, and a call with a wrong number of arguments is answered with a message, without disturbing later calls.",
  ["inputs", "histories"], "every input of the shared alphabet, and every sequence of good, bad and malformed calls up to a bounded length",
  "The wasm package has no tests; it is excluded from ./... by build constraints.",
  [W], [("parseWrapper / parse", W)], observe=["globalThis.parseKuneiform"])
p("C25", "Recorded annotations decode to what was written",
  "For every annotation accepted on an action, decoding the recorded annotation text yields the written target and exactly the written attributes, in order, with names and literal values (strings with their quotes and any content, escapes included) unchanged.",
  ["programs", "inputs"], "every annotation: number of attributes, every literal including strings containing quotes, commas, parentheses, equals signs, escapes and newlines",
  "Seven tests decode hand-written annotation strings without special characters; none goes through the parser.",
  [A, V], [("annotation regular expression", A), ("VisitAnnotation_decl", V)], observe=["utils.ParseAnnotation"])
p("C26", "Type names resolve exactly to the types the parser assigns",
  "The lookup of a column type, constraint or index kind by its source keyword, in any letter case, returns the same type that the parser records for that keyword; any word other than these keywords (and null, which names the null type) is answered with an error and never with a type.",
  ["inputs"], "every keyword in every letter-case variant and every near miss",
  "No test calls the lookups.",
  [T, V], [("columnTypes, attributeTypes, indexTypes maps", T)], observe=["schema.GetColumnType, GetAttributeType, GetIndexType"])
p("C27", "Trace mode changes diagnostics only",
  "Parsing with trace enabled gives the same schema or the same error as without it, for every input; the command's trace option turns tracing on and produces the same output file and exit status.",
  ["inputs", "configurations"], "every input of the shared alphabet, both modes",
  "Trace mode is only reachable through a test flag that is off by default.",
  [PR, V, C], [("Mode flag", PR), ("--trace flag", C)], observe=["kfparser.ParseKF", "exit status", "output file"])
p("C28", "Validating a schema value is pure and agrees with compiling its source",
  "Validating a schema that was built or decoded by a program gives the same verdict as compiling a source that declares the same things, gives the same verdict every time with a fresh validator, and never modifies the schema. Every schema produced by a successful parse, and the decoded JSON of it, validates again.",
  ["programs", "histories"], "every schema value of the validation models, validated directly, repeatedly, and after a JSON round trip",
  "No test validates a schema value directly.",
  [VA, S], [("Schema.Accept with a fresh context validator", S)], observe=["schema.Schema.Accept"])
p("C29", "The caller's error listener receives each problem exactly once",
  "When the caller supplies an error listener, after a rejected parse it holds every reported problem exactly once in order of discovery and the returned error is that list; after an accepted parse it is empty. The list's text shows the first problem and the number of further ones.",
  ["inputs"], "every rejected source, with one or several problems, rejected at any stage",
  "No test passes a listener or looks at the list.",
  [PR, E], [("deferred error handling in ParseKF", PR), ("ErrorList", E)], observe=["utils.ErrorListener"])
p("C30", "Declaration order only affects output order",
  "Reordering the table, action and init declarations of a source, or the extension directives, never changes whether the source is accepted; the resulting schemas contain the same tables, actions and extensions, in the order declared.",
  ["programs"], "every permutation of the declarations of a source",
  "Every test source is given in one order only.",
  [V, VA], [("two-pass validation", VA), ("VisitSource_unit", V)], observe=["kfparser.Parse result"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
