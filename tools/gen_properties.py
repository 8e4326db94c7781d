#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or ["HDDLAnalyzer::verify", "HDDLAnalyzer::to_json", "HDDLAnalyzer::get_metadata"],
                    "hook_needed": None}})

LEX="src/lexical_analyzer/tokenizer.rs"; PAR="src/syntactic_analyzer/parser.rs"
DP="src/syntactic_analyzer/domain_parser"; PP="src/syntactic_analyzer/problem_parser"
TREE="src/syntactic_analyzer/syntax_tree"
DA="src/semantic_analyzer/analyzers/domain_analyzer.rs"; PA="src/semantic_analyzer/analyzers/problem_analyzer.rs"
GT="src/semantic_analyzer/type_checker/generic_type_checker.rs"; DT="src/semantic_analyzer/type_checker/domain_type_checker.rs"
PT="src/semantic_analyzer/type_checker/problem_type_checker.rs"; UE="src/semantic_analyzer/undefined_elements.rs"
TDG="src/semantic_analyzer/tdg.rs"; OUT="src/output"; LSP="src/language_server/request_handler.rs"; DIAG="src/language_server/diagnostic_utils.rs"
CLI="src/bin/hddl_analyzer/main.rs"

prop("C01","Every input gets an answer: no panic, abort or hang",
 "Whatever bytes are given as domain file and as problem file (truncated, not UTF-8, the wrong kind of file, semantically broken), verifying, computing metadata and converting to JSON each come back with a result or with an error whose message can be printed. They never panic, never abort the process and never run without end.",
 ["inputs"], "all byte strings as domain and as problem content, for each of the three library operations",
 "The unit tests feed a few dozen well-formed or once-flawed documents; no test feeds truncated input, non-UTF-8 bytes, end of file inside a token or a file of the wrong kind.",
 ["src/lib.rs",LEX,PAR,DP,PP,UE,TDG,OUT],
 [("end-of-input and byte handling of the lexer",LEX),("error paths of the parser",PAR),("fixpoint loops over the task graph",TDG),("rendering of errors",OUT+"/errors")])

prop("C02","Layout, comments and line ends do not change the meaning",
 "Between two tokens any mixture of spaces, tabs, carriage returns, newlines and ';' comments (and, next to a parenthesis, nothing at all) is interchangeable, and so is what follows the last token up to the end of the file, with or without a final newline. Changing it changes neither acceptance, nor which error or warnings are reported, nor the JSON tree, except that every reported line number moves with the token it belongs to.",
 ["inputs"], "all documents x all choices of separator at every token gap",
 "The tests use one layout per document; line numbers are asserted at a handful of places and no test ends a file inside a comment or directly after a token.",
 [LEX,PAR], [("whitespace and comment skipping, line counting",LEX),("lexeme boundaries",LEX)],
 [{"name":"last_token_pos","meaning":"line of the token read last","where":LEX},{"name":"cursor","meaning":"next unread byte","where":LEX}])

prop("C03","A document is accepted iff it is in the supported HDDL grammar",
 "Parsing a domain or problem succeeds exactly when the complete token sequence of the file derives from the supported HDDL grammar. In particular parentheses must balance (as the one leniency, the last one of a problem may be missing and surplus closing ones at the very end of a file are tolerated), every section must be closed where it ends, a problem has at most one initial task network and one goal, formulas nested deeper than 128 levels are refused, and nothing in the file is skipped unread.",
 ["inputs"], "all token sequences, as domain and as problem",
 "Tests parse some 40 hand-written documents and accepted IPC files; rejection is tested for a dozen fixed mistakes, and nothing tests that text after an early close is still read.",
 [LEX,PAR,DP,PP], [("recursive descent per section",DP),("problem sections and task networks",PP),("keyword and operator tables",LEX)])

prop("C04","Lexical and syntax errors name the first offending token's line",
 "When a document is not lexically or grammatically valid, the error carries the line of the first token at which the text read so far can no longer be continued to a valid document, it is a lexical error if that token is malformed and a syntax error otherwise, and it names that token. A file of the other kind (a problem given as domain, or the reverse) is a syntax error at the keyword that says its kind.",
 ["inputs"], "all invalid documents, wherever the first mistake is and however the lines are laid out",
 "Five tests assert a line for one fixed mistake each.",
 [LEX,PAR,DP,PP,OUT+"/errors/syntactic.rs",OUT+"/errors/lexical.rs"], [("position of the last token read",LEX),("SyntacticError construction at every parse function",DP)])

prop("C05","The JSON output is a complete and faithful tree of the files",
 "For every grammatical domain (and problem) the JSON output contains each declared requirement, type, constant, predicate, function, task, method, action, object, init fact, goal and task network exactly once, in source order, with the names, types, argument lists, formula structure, orderings, constraints and line numbers written in the file, and nothing else.",
 ["inputs"], "all grammatical domains and problems",
 "No test looks at the JSON output at all; syntax tests look at single fields of a few trees.",
 ["src/lib.rs",DP,PP,TREE], [("tree construction",DP),("list parser distributing a type over the names before it",PP+"/list_parser.rs"),("serialisation",TREE)])

prop("C06","Undefined predicates, types, tasks, parameters, objects are reported",
 "A domain or problem that uses a predicate, type, task, subtask, parameter or object that is declared nowhere in its scope is rejected, naming that symbol as undefined of its kind when nothing else is wrong; and a document in which every used name is declared is never rejected for an undefined name. (A name with and without its question mark is the same name.) Inside quantifiers only predicate names (and their number of arguments) are checked; terms of equalities and of network constraints are not looked up.",
 ["inputs"], "all domains and problems; every place a name can be used",
 "The tests try one undefined name per kind in one place; the places (which connective, which section, with or without typing, with or without formulas) multiply.",
 [DA,PA,UE,DT,PT,GT], [("predicate declaration check over formulas",UE),("parameter and constant lookup",DT),("object lookup",PT),("type declaration check",GT)])

prop("C07","Duplicate declarations are reported, and only duplicates are",
 "Declaring the same requirement, constant, predicate, compound task, action or method twice in a domain, the same parameter twice in one action or method, or the same object twice in a problem is always rejected: when nothing else is wrong as that kind of duplicate, with the repeated name and the lines of its first and second declaration. An object named like a constant of its domain is left open. Documents without such repetition are never rejected as duplicates.",
 ["inputs"], "all numbers and positions of declarations and all pairs that collide",
 "Tests use two or three declarations with the collision in one fixed place.",
 [DA,PA,TREE+"/nodes"], [("sets keyed by name",DA),("equality and hash by name",TREE+"/nodes"),("object table",PA)])

prop("C08","Arity and argument types are enforced along the type hierarchy",
 "Outside quantifiers, every use of a predicate, action or compound task in a domain is accepted exactly when it has the declared number of arguments and each argument's declared type is the expected type or a direct or indirect subtype of it (an untyped argument only where no type is expected, and the reverse). Any other use is rejected as an arity or type inconsistency of that symbol.",
 ["inputs"], "all acyclic type hierarchies x argument types x expected types x places of use",
 "Tests try a few fixed hierarchies and one wrong argument each; subtype paths of other shapes and lengths are not reached.",
 [GT,DT,DA,UE], [("subtype test as path in the type graph",GT),("predicate instantiation",DT),("task instantiation",DT)])

prop("C09","A type hierarchy is rejected iff it is cyclic",
 "A domain is rejected with a cyclic-type error if and only if some type is, directly or through a chain of declarations, its own supertype.",
 ["inputs"], "all type declaration graphs, all declaration orders",
 "Tests have a direct and one indirect cycle.", [GT,DA], [("topological sort of the type graph",GT)])

prop("C10","A task network's ordering is rejected iff it is cyclic",
 "A method or an initial task network is rejected with a cyclic-ordering error if and only if its ordering constraints, taken together over all ordering blocks of that network, contain a cycle; the error carries the line of that network's ordering declaration.",
 ["inputs"], "all ordering relations over the subtasks, in methods and in the initial task network, however written",
 "Tests have three fixed orderings.", [TREE+"/nodes/htn.rs",PP+"/init_tn_parser.rs",DA,PA], [("topological sort of the ordering graph",TREE+"/nodes/htn.rs"),("ordering block parsing",PP+"/init_tn_parser.rs")])

prop("C11","A problem is checked completely against its domain",
 "A problem is accepted with a valid domain exactly when its objects are unique and of declared types, every init and goal atom and every initial subtask names a declared predicate or task with the declared arity, and every argument is a declared object, domain constant or (in the initial network) parameter whose type is the expected type or a subtype. Otherwise it is rejected with an error of the matching kind. (Objects, constants and network parameters that share a name are left open.)",
 ["inputs"], "all pairs of a valid domain and a problem", 
 "Tests combine one small domain with about ten problems, each with one mistake.",
 [PA,PT], [("predicate instantiation over objects and constants",PT),("initial subtask instantiation",PT),("object table",PA)])

prop("C12","Every reported semantic error is true: kind, symbol, line, numbers",
 "Whenever a document is rejected with a semantic error, that very defect is in the document: the error kind, the named symbol, the line of the offending occurrence (for duplicates both lines), the expected and found number of arguments and the expected and found type are the ones in the text, and the printed message contains them. This holds also when several defects are present, whichever is reported.",
 ["inputs"], "all documents with one or several semantic defects",
 "Tests assert some fields of some errors for single defects.",
 [DA,PA,UE,DT,PT,OUT+"/errors/semantic.rs"], [("error construction at each check",DA),("message rendering",OUT+"/errors/semantic.rs")])

prop("C13","The order of declarations does not matter",
 "Permuting the sections of a domain or problem, and the declarations within them, changes neither acceptance nor the set of warnings nor the metadata (the counts, the set of nullable tasks, the recursion class; another cycle of that class may be shown); for the error that is reported it can only decide which of several present defects is named.",
 ["inputs"], "all permutations of the sections and declarations of all documents",
 "Each test uses one order.", [DA,PA,DP,PP,TDG], [("collection of all sections before analysis",DP+"/router.rs"),("problem sections",PP+"/router.rs")])

prop("C14","Consistently renaming identifiers changes nothing but the names",
 "Replacing the names in a document by other distinct legal names (longer, shorter, prefixes of each other, differing in case only, containing digits, dashes, underscores or keywords) leaves acceptance, error kind and line, warnings, nullable tasks and recursion class unchanged up to the same replacement.",
 ["inputs"], "all documents x all injective renamings",
 "Each test uses one set of names.", [LEX,DA,TDG,TREE+"/nodes"], [("name comparison and hashing",TREE+"/nodes"),("keyword recognition against identifiers",LEX)])

prop("C15","A compound task is flagged iff it has no primitive refinement",
 "For every accepted domain the warnings name exactly those compound tasks that cannot be decomposed, by any finite sequence of method applications, into a (possibly empty) network of actions, each once and with the line of its declaration. A problem verified with that domain reports the same warnings. (Domains that give an action and a compound task the same name are left open, here and below.)",
 ["inputs"], "all task decomposition graphs",
 "Two tests and two flawed domains with one flagged task each.", [TDG,DA,OUT+"/warnings.rs"], [("reachability and nullability over the task decomposition graph",TDG),("warning construction",DA)])

prop("C16","Nullable tasks and metadata counts are exact",
 "For every valid domain the metadata lists exactly the compound tasks that can be decomposed into the empty task network, each once, and reports the exact numbers of declared actions, compound tasks and methods.",
 ["inputs"], "all task decomposition graphs", "One test of one graph; hash order differs from run to run.", [TDG,"src/lib.rs",OUT+"/metadata.rs"], [("nullable fixpoint",TDG)])

prop("C17","The recursion class is right and its witness cycle is real",
 "For every valid domain the metadata says non-recursive exactly when no compound task can reach itself by decomposition; otherwise it reports the strongest class present among all decomposition cycles (grow-and-shrink over empty over growing-empty-prefix over plain recursion, judged by whether the tasks ordered before the recursive occurrence are all nullable and whether other tasks remain and are all nullable). The printed cycle is a real cycle of tasks and methods of the domain of that class.",
 ["inputs"], "all task decomposition graphs with totally and partially ordered methods",
 "Seven tests of seven graphs, one partially ordered.", [TDG,OUT+"/metadata.rs"], [("cycle search",TDG),("prefix and suffix of an occurrence",TDG)])

prop("C18","Same input, same output: no dependence on hashing or history",
 "Verifying, computing metadata and converting to JSON are functions of the file contents: repeated in one process, in another thread or process, after any other inputs, they give byte-identical results, including the order of warnings, of nullable tasks and of JSON keys and the cycle shown.",
 ["inputs","schedules","histories"], "all inputs x all hash seeds x all preceding calls",
 "A test runs each input once with one random hash seed.", ["src/lib.rs",TDG,DA,OUT+"/metadata.rs"], [("iteration order of collections that reach the output",TDG),("warning order",DA),("JSON root",  "src/lib.rs")])

prop("C19","The language server diagnoses the latest text of each document",
 "After any sequence of open, change and save notifications over several documents, a diagnostic request is answered for the text that the last notification before it gave that document, however the handling of the messages is interleaved; other documents' messages never influence it, and a document no notification gave a text is answered with an error. A change gives the text of its last content change; a save without text gives none (the file on disk may be taken if nothing gave a text so far).",
 ["histories","schedules"], "all sequences of notifications and requests up to a bound x all interleavings of their handlers",
 "No test runs the language server.", [LSP], [("document store behind a reader-writer lock",LSP)],
 [{"name":"documents","meaning":"latest text per URI","where":LSP}], ["textDocument/diagnostic response of RequestHandler through LspService"])

prop("C20","Language server diagnostics agree with the analyzer",
 "For a domain document, and for a problem document with a domain file (.hddl or .pddl) in its folder on disk, the diagnostics contain an error exactly when the analyzer rejects that document (with that domain), with the same message and on the line (counted from zero) the analyzer reports; accepted documents get no diagnostics. Duplicates are placed on their second declaration; duplicate requirements and cyclic types have no line. A broken domain's error is shown on its problem, too. A problem without a domain in its folder gets its lexical and syntax errors only, a text that is neither gets none.",
 ["inputs","configurations"], "all document contents x folder contents", "No test runs the language server.", [DIAG,LSP,PAR], [("file classification",PAR),("conversion of errors to diagnostics",DIAG),("search for the domain file",LSP)],
 None, ["textDocument/diagnostic response"])

prop("C21","No message sequence brings the language server down",
 "After any sequence of lifecycle, open, change, save and diagnostic messages, with any document text, any kind of URI and any state of the folder on disk (missing, no domain, unreadable or broken files), every request is answered and the server keeps serving the next one correctly.",
 ["histories","inputs","fault_sequences"], "all message sequences up to a bound x texts x URIs x folder states", "No test runs the language server.", [LSP,DIAG], [("handlers",LSP),("conversion of errors to diagnostics",DIAG)],
 None, ["responses of the server process over stdio and of RequestHandler in process"])

prop("C22","The command line reports exactly what the analyzer found",
 "verify prints each warning and then an Ok line if and only if the files are valid and otherwise the error; metadata and to_json print exactly the analyzer's result (to_json with an output file writes it to exactly that file, relative to the working directory, and nowhere else); a file that cannot be read or analysed yields an error message on standard error, an untouched output file and no panic.",
 ["inputs","configurations"], "all commands x option combinations x file contents and file states", "No test runs the binaries.", [CLI,"src/bin/hddl_analyzer/cli_args.rs"], [("command dispatch",CLI)],
 None, ["stdout, stderr, exit status and files of the hddl_analyzer binary"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P), "properties")
