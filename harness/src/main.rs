mod checks;
mod docs;
mod engine;
mod feat;
mod lspsim;
mod model;
mod oracle;
mod subject;

use engine::*;
use std::path::PathBuf;

struct Check {
    id: &'static str,
    run: fn(&mut Ctx),
    rule: &'static str,
    bounds: &'static str,
}

const CHECKS: &[Check] = &[
    Check {
        id: "C01",
        run: checks::text::run_c01,
        rule: "case = (bytes of the domain, bytes of the problem or none); every case runs verify, to_json and get_metadata on the real crate in a worker process and renders the error; a panic, an abort, or more than the CPU limit is a violation. States are distinct inputs, transitions are the choices that lead to them.",
        bounds: "all byte strings of length <= 3 (4) over the lexically relevant bytes at every lexical place; every truncation and every single byte changed, inserted, deleted in a domain and a problem with every construct; single (thorough: double) edits of tokens, names and groups; feature templates with up to 2-3 deviating slots; token strings up to length 3 in 57 grammatical contexts; pumped families up to 2^16 repetitions with doubling run time checked; type, ordering and decomposition graphs of ten shapes up to several hundred nodes; words of every length to 70 and around powers of two with a special character at every position",
    },
    Check {
        id: "C02",
        run: checks::text::run_c02,
        rule: "case = a base document (valid, lexically, syntactically or semantically invalid) with separators chosen per gap; the result must equal that of the canonical layout after mapping line numbers through the gap map",
        bounds: "24 separators in every gap; all pairs of separators in adjacent gaps of 12 documents; all sequences of <= 3 (thorough 4) separator pieces at selected gaps; 225 ends of file; separators of up to 70000 lines/characters; feature templates under several layouts",
    },
    Check {
        id: "C03",
        run: checks::text::run_c03,
        rule: "case = a token string; accepted by the real parser iff accepted by the reference grammar (independent LL(1)-style recogniser over the documented grammar)",
        bounds: "all single token edits (delete, insert, replace, duplicate, swap) over the complete token alphabet of a domain and a problem with every production, two edits in smaller documents; every word at edit distance one of a reserved word; all token strings of length <= 3 (thorough 4) over a small and <= 1 (2) over the full alphabet in 57 contexts; templates; pumped families; long lists of 26 kinds of up to 66,000 elements",
    },
    Check {
        id: "C04",
        run: checks::text::run_c04,
        rule: "case = an invalid document; the error's class, line and token are those of the first token where the prefix is no longer viable in the reference grammar",
        bounds: "the spaces of C03 and all byte edits, in a one-token-per-line layout and in one-line and mixed layouts, and positions beyond 65536 lines",
    },
    Check {
        id: "C05",
        run: checks::text::run_c05,
        rule: "case = a grammatical document; to_json must be exactly the tree the reference parser builds (names, types, order, lines)",
        bounds: "the accepted part of the spaces of C03, all small formulas, lists, networks and sections, templates with up to 2-3 deviating slots; long lists of 26 kinds of up to 1025 (66,000) elements, some of 66,000 in quick",
    },
    Check {
        id: "C06",
        run: checks::sem::run_c06,
        rule: "case = a document; the reference rule set computes the set of all true undefined-name errors and whether any other defect exists; the crate must reject exactly then, with that kind and name",
        bounds: "the semantic spaces: any 1-2 edits of names and groups of 5 pairs and 7 small domains, every name in every place, all sequences of up to 3 uses in 9 places, many declarations, special words as names, templates with 2-3 deviations; long lists of 26 kinds of up to 66,000 elements",
    },
    Check {
        id: "C07",
        run: checks::sem::run_c07,
        rule: "as C06, for duplicate declarations: kind, name, both lines",
        bounds: "the semantic spaces, with all collision patterns of up to 5 declarations of each kind, one collision among up to 40 (300) names, similar names, all sequences of requirements; long lists of 26 kinds of up to 66,000 elements",
    },
    Check {
        id: "C08",
        run: checks::sem::run_c08,
        rule: "as C06, for numbers of arguments and argument types",
        bounds: "the semantic spaces, with all declared x given numbers of arguments, all type graphs over 3 types x argument type x expected type in every place, all distances in chains of types; long lists of 26 kinds of up to 66,000 elements",
    },
    Check {
        id: "C09",
        run: checks::sem::run_c09,
        rule: "as C06, for cyclic type declarations",
        bounds: "the semantic spaces, with all type graphs over <= 3 (4) types, all sequences of type declarations, cycles and chains of any length to 40 (300), hierarchies of every shape; long lists of 26 kinds of up to 66,000 elements",
    },
    Check {
        id: "C10",
        run: checks::sem::run_c10,
        rule: "as C06, for cyclic orderings and undefined subtask identifiers",
        bounds: "the semantic spaces, with all ordering relations over <= 4 subtasks, all sequences of constraints, cycles and chains of any length, in methods and in initial task networks; long lists of 26 kinds of up to 66,000 elements",
    },
    Check {
        id: "C11",
        run: checks::sem::run_c11,
        rule: "as C06, for the facts, goals and networks of problems",
        bounds: "the semantic spaces, with all small problems over typed objects, all sequences of facts and goals; long lists of 26 kinds of up to 66,000 elements",
    },
    Check {
        id: "C12",
        run: checks::sem::run_c12,
        rule: "any semantic error the crate reports must be one the rule set derives, in kind, name, lines, numbers and types, and its message must contain them",
        bounds: "the semantic spaces with up to 2 defects at once; long lists of 26 kinds of up to 66,000 elements",
    },
    Check {
        id: "C13",
        run: checks::meta::run_c13,
        rule: "case = a document and a permutation of its sections and declarations; acceptance, warnings, counts, nullables and class must be those of the unpermuted document, errors must stay true",
        bounds: "all permutations of up to 6 (8) blocks, all transpositions and rotations of more, for every base document, valid and invalid; lists of up to 1025 (4097) entries in other orders",
    },
    Check {
        id: "C14",
        run: checks::meta::run_c14,
        rule: "case = a document and an injective renaming; all results must commute with it",
        bounds: "every name to every other of a pool with long, short, prefixing, case-differing and keyword-like names; all pairs exchanged; all names at once; all orders of the names of tasks; lists of up to 513 (2049) entries under other names",
    },
    Check {
        id: "C15",
        run: checks::tdgs::run_c15,
        rule: "case = a domain; warnings must be exactly the tasks outside the least fixpoint of refinability, in the model",
        bounds: "all decomposition graphs with up to 4 tasks, 4 methods and 3 subtasks per method within the listed subspaces, total and partial orders; cycles of every kind of step; methods with up to 257 subtasks; the semantic spaces; long lists of 26 kinds of up to 66,000 elements",
    },
    Check {
        id: "C16",
        run: checks::tdgs::run_c16,
        rule: "case = a domain; nullable tasks and counts must be those of the model",
        bounds: "as C15",
    },
    Check {
        id: "C17",
        run: checks::tdgs::run_c17,
        rule: "case = a domain; the class must be the strongest the model finds, and the printed cycle must be a cycle of that class",
        bounds: "as C15, and all partial orders of four subtasks of one method",
    },
    Check {
        id: "C18",
        run: checks::meta::run_c18,
        rule: "case = a document x seed of every hash table (getrandom is interposed) x preceding calls x thread x process; outputs must be byte-identical",
        bounds: "seeds that realise every iteration order of a set of four; all histories of up to 2 (3) calls over the documents; every document before and after every document at one name edit from it; separate processes with other file names, folders and environments",
    },
    Check {
        id: "C19",
        run: checks::lsp::run_c19,
        rule: "state = document store and handlers in progress; case = a message history, explored under every schedule of the handlers' polls (full up to length 2-3, then bounded deviations from three base policies); each answer must report on the text last given before its request",
        bounds: "all histories of <= 5 messages over two documents; all pairs of similar addresses; version numbers and languages; texts of every size around powers of two to 2 MiB; 300 (1200) documents",
    },
    Check {
        id: "C20",
        run: checks::lsp::run_c20,
        rule: "case = (document, folder); the diagnostics must be exactly those derived from the analyzer's result on the same bytes",
        bounds: "every edit of tokens and names of 5 pairs; every hard text with every hard text as its domain; all beginnings of 5 (6) tokens; all folders with <= 2 (3) of 35 kinds of entries (named pipes and sockets among them) in 14 kinds of places; one domain among up to 2000 (10,000) files and of up to 2^21 (2^25) bytes; all histories of 3 (4) folder changes",
    },
    Check {
        id: "C21",
        run: checks::lsp::run_c21,
        rule: "case = a message sequence (and schedule, folder, fault); every request must be answered exactly once and a probe document must be served afterwards",
        bounds: "all sequences of <= 4 (5) of 20 messages with schedules; every two messages up to 300 (3000) times; every pair of hard texts; every folder entry x place x address; every form of the handshake; saves without text over every kind of file; a fault before every file operation; the real process over stdio",
    },
    Check {
        id: "C22",
        run: checks::cli::run_c22,
        rule: "case = (command, options, files); stdout, stderr, written files and the absence of panics must be those derived from the library's result",
        bounds: "every command on every text; on templates; on every state of the files (missing, directory, unreadable, not text, links, the standard input; output there or not, longer, in place of an input, a device); every spelling and order of the options; a current folder that is gone",
    },
];

const ASSUMPTIONS: &[&str] = &[
    "beyond the listed bounds nothing is claimed",
    "the reference model in harness/src/model is the specification; it was written from the documented grammar and rules and agrees with the code on every explored case",
    "names that are ambiguous by the statement (an action and a compound task of the same name, an object named like a constant, repeated subtask identifiers) are skipped and counted as cases_outside_the_specified_part",
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let verif = env("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    let mut args = Args {
        property: a.get(2).cloned().unwrap_or_default(),
        thorough: env("MC_THOROUGH").map(|v| v == "1").unwrap_or(env("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)),
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        verif,
        workers: env("MC_WORKERS").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8)),
        space: env("MC_SPACE"),
    };
    if a.get(1).map(|c| c == "answer").unwrap_or(false) {
        checks::meta::answer(&a[2]);
        return;
    }
    let check = CHECKS.iter().find(|c| c.id == args.property).unwrap_or_else(|| {
        eprintln!("usage: mc run|replay|worker <property> ...; unknown property {:?}", args.property);
        std::process::exit(2)
    });
    let code = match a[1].as_str() {
        "run" => {
            if a.get(3).map(|t| t == "thorough").unwrap_or(false) {
                args.thorough = true;
            }
            let findings = known(&args);
            parent(&args, check.rule, check.bounds, ASSUMPTIONS, &findings)
        }
        "worker" => {
            worker(&args, a[3].parse().unwrap(), &PathBuf::from(&a[4]), env("MC_ONLY").and_then(|s| s.parse().ok()), check.run);
            0
        }
        "replay" => {
            args.thorough = a[3] == "thorough";
            replay(&args, a[4].parse().unwrap())
        }
        _ => 2,
    };
    std::process::exit(code);
}

/// lines "known: property=<id> key=<text of the case> | <what fails>"
fn known(args: &Args) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(args.verif.join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix(&format!("known: property={} key=", args.property))?;
            let (k, t) = l.split_once(" | ")?;
            Some((k.to_string(), t.to_string()))
        })
        .collect()
}
