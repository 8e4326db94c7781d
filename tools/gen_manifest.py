#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
T = "explicit-state, bounded-exhaustive exploration of the real code: "
TECH = {
 "C01": T + "all byte strings, byte edits, token strings and pumped families within bounds, with crash and hang monitors",
 "C02": T + "every separator in every gap, compared with the canonical layout through the line map",
 "C03": T + "all token strings and token edits within bounds, against an independent grammar model",
 "C04": T + "all token and byte edits within bounds, against the model's first offending token",
 "C05": T + "all small syntax trees and edits, against the tree built by the model",
 "C06": T + "all name edits and small scopes, against the model's set of undefined names",
 "C07": T + "all collision patterns of declarations, against the model's set of duplicates",
 "C08": T + "all arities, type graphs and argument types in every place of use, against the model",
 "C09": T + "all type graphs up to a size and all cycle shapes",
 "C10": T + "all ordering relations up to a size, over all ways of writing them",
 "C11": T + "all edits of problem/domain pairs and all small typings, against the model",
 "C12": T + "all one- and two-defect documents, against the model's set of facts",
 "C13": T + "all permutations of sections and declarations, differential",
 "C14": T + "all renamings over adversarial name pools, differential",
 "C15": T + "all task decomposition graphs up to a size, against a fixpoint model",
 "C16": T + "all task decomposition graphs up to a size, against a fixpoint model",
 "C17": T + "all ordered task decomposition graphs up to a size, against an occurrence-level model and witness check",
 "C18": T + "all hash orders and call histories within bounds, differential",
 "C19": T + "all message sequences and all poll interleavings of the real server under a controlled scheduler, against a document store model",
 "C20": T + "all document and folder states through the real server, against the analyzer",
 "C21": T + "all message sequences, URIs and folder states through the real server under a controlled scheduler, with deadlock and crash monitors",
 "C22": T + "all commands, options and file states of the real binary, against the analyzer",
}
NOTE = "Holds for every case of the bounded spaces listed in the evidence; trusts the reference model in harness/src/model (validated by full agreement on the explored spaces) and the harness's crash and hang detection."
built = json.load(open(os.path.join(here, "tools", "built.json")))
m = {"version": 1, "setup_cmd": "./run.sh build",
 "checks": [{"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
   "technique": TECH[p], "level": "model_checking", "level_note": NOTE} for p in props if p in built],
 "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in built],
 "notes": "No hooks in /repo: every check drives the public API, the language server service and the binaries. Repairs are the fix: commits listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
