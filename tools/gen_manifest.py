#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (the committed file is this script's output)."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
G = "bounded exhaustive enumeration of sources, each executed on the real parser and compared with an explicit-state reference automaton"
T = {
 "C06": "explicit-state exploration of the grammar automaton (every state pair, every token edge), replayed on the real parser",
 "C16": "exhaustive enumeration of byte and token strings, truncations and corruptions, each executed on the real parser",
 "C17": "explicit-state exploration of the grammar automaton: every deviating edge replayed, reported cause and place compared",
 "C18": "exhaustive exploration of operation histories of the real parser, compared with fresh processes",
 "C19": "stateless model checking: controlled scheduler over statement-level points, preemption-bounded, with data-race detection",
 "C20": "bounded exhaustive enumeration of schema values, each serialised and decoded by the real code",
 "C21": "explicit-state exploration of command histories over a directory state, executed with the real program",
 "C22": "exhaustive fault enumeration: every storage end and failing system call of a run of the real program",
 "C23": "explicit-state exploration of command histories over a directory state, executed with the real program",
 "C24": "exhaustive exploration of call sequences of the real wasm build, compared with the library",
 "C26": "exhaustive enumeration of words (all case variants and near misses) on the real lookups",
 "C27": "bounded exhaustive enumeration of inputs and command histories in both modes of the real code",
 "C28": "bounded exhaustive enumeration of schema values, each validated by the real validator and compared with the reference model",
 "C29": "bounded exhaustive enumeration of rejected sources with a monitored listener",
}
NOTE = {
 "C19": "Every schedule within the preemption bounds of DESIGN.md on the listed pairs and triples of parses; accesses inside dependencies are only seen by the race detector.",
 "C22": "Every byte at which storage ends for three outputs, every failing call on the output file; faults the sandbox refuses to produce are counted as such.",
 "C24": "node's WebAssembly engine stands for the browser.",
}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": T.get(i, G), "level": "model_checking",
        "level_note": NOTE.get(i, "Holds for every case of the enumerated spaces (bounds in DESIGN.md and in the evidence file); trusts the reference model in mc/ref, which every run re-validates against the implementation.")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are committed in /repo; scheduling points for C19 come from a build-time overlay."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    f.write(json.dumps(m, indent=1) + "\n")
