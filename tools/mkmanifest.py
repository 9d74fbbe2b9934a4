#!/usr/bin/env python3
"""Regenerates MANIFEST.json: a check is claimed when checks/cXX.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "property-based testing: generated declarations, AST oracle", "C02": "property-based testing: typedef graphs, reference resolver and gcc",
 "C03": "differential fuzzing of conditionals against gcc -E", "C04": "differential fuzzing of macro expansion against gcc -E",
 "C05": "differential fuzzing of constant expressions against gcc", "C06": "differential fuzzing of enumerations against gcc",
 "C07": "property-based testing: generated aggregates, AST oracle", "C08": "model-based testing of pragma histories, gcc offsets",
 "C09": "differential fuzzing of class layouts against gcc", "C10": "metamorphic fuzzing of white space and comments",
 "C11": "metamorphic testing: splitting a header into files", "C12": "stateful testing: cache against parsing",
 "C13": "stateful testing of cache invalidation with damaged files", "C14": "metamorphic fuzzing: insertion of unsupported constructs",
 "C15": "fuzzing under an audit hook of the interpreter", "C16": "differential fuzzing of type spellings against gcc",
 "C17": "property-based testing: generated C functions, compiled oracle", "C18": "stateful testing of calls against generated C functions",
 "C19": "model-based testing of name lookup", "C20": "stateful testing: operation sequences, order independence",
 "C21": "model-based stateful testing of openings and releases", "C22": "generated thread schedules with overlap counters in C",
 "C23": "model-based testing of search paths", "C24": "fuzzing of synthetic ELF and PE files", "C25": "property-based testing of arrays and casts",
 "C26": "model-based testing of initialisation histories in fresh interpreters", "C27": "property-based testing of algebraic laws",
 "C28": "metamorphic testing: replacements, encodings, predefinitions",
 "C29": "stateful testing: histories of parsers against parsers alone in a process", "C30": "round-trip testing of listings, model-based searches"}
NOTE = ("Randomised search with shrinking, seeded by VERIF_SEED, over the domain and bounds in DESIGN.md; "
        "it finds violations, it does not prove their absence. ")
TRUST = {"gcc": "Trusts gcc and the installed ctypes as the reference for C.", "": "Trusts the oracle described in DESIGN.md."}
props = [json.loads(x) for x in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/checks/%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "./check.py " + i, "thorough_cmd": "./check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i], "level": "exploration",
                       "level_note": NOTE + TRUST["gcc" if "gcc" in TECH[i] or i in ("C17", "C18", "C25") else ""]})
    else:
        na.append({"property": i, "reason": "The technique applies, but the check is not built yet."})
json.dump({"version": 1, "setup_cmd": "./check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks only use the public interface of the code in /repo."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), len(na))
