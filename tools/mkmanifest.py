#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = {
 "C01": "explicit-state exploration of generated parsers: every small grammar x every text up to a length, against a reference denotation",
 "C02": "explicit-state exploration of generated parsers: every small grammar x every text, round trip through Display, trees compared as values",
 "C03": "exhaustive enumeration of programs, emitted types against reference types, compiled parsers explored over all short texts against reference trees",
 "C04": "explicit-state exploration of generated parsers: every small grammar x every stream, consumed prefix and look-ahead monitored",
 "C05": "explicit-state exploration of generated parsers: every small grammar x every rejected text, error value against the reference model",
 "C06": "exhaustive enumeration of closed grammars up to a size, real type checker against a reference fixed-point model of the rules",
 "C07": "exhaustive enumeration of closed grammars, accepted ones explored for two derivations, left recursion and unsound summaries over all texts up to a length",
 "C08": "exhaustive enumeration of grammar programs (all well-typed and all raw terms up to a size), real expansion against a call-by-name environment machine",
 "C09": "exhaustive enumeration of grammar programs, real verdicts against the mistakes met by a reference call-by-name machine",
 "C10": "exhaustive enumeration of binder structures and name assignments, real resolution against a reference scope model",
 "C11": "exhaustive enumeration of token sequences up to a length, edits of longer programs and layouts, real reader against a reference reader",
 "C12": "exhaustive enumeration of token sequences, escapes, identifiers and character strings up to bounds, the two real front ends against each other",
 "C13": "exhaustive enumeration of programs over adversarial names, all name characters, literals and shapes, every emitted program checked and type-checked by rustc",
 "C14": "exhaustive enumeration of texts (token sequences, edits, character strings, bytes) and of all read/write faults of the tools up to a bound, outcomes monitored",
 "C15": "exhaustive exploration of histories of compilations up to a length and of a range of hash seeds fixed by an interposed getrandom, outputs compared with a fresh process",
 "C24": "exhaustive enumeration of grammar texts up to a bound, real macro expansion, real tool and library compared; their parsers explored over all short texts",
 "C16": "exhaustive exploration of all cursor operation sequences over all small texts and sources, against a reference cursor",
 "C17": "exhaustive exploration of all texts over the line terminators and all operation sequences, positions against a reference model",
 "C18": "exhaustive exploration of all literal x input pairs up to a length over 1- to 4-byte characters, against a reference model",
 "C19": "exhaustive exploration of all inputs, sets, predicates and buffer sizes up to bounds, against a reference model",
 "C20": "exhaustive exploration of all inputs and list configurations up to bounds, against a reference list automaton",
 "C21": "exhaustive enumeration of ill-formed programs, spans and messages of the real diagnostics against a reference blame model",
 "C22": "exhaustive enumeration of token sequences, character strings and values up to bounds, three real parsers against a reference reader",
 "C25": "exhaustive enumeration of pairs of grammars within bounds, real comparisons, hashes and copies against a structural walk",
 "C23": "exhaustive enumeration of token sequences and expression trees up to bounds, three real parsers against a reference evaluator",
}
PENDING = {f"C{i:02}": "check under construction" for i in range(1, 26)}
LEVEL = "model_checking"
checks = []
for k, v in T.items():
    PENDING.pop(k)
    checks.append({"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"./check.sh {k} thorough",
      "evidence_file": f"evidence/{k}.json", "technique": v, "level": LEVEL,
      "level_note": "exhaustive within the bounds written to the evidence file; the real code is executed on every explored state, so model and code are compared on every trace"})
m = {"version": 1, "setup_cmd": "./build.sh refmodel mc mcspan mcfront mcbench mccli bins",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(PENDING.items())]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
