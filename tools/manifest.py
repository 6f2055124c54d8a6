#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json (run: python3 tools/manifest.py)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
CLAIMED = {
 "C01": "stateless bounded-exhaustive exploration of value/position/neighbour histories on the real code in lockstep with a bit-list model",
 "C02": "stateless bounded-exhaustive exploration of width/value/position histories on the real code in lockstep with a bit-list model",
 "C03": "stateless bounded-exhaustive exploration of lengths, trailing bits and positions on the real code in lockstep with a bit-list model",
 "C04": "stateless bounded-exhaustive exploration of element sequences and start positions; size, writer and reader of the real code compared state by state",
 "C05": "stateless bounded-exhaustive exploration of element sequences per element type; real writer/reader round trip",
 "C06": "explicit delta-context state machine explored exhaustively over bounded sequences and replayed on the real encoder and decoder (all legal wire forms)",
 "C07": "exhaustive exploration of bounded byte strings, corruptions and truncations on the real decoder",
 "C08": "exhaustive exploration of cap settings, lengths and interleavings of cap changes with element reads on the real decoder under a counting allocator",
 "C09": "exhaustive enumeration of cut points and trailing data of bounded encodings on the real decoder",
 "C10": "exhaustive exploration of environment (I/O fault) schedules with bounded deviations on the real entry points",
 "C11": "exhaustive exploration of values around every representable range on the real encoder",
 "C12": "exhaustive exploration of bounded values and start positions of generated types in lockstep with an explicit reference codec model",
 "C13": "exhaustive exploration of presence patterns, condition values and start positions of generated types in lockstep with an explicit reference codec model",
 "C14": "exhaustive exploration of selector values, members and corrupted streams of generated choices and unions in lockstep with an explicit reference codec model",
 "C15": "exhaustive exploration of start positions, alignments and preceding lengths of generated types; writer, reader and size prediction in lockstep with an explicit reference codec model",
 "C17": "exhaustive exploration of numbering patterns, underlying types and stored values of generated enums, bitmasks and constants against an explicit reference model",
 "C19": "exhaustive exploration of placements, imports and reference forms of names over small package graphs; every resolution is observed on the wire of the generated types",
 "C18": "stateless exploration of the real compiler: its hash maps and directory listings take their orders from choice points, every bounded set of deviations is run and the output trees compared; every order of imports and declarations of bounded schemas is compiled and its generated code run in lockstep with the reference codec model",
 "C20": "exhaustive exploration of template shapes, arguments, nestings and placements; generated instantiations in lockstep with the reference codec model of the type written out by hand",
 "C22": "exhaustive exploration of object histories: every ordered pair of bounded values (held, decoded earlier, or left by a decode that failed) per generated type, compared with decoding into a new object",
 "C21": "exhaustive exploration of argument values and nesting of generated parameterised types in lockstep with an explicit reference codec model",
 "C23": "explicit per-leaf delta-context model of packed compounds explored over bounded element sequences and replayed on the generated encoder and decoder",
 "C16": "exhaustive exploration of bounded expression shapes and operand values; generated functions and field conditions against an explicit reference evaluator",
 "C24": "exhaustive enumeration of the texts one edit away from seed schemas, classified by a recogniser of the zserio grammar (validated against the reference compiler), and of mistaken declarations, references and argument lists; the real compiler runs on each",
}
LEVEL_NOTE = {"C24": "Bounded exhaustive enumeration of inputs of the real compiler against an explicit model of the grammar and of the naming rules; bounds are listed in the evidence file."}
DEFAULT_NOTE = "Bounded exhaustive exploration of the real code in lockstep with the reference model; bounds are listed in the evidence file."
claimed = []
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        claimed.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                        "evidence_file": f"evidence/{i}.json", "technique": CLAIMED[i], "level": "model_checking",
                        "level_note": LEVEL_NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": "check under construction (see DESIGN.md)"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": claimed, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(claimed), "claimed", len(na), "not claimed")
