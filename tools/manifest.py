"""writes /verif/MANIFEST.json"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ICU = "ICU's UTS #46 tables (icupy) are trusted; CPython is trusted."
REF = "explicit-state exploration of an executable URL Standard model, every model trace replayed on the real code"
BND = "Exhaustive within the bounds the evidence file lists per family (alphabets, word lengths, repetition lengths); nothing is sampled. "
T = {
 "C01": (REF + " (all bounded inputs)", BND + "Judges every getter and the search parameters of each input against the model. " + ICU),
 "C02": (REF + " (all bounded reference x base pairs)", BND + ICU),
 "C03": ("exhaustive exploration of bounded inputs and setter histories on the real code: serialize/re-parse fixpoint at every reached state, states identified by model", BND + ICU),
 "C04": (REF + " (all setter sequences to a depth)", BND + "Every operation sequence up to the depth from each initial URL; all getters compared after every step. " + ICU),
 "C05": ("explicit-state exploration of all interleaved histories of the two views of one URL (model: one record + one list), replayed step by step on the real code", BND + ICU),
 "C06": ("explicit-state exploration of all operation sequences of the ordered-list model, replayed step by step on the real code", BND),
 "C07": (REF + " (all bounded byte strings and pair lists)", BND),
 "C08": ("exhaustive enumeration of code points x component positions x bounded strings against the standard's percent-encode sets, executed on the real code", BND + ICU),
 "C09": (REF + " (all bounded IPv4 notations)", BND),
 "C10": (REF + " (all bounded IPv6 notations and piece patterns)", BND),
 "C11": (REF + " (all bounded domains and opaque hosts; IDNA mapping as environment function)", BND + ICU),
 "C12": ("exhaustive exploration of bounded inputs over every public entry point, exception monitor, agreement with the model", BND + ICU),
 "C13": (REF + " extended with the standard's validation errors", BND + "Where the standard leaves the number of reports open (IDNA errors, repeated non-URL units) only presence is judged. " + ICU),
 "C14": (REF + " (all bounded hosts; validity grammar as a second model)", BND + ICU),
 "C15": ("explicit-state exploration of call sequences and of histories over coexisting objects, each object's own model as oracle", BND + "The first-call-of-a-process results are the reference for call sequences. " + ICU),
 "C16": ("stateless model checking of the real code: a controlled scheduler enumerates preemption points of two real threads", "All schedules with one preemption (two, coarser) within the stated grid of points; preemption between lines (quick) or byte codes (thorough) of urlstd. " + ICU),
 "C17": (REF + " (all bounded URLs and pairs of origins)", BND + ICU),
 "C18": (REF + " (all bounded inputs x encodings)", BND + "Codec tables are Python's. " + ICU),
 "C19": ("exhaustive exploration of bounded inputs on the real code against the model's record", BND + ICU),
 "C20": ("exhaustive exploration of all ordered pairs of a bounded set of reachable URLs on the real code", BND + ICU),
 "C21": (REF + " (all bounded segment sequences; independent path-stack invariant)", BND + ICU),
 "C22": ("explicit-state exploration of all reachable URLs within bounds (parse, resolve, setter histories), well-formedness invariant on every state", BND + ICU),
 "C23": ("exhaustive enumeration of insertion positions of C0/space/tab/newline on the real code, invariance judged per state", BND + ICU),
 "C24": ("exhaustive enumeration of logging configurations (each in its own process), results compared state by state", "The product of the listed configurations and inputs; handlers that raise are excluded. " + ICU),
 "C25": ("exhaustive enumeration of bounded domains on the real code: conversion laws evaluated on every one, and agreement with the model", BND + ICU),
 "C26": (REF + " (all bounded inputs by every road, all sequences of state overrides to a depth, records built field by field)", BND + ICU),
}
checks = [
    dict(property=k, quick_cmd="./check.sh %s quick" % k, thorough_cmd="./check.sh %s thorough" % k,
         evidence_file="evidence/%s.json" % k, technique="model checking: " + t, level="model_checking", level_note=n)
    for k, (t, n) in T.items()
]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo: the checks use the public API, threads are scheduled with sys.settrace. Source fixes are in known_findings.jsonl and DESIGN.md."),
    open(root + "/MANIFEST.json", "w"), indent=1)
