#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    "C01": ("bounded exhaustive enumeration of formulas x interpretations on the real evaluator, against a reference evaluator",
            "Every formula up to the size bound with every interpretation; nothing is claimed beyond the bound."),
    "C02": ("exhaustive enumeration of constructor applications, judged in all bounded models of each logic",
            "All operand tuples up to the bounds; equivalence is judged in all assignments, all traces up to a length, all structures up to a size, by an independent semantics."),
    "C03": ("exhaustive enumeration of constructor call sequences with a normal-form invariant and a reference normaliser", "All operand tuples and nestings within the bounds."),
    "C04": ("exhaustive enumeration of all pairs (and triples) of a population of formulas against a structural reference", "All pairs of the population, both directions; population bounds in the evidence."),
    "C05": ("explicit-state exploration of all construct/parse/reset sequences with a registry model, on the real registry", "All operation sequences up to the depth; object identity is a listed known finding."),
    "C06": ("exhaustive enumeration of hash/pickle/copy/restore sequences and process configurations", "All operation sequences up to the depth for every formula of the population, all protocols, several hash seeds in real processes."),
    "C07": ("explicit-state exploration of all operation sequences with a snapshot invariant", "All sequences of public operations up to the depth."),
    "C08": ("bounded exhaustive enumeration of token strings and texts, replayed on the real parser, against a reference grammar model", "All token strings up to the length plus all layouts; the reference grammar was written from the documented grammar."),
    "C09": ("bounded exhaustive enumeration of token strings and texts, replayed on the real parser, against a reference grammar model", "As C08, for LTL."),
    "C10": ("bounded exhaustive enumeration of token strings and texts, replayed on the real parser, against a reference grammar model", "As C08, for PLTL."),
    "C11": ("bounded exhaustive enumeration of token strings and texts, replayed on the real parser, against a reference grammar model", "As C08, for LDL."),
    "C12": ("bounded exhaustive enumeration of names, against a hand-written automaton", "All strings up to the length over a representative alphabet, in all parsers and constructors."),
    "C13": ("exhaustive enumeration of formulas with a print/parse round trip on the real code", "All formulas up to the size bound in every logic."),
    "C14": ("exhaustive enumeration of constructor x operand kinds x arities, against a typing model", "All combinations within the arities."),
    "C15": ("exhaustive enumeration of traces and positions for the real formulas, against the trace semantics", "All traces up to the length, all positions."),
    "C16": ("exhaustive enumeration of proofs (all steps, all short proofs, all edits) replayed on the real checker, judged in all assignments", "Soundness on every enumerated proof; four atoms."),
    "C17": ("exhaustive enumeration of proofs replayed on the real checker, judged in all structures of at most three elements", "Soundness on every enumerated proof up to counter-models of three elements (two where the signature is large)."),
    "C18": ("exhaustive enumeration of rule instances and contexts replayed on the real checker", "All instances over the operand pools in all listed contexts."),
    "C19": ("exhaustive enumeration of proofs, citations, prefixes, extensions and check histories on the real checker", "All edits and citation replacements of the proof corpus."),
    "C20": ("stateless exploration of all thread interleavings up to a preemption bound on the real code, controlled scheduler", "All schedules of the listed two- and three-thread harnesses within the preemption bound at line (partly bytecode) granularity; code outside the library is atomic."),
    "C21": ("explicit-state exploration of all operation histories (process forks as states), differential against the fresh state", "All sequences up to the depth, then every probe."),
    "C22": ("bounded exhaustive enumeration of helper arguments against reference definitions", "All sequences and strings up to the length."),
    "C23": ("bounded exhaustive enumeration of all pairs of formulas (via a text index) and of process configurations", "All formulas up to the size bound; several hash seeds in real processes."),
    "C24": ("exhaustive enumeration of interpreter configurations and import orders (real processes) x calls, differential against a plain interpreter", "All combinations of the listed settings (quick: half of them, every pair of settings included), all ordered pairs of modules."),
    "C25": ("exhaustive enumeration of calls, first calls, imports and histories on the real code under an effect monitor (audit hook, process settings)", "All calls of the set, each alone in a fresh process and within histories; only observable effects of the listed kinds."),
    "C26": ("exhaustive enumeration of operations x formula/text/proof families x sizes on the real code with an exact step counter as cost monitor", "Every family at every listed size; work inside Lark, re and pickle only through a time limit."),
    "C27": ("exhaustive enumeration of formulas, texts and proofs x one-to-one renamings, metamorphic comparison on the real code", "All formulas within the bounds times all listed namings."),
    "C28": ("exhaustive fault injection: every statement boundary (crash point) and every stack allowance of every operation on the real code, registry and differential oracle afterwards", "All points of the listed operations, warm and in fresh processes; thorough: bytecode granularity, MemoryError, pairs of faults."),
    "C29": ("exhaustive enumeration of formulas, proofs x calls, ordered pairs of calls, repetitions, threads and stack allowances on the real code, census of live objects (garbage collector) as oracle", "All call sequences of the set up to depth two and the listed long ones; objects the garbage collector can see."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
     "checks": [{"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p, "technique": T[p][0], "level": "model_checking", "level_note": T[p][1]}
                for p in props],
     "not_applicable": [],
     "notes": "Pure Python: nothing is built; every check imports the library from /repo's working tree. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
