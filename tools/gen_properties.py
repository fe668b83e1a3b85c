#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": hook},
    })


R = "pylogics_modalities/"

prop("C01", "Propositional evaluation is classical truth-functional semantics",
     "Evaluating any propositional formula (parsed or built) on any interpretation returns exactly the classical truth value: atoms in the set, or mapped to True in the dictionary, are true and all others false; implication chains associate to the right and equivalence chains mean iterated equivalence. "
     "The same holds for the generic connective evaluator when it is given any other evaluation function and extra arguments, which it passes on unchanged. "
     "Evaluation never modifies the interpretation, and anything that is not a propositional formula is refused with an error, as is an interpretation that is no set or dictionary as soon as an atom has to be looked up.",
     ["inputs"], "all propositional formulas and all interpretations (set and dictionary form)",
     "The only semantic test checks that f and ~f evaluate differently, which holds for any evaluator whatsoever; no truth value is ever compared with an expected one.",
     [R + "semantics/pl.py", R + "semantics/base.py", R + "syntax/base.py"],
     [("evaluate_pl single dispatch", R + "semantics/pl.py"), ("base_semantics connectives", R + "semantics/base.py"),
      ("_PropInterpretationWrapper", R + "semantics/pl.py")],
     ["evaluate_pl(formula, interpretation)", "base_semantics(formula, fn, *args)"])

prop("C02", "Simplification on construction preserves meaning in every logic",
     "Building a conjunction, disjunction, negation, implication (constructor or >>) or equivalence out of any operands of PL, LTL, PLTL, LDL or FOL yields a formula logically equivalent to the literal, unsimplified connective applied to these operands. "
     "In particular ~f is the complement of f, a constant is returned only when the literal formula is a tautology or a contradiction, and the result belongs to the operands' logic.",
     ["inputs", "histories"], "all operand tuples and nestings of constructor calls, in all five formalisms",
     "The constructors rewrite their operands (absorption, identity, idempotence, flattening, complement, ex falso); tests only check Not(True)/Not(False) and never compare a rewritten formula with the meaning of what was asked for.",
     [R + "syntax/base.py", R + "syntax/ltl.py", R + "syntax/pltl.py", R + "syntax/ldl.py", R + "syntax/fol.py"],
     [("_MonotoneBinaryOp._simplify_monotone_op_operands", R + "syntax/base.py"), ("_MetaImpliesOp._simplify_operands", R + "syntax/base.py"),
      ("_MetaEquivalenceOp._simplify_operands", R + "syntax/base.py"), ("Not.__new__", R + "syntax/base.py")],
     ["And/Or/Not/Implies/Equivalence constructors", "operators & | ~ >>"])

prop("C03", "Conjunctions and disjunctions are always in simplified normal form",
     "However it was built, a conjunction or disjunction never has fewer than two operands, a repeated operand, an operand that is the same connective, a logical constant of its logic, or both a formula and its negation; a call that would produce one returns the corresponding simpler formula (the operand itself, the identity or the absorbing constant) instead. "
     "The remaining operands are the given ones, flattened from left to right in order of first occurrence, and no negation of a negation or of a logical constant ever appears.",
     ["inputs", "histories"], "all sequences of constructor calls in all formalisms, any number and order of operands",
     "Documented in HISTORY and docstrings but no test looks at the operands of a constructed formula at all.",
     [R + "syntax/base.py"],
     [("_MonotoneBinaryOp", R + "syntax/base.py"), ("Not.__new__ / __invert__", R + "syntax/base.py")],
     ["formula.operands, formula.argument, type(formula)"])

prop("C04", "Formula equality is structural and consistent with hashing",
     "Two formulas are equal exactly when they have the same logic, the same connective or operator and pairwise equal parts - operand order being ignored for conjunction, disjunction, equivalence and regular-expression union, and significant everywhere else - and this includes first-order terms and predicates, which are equal exactly when kind, name and arguments (and a constant's value) coincide. "
     "Equality is an equivalence relation that agrees with set/dictionary membership, equal formulas have equal hashes, and a formula's hash never changes during its life.",
     ["inputs"], "all pairs and triples of formulas over all formalisms, compared in both directions, before and after other operations",
     "Equality is only ever tested between two parses of the same string; inequality of different formulas, symmetry and hash agreement are never tested.",
     [R + "syntax/base.py", R + "syntax/ldl.py", R + "syntax/fol.py", R + "helpers/cache_hash.py"],
     [("__eq__/__hash__ of _BinaryOp, _UnaryOp, _CommutativeBinaryOp, AbstractAtomic, TrueFormula, FalseFormula, _TemporalFormula", R + "syntax/"),
      ("_cache_hash", R + "helpers/cache_hash.py")],
     ["f == g, f != g, hash(f), f in {g}"])

prop("C05", "The hash-consing registry holds each live formula exactly once",
     "After any sequence of constructing, parsing and resetting, the cache context contains, under each formula's own logic, exactly one entry for every distinct formula built since the last reset (including subformulas), and otherwise only well-formed formulas of that logic; a reset empties it without affecting existing formulas. "
     "Building once more a formula identical to a registered one (also in operand order) returns the registered object instead of a second copy.",
     ["histories"], "all operation sequences over construct, parse, combine, reset up to a bound",
     "One test looks at the context after parsing one atom twice.",
     [R + "syntax/base.py"],
     [("_HashConsing.__call__ and _context", R + "syntax/base.py"), ("reset_cache / get_cache_context", R + "syntax/base.py")],
     ["get_cache_context()"],
     [{"name": "_HashConsing._context", "meaning": "logic -> registered formulas", "where": R + "syntax/base.py"}])

prop("C06", "Formulas survive pickling and copying, repeatedly and across processes",
     "Pickling or (deep-)copying any formula of any logic, any number of times, in any order with hashing, and then restoring it - in the same or in another interpreter with a different string-hash seed - yields a formula equal to the original with the same logic, operands and printed form. "
     "The serialized state never contains a cached hash value, so the restored formula's hash equals that of the same formula built natively in that interpreter; serializing never modifies the original.",
     ["inputs", "histories", "configurations"], "all formulas, all sequences of hash/pickle/copy/unpickle operations, all pickle protocols, differing PYTHONHASHSEED",
     "The only pickle test covers one object of an ad-hoc one-level class pickled once in the same process; no formula is ever pickled.",
     [R + "helpers/cache_hash.py", R + "syntax/base.py"],
     [("Hashable metaclass: _getstate/_setstate/_cache_hash", R + "helpers/cache_hash.py"), ("Not construction protocol", R + "syntax/base.py")],
     ["pickle.dumps/loads, copy.copy, copy.deepcopy"])

prop("C07", "Formulas are immutable values: no operation changes an existing formula",
     "No public operation - using a formula as an operand, comparing, hashing, printing, evaluating, negating, copying, checking a proof that contains it, resetting the cache - changes the structure, logic, equality, hash or printed form of any formula that already exists. "
     "Changing a list that was passed to a constructor, or a collection returned by an accessor, does not affect any formula either, and no two separately created formulas share mutable parts through defaults.",
     ["histories"], "all operation sequences up to a bound, applied to all formula shapes",
     "Tests never re-inspect a formula after using it.",
     [R + "syntax/base.py", R + "syntax/fol.py", R + "syntax/ldl.py", R + "semantics/pl.py"],
     [("operands stored privately, returned as tuple", R + "syntax/base.py"), ("Predicate operand storage", R + "syntax/fol.py")],
     ["snapshots of every formula before and after each operation"])

_g = "docs/grammars.md"
for cid, name, ident, extra in [
    ("C08", "Propositional", "pl", "precedence is, from loosest: equivalence, implication, or, and, not; both spellings of each operator mean the same"),
    ("C09", "LTL", "ltl", "precedence is, from loosest: <->, ->, |, &, W, U, R, M, then the prefix operators G F X[!] X and !; true/false are the propositional and tt/ff the logical constants"),
    ("C10", "PLTL", "pltl", "precedence is, from loosest: <->, ->, |, &, S, T, then the prefix operators H O Y Z and !; true/false are the propositional and tt/ff the logical constants"),
    ("C11", "LDL", "ldl", "in formulas precedence is, from loosest: <->, ->, |, &, then [re], <re> and !; in regular expressions: +, ;, postfix *, postfix ? on an LDL formula, propositional formula"),
]:
    prop(cid, f"The {name} parser accepts exactly its grammar and builds the right tree",
         f"For every input string, parse_{ident} succeeds exactly if the string belongs to the documented {name} grammar, otherwise it raises an error and returns nothing. "
         f"On success the result is the formula the grammar prescribes - {extra}; a chain of one binary operator becomes one n-ary node with its operands in written order, "
         "brackets group, and whitespace between tokens is irrelevant except that a letter-named operator must be followed by a space, a quote or a bracket.",
         ["inputs"], f"all token sequences over the {name} vocabulary, all bracketings and whitespace placements",
         "Tests only check that parsing the same string twice gives equal results (1-16 valid examples per logic in the deterministic runs); no parse result is compared with an expected tree and no string is required to be rejected.",
         [R + f"parsers/{ident}.lark", R + f"parsers/{ident}.py", R + "parsers/base.py", _g, "docs/parsing.md"],
         [("Lark grammar", R + f"parsers/{ident}.lark"), ("transformer callbacks", R + f"parsers/{ident}.py"),
          ("_starred_binaryop / _process_unaryop", R + "parsers/base.py")],
         [f"parse_{ident}(text)"])

prop("C12", "Symbols and keywords are recognised exactly as documented in every logic",
     "A text is accepted as an atom by the parsers exactly when it matches the documented symbol syntax (a letter or underscore first, hyphens only inside, or any quoted non-empty printable text without a double quote) and is not itself a reserved keyword of that logic; this includes symbols that merely begin with or contain a keyword. "
     "The resulting atom carries exactly the written name, the atom constructors accept exactly the names matching the symbol syntax and reject all others, and different names give different atoms.",
     ["inputs"], "all character strings over a critical alphabet up to a length, in all four parsers and all atom constructors",
     "The generated test strings never check which name an atom got, nor that illegal names are rejected, nor symbols with a keyword prefix.",
     [R + "parsers/pl.lark", R + "parsers/ltl.lark", R + "parsers/pltl.lark", R + "parsers/ldl.lark", R + "syntax/base.py", R + "helpers/misc.py"],
     [("SYMBOL_NAME and keyword terminals", R + "parsers/*.lark"), ("AtomName.REGEX", R + "syntax/base.py"), ("RegexConstrainedString", R + "helpers/misc.py")],
     ["parse_*(name)", "Atomic(name).name"])

prop("C13", "Printing then parsing gives back the same formula in every logic",
     "For every PL, LTL, PLTL or LDL formula whose atom names are not reserved words - whether parsed or built through the API, with any nesting of all operators of that logic - to_string produces a text that the parser of that logic accepts and parses to an equal formula. "
     "Printing is a fixed point after one round trip, equal texts come only from equal formulas, and formulas of logics without a concrete syntax are refused with an error.",
     ["inputs", "programs"], "all formulas of the four logics with a concrete syntax",
     "The round-trip tests reach 2-22 strings per logic, none with weak-before, triggers or a test expression.",
     [R + "utils/to_string.py", R + "parsers/pl.lark", R + "parsers/ltl.lark", R + "parsers/pltl.lark", R + "parsers/ldl.lark"],
     [("to_string single dispatch", R + "utils/to_string.py")],
     ["parse_X(to_string(f)) == f"])

prop("C14", "Ill-formed constructions are rejected and every formula reports its logic",
     "Every formula reports the formalism it belongs to, and no formula mixes formalisms: boolean connectives refuse operands of different formalisms (logical constants aside) and refuse regular expressions; temporal, regular-expression and quantifier constructors refuse operands of a formalism they are not defined for (propositional expressions take PL formulas, tests LDL formulas, star/sequence/union regular expressions, diamond and box a regular expression and an LDL formula). "
     "Operands that are not formulas, missing operands, and applying a predicate or function to the wrong number of arguments or to non-terms are refused too; a refusal raises an error and registers no ill-formed formula.",
     ["inputs"], "all constructors x all operand kinds (every logic, constants, regular expressions, terms, non-formulas) x all small arities",
     "No test constructs anything ill-typed.",
     [R + "syntax/base.py", R + "syntax/ltl.py", R + "syntax/pltl.py", R + "syntax/ldl.py", R + "syntax/fol.py"],
     [("ALLOWED_LOGICS / FORBIDDEN_LOGICS", R + "syntax/"), ("_MetaOp._check_not_forbidden_formalism", R + "syntax/base.py"),
      ("_MonotoneBinaryOp._check_operands_same_logic", R + "syntax/base.py"), ("enforce() guards", R + "syntax/")],
     ["constructor raises / formula.logic"])

prop("C15", "last, end and start denote exactly the last, the final and the first position",
     "On every non-empty finite trace, the LTL and the LDL abbreviation last hold at the last instant and at no other instant, the PLTL abbreviation start holds at the first instant and at no other, and the LDL abbreviation end holds exactly when the whole trace has been consumed. "
     "The parsed keyword and the API constructor denote the same formula.",
     ["inputs"], "all finite traces and all positions",
     "No test mentions the meaning of these abbreviations.",
     [R + "syntax/ltl.py", R + "syntax/pltl.py", R + "syntax/ldl.py", R + "parsers/ltl.py", R + "parsers/pltl.py", R + "parsers/ldl.py"],
     [("Last", R + "syntax/ltl.py"), ("Start", R + "syntax/pltl.py"), ("End, Last", R + "syntax/ldl.py")],
     ["structure of parse_ltl('last'), parse_pltl('start'), parse_ldl('last'), parse_ldl('end') evaluated by a reference trace semantics"])

prop("C16", "Accepted natural-deduction proofs are sound for propositional logic",
     "Whenever the natural-deduction checker accepts a proof over propositional formulas (whose atoms are not named like the constants, and which contain no equivalence with repeated operands), every line outside boxes is a logical consequence of the premise lines of the proof. "
     "This covers every propositional rule, any nesting of assumption boxes, any citation pattern and any operand shape; assumptions are discharged only by closing the box they open.",
     ["programs", "inputs"], "all proofs over a small propositional language up to a bounded number of lines and box depth, and every single inference step",
     "There is no test for the deduction package at all.",
     [R + "deduction/fol/nd.py"],
     [("check_proof", R + "deduction/fol/nd.py"), ("_check_justification_* rules", R + "deduction/fol/nd.py"), ("NaturalDeductionProof", R + "deduction/fol/nd.py")],
     ["NaturalDeduction.check(NaturalDeduction.Proof(lines))"])

prop("C17", "Accepted natural-deduction proofs are sound for first-order logic",
     "Whenever the checker accepts a proof over first-order formulas in which different symbols have different names, none of them a reserved word, every line outside boxes holds in every first-order structure and assignment in which all premises hold. "
     "This includes freshness of the box variable (also against the quantified formula itself and enclosing lines), no variable capture on instantiation, and simultaneous consistent replacement of all occurrences.",
     ["programs", "inputs"], "all bounded first-order proofs; structures with 1 to 3 elements",
     "There is no test for the deduction package at all.",
     [R + "deduction/fol/nd.py", R + "syntax/fol.py"],
     [("forall_i/forall_e/exists_i/exists_e checks", R + "deduction/fol/nd.py"), ("_replace, _find_diff, _find_term", R + "deduction/fol/nd.py"), ("box freshness in check_proof", R + "deduction/fol/nd.py")],
     ["NaturalDeduction.check(NaturalDeduction.Proof(lines))"])

prop("C18", "Every correct application of a natural-deduction rule is accepted",
     "A proof in which each line is a correct instance of the rule it names (introduction and elimination of conjunction, disjunction, implication written with >>, negation, falsum, double negation, both quantifiers, modus tollens, copy, premise and assumption), citing visible lines or boxes in the rule's order, is accepted by the checker. "
     "This holds for all operand formulas that keep the cited connective binary (and are not merged by an instantiation), for quantified formulas nested at any depth, for variables, constants and function terms as instances, for box variables occurring in no visible line, and for any distinct row labels.",
     ["programs", "inputs"], "all rule schemas instantiated with all small formulas and terms, in all box contexts up to a bounded depth",
     "There is no test for the deduction package at all; a checker that rejects everything would pass.",
     [R + "deduction/fol/nd.py", R + "syntax/fol.py"],
     [("_check_justification_* rules", R + "deduction/fol/nd.py"), ("NaturalDeductionProof", R + "deduction/fol/nd.py")],
     ["NaturalDeduction.check(NaturalDeduction.Proof(lines)) is True"])

prop("C19", "The proof checker is total, scoped, prefix-closed and repeatable",
     "Checking any well-shaped proof returns a truth value and never raises, whatever rules, citations and formulas occur in it; unknown rules, missing citations, citations of unknown rows, of later rows, of the line itself or of rows inside an already closed box make it rejected. "
     "Every prefix of an accepted proof is accepted, extending a rejected proof never makes it accepted, and checking neither changes the proof nor depends on earlier checks.",
     ["programs", "histories"], "all proofs over a small alphabet of lines, all citation patterns, repeated checks in any order",
     "There is no test for the deduction package at all.",
     [R + "deduction/fol/nd.py"],
     [("check_proof row table 'sound'", R + "deduction/fol/nd.py"), ("NaturalDeductionProof", R + "deduction/fol/nd.py")],
     ["NaturalDeduction.check return value / exceptions"],
     [{"name": "sound", "meaning": "visible rows while checking", "where": R + "deduction/fol/nd.py"}])

prop("C20", "Concurrent use from several threads behaves like some sequential use",
     "When threads concurrently build, parse, hash, compare, print, evaluate, serialize formulas (the same or shared ones), check proofs, or reset the cache, no call fails or returns anything different from what it returns when run alone. "
     "Afterwards the cache context is consistent: every entry is registered under its own logic and no formula has two entries.",
     ["schedules"], "all interleavings of two or three threads at statement granularity up to a preemption bound",
     "All tests are single-threaded.",
     [R + "syntax/base.py", R + "helpers/cache_hash.py", R + "parsers/base.py"],
     [("_HashConsing.__call__ and reset_cache on the shared context", R + "syntax/base.py"), ("hash caching and state extraction on shared instances", R + "helpers/cache_hash.py"),
      ("module-level parser objects shared by all callers", R + "parsers/*.py")],
     ["results and exceptions of every call, get_cache_context() afterwards"],
     [{"name": "_HashConsing._context", "meaning": "process-wide registry", "where": R + "syntax/base.py"}])

prop("C21", "Results do not depend on what was parsed, built or reset before",
     "The structure, operand order, printed forms, truth value or error of any parse, construction, print, evaluation or proof check is the same in every reachable state of the library: after any sequence of earlier successful or failing calls and cache resets, in the same or in another logic. "
     "Formulas created before a cache reset remain fully usable together with formulas created after it.",
     ["histories"], "all sequences of up to a bounded number of earlier operations, then a probe",
     "Tests reset the cache between classes and never compare results across histories.",
     [R + "syntax/base.py", R + "parsers/base.py", R + "parsers/ldl.py", R + "helpers/cache_hash.py"],
     [("global hash-consing context", R + "syntax/base.py"), ("shared parsers and transformers", R + "parsers/")],
     ["probe results after each history vs. in a fresh state"])

prop("C22", "The generic helper functions satisfy their contracts on all small inputs",
     "The collection helpers are total on their domain: the safe getter returns the element exactly when the index is valid for the sequence and the default otherwise, the safe index finder returns the first position or None, find returns the first index satisfying the condition or -1, and the ensure-helpers return the given value (converted to the requested mutable or immutable collection) or the default exactly when it is None (for formulas: true or false as requested). "
     "A regex-constrained string can be created exactly from the strings fully matching its expression, behaves like the plain string, and enforcing a condition raises the requested exception with the given message exactly when the condition is false.",
     ["inputs"], "all sequences up to a small length over a small alphabet, all indices in and out of range, all small strings",
     "None of these helpers has a test.",
     [R + "helpers/misc.py", R + "exceptions.py"],
     [("safe_get, safe_index, find, ensure, ensure_set, ensure_sequence, enforce, RegexConstrainedString", R + "helpers/misc.py")],
     ["return values and exceptions"])

prop("C23", "Native text representations identify the formula",
     "For propositional, first-order and LDL formulas, regular expressions, terms and predicates, two formulas of the same logic have the same native text (str) exactly when they have the same connectives, operands in the same order and the same names, provided different symbols have different plain names that are no reserved words; for LTL and PLTL formulas over atoms and the operators the same holds. "
     "The text of a formula of any logic is the same in every process and does not depend on object identity, memory addresses or history.",
     ["inputs", "configurations"], "all pairs of formulas of a logic up to a bounded size",
     "str() is not tested, yet the proof checker compares formulas by their native text.",
     [R + "syntax/base.py", R + "syntax/fol.py", R + "syntax/ldl.py"],
     [("__str__ of the operator base classes", R + "syntax/base.py"), ("Predicate/Term.__str__", R + "syntax/fol.py")],
     ["str(f)"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(p) + "\n")
    print(len(P), "properties")
