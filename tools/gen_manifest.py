#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
    "C01": "all histories of 2 (secrefs, 94 blocks) and 3 (secrefs3) blocks, every place and list position, every rule broken next to every other member, names that are almost equal, plus random full-alphabet behaviours; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) as names of schemes, defined and missing; lists of up to 260 elements with the fault first, in the middle, last; the broken rule in elements with any three other members, all but one, all",
    "C02": "every list of up to two of the 18 operations in all four places, pairs of forms, a wrong operation next to every other member, and random behaviours; lists of up to 260 elements with the fault first, in the middle, last; the broken rule in elements with any three other members, all but one, all",
    "C03": "all histories of two blocks of definitions and uses in every place, missing names next to every other member, names that are almost equal, plus random behaviours; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) as names of schemas, defined and missing; lists of up to 260 elements with the fault first, in the middle, last; the broken rule in elements with any three other members, all but one, all",
    "C04": "all histories of four additions over colliding names of every kind, all pairs of almost equal names, plus random behaviours; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) as names, twice; lists of up to 260 elements with the fault first, in the middle, last; the broken rule in elements with any three other members, all but one, all",
    "C05": "every pair of limits over boundary values, every place x nesting for representative limits, two-level nesting, contradicting limits next to every other member, plus random behaviours; lists of up to 260 elements with the fault first, in the middle, last; the broken rule in elements with any three other members, all but one, all",
    "C06": "every kind of schema in every place of a URI variable, next to every other member, plus random behaviours; the same broken rule under about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) as names; lists of up to 260 elements with the fault first, in the middle, last; the broken rule in elements with any three other members, all but one, all",
    "C07": "well-formed and malformed tags in every place and nesting; the whole pool of tags pairwise; malformed tags next to every other member; plus random behaviours; lists of up to 260 elements with the fault first, in the middle, last; the broken rule in elements with any three other members, all but one, all",
    "C08": "all histories of three links over combinations and orders of setters, each next to every other setter, plus random behaviours; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) in every member of a link and as relation; a link with one member next to any other element with one member; lists of up to 260 elements with the fault first, in the middle, last; the broken rule in elements with any three other members, all but one, all",
    "C09": "all combinations of up to three faults and repairs, plus random behaviours over the whole interface; the error must be one of the broken rules",
    "C10": "all pairs of thing-level calls, plus random behaviours; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) in every member; everything one call away from a full description; a member of the thing next to any other element with one member",
    "C11": "all pairs of setters of every affordance and form, plus random behaviours; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) in every member; everything one call away from full affordances and forms; two forms in one affordance with one member each, forms and affordances with one member next to any other element",
    "C12": "all setters (pairs; triples for some) of every kind of data schema, every place x nesting, plus random behaviours; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) in every member; everything one call away from full schemas; schemas built alone; two schemas that say one thing each in one affordance, one schema, one inside the other, in two places",
    "C13": "all pairs of setters of every security scheme, all combinations of combo setters, plus random behaviours; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) in every member and as scheme or key; everything one call away from full schemes; any two schemes with one member each",
    "C14": "every built description is read back from its text and JSON value, compared, written again; descriptions with unusual texts, long lists, deep nesting; any two elements with one member each",
    "C15": "every proper edit of one member of every kind of element (about 36,000 documents, every value of the pools, every cardinality), at every place for representative members, plus random documents; three orders of members and reading through a JSON value; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) in every member and as every key",
    "C16": "every improper edit of one member of every kind of element, at every place for representative members, plus random documents with one or two faults; about 210 unusual texts (white space, marks, references, media types, words of the vocabulary, values written as texts, code points, lengths) where they are not allowed",
    "C17": "every value of every extension at every place with one and two extensions, plus random behaviours; everything one call away from full extended elements",
    "C18": "every value of every binding member (pairwise) at its place, plus random behaviours; everything one call away from full forms",
    "C19": "all programs of 6 operations on lists of up to 5 elements; all documents of lists of up to 3 elements, flat and nested, with one member changed",
    "C20": "all pairs of limits of five number types over boundary values, replayed; triples on the specification",
    "C21": "random behaviours with permuted independent calls; the specification also asserts that the permutation is harmless; everything one call away from full elements with calls exchanged",
    "C22": "random behaviours against permuted ones and ones with one call changed or dropped: equality must coincide with equality of the documents; everything one call away from full elements",
}
NOTE = ("TLC explores an explicit TLA+ specification (builder state machine, rules, expected document) and checks its invariants; every complete behaviour is replayed "
        "on the real crate and outcome, error, document and reading back must agree. Bounded: {}. Trusts TLC, the vocabulary tables of the specification, and the harness's comparison.")
WHY_NOT = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash -c '. /opt/vp/env.sh >/dev/null 2>&1; cd /verif/harness && cargo build --offline'",
    "checks": [{
        "property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']}", "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "explicit TLA+ specification checked with TLC; exhaustive and simulated behaviours replayed on the implementation (model-based conformance)",
        "level": "model_checking", "level_note": NOTE.format(CLAIMED[p["id"]])} for p in props if p["id"] in CLAIMED],
    "not_applicable": [{"property": p["id"], "reason": WHY_NOT.get(p["id"], "not claimed yet: the part of the specification that decides it is being built")}
                       for p in props if p["id"] not in CLAIMED],
    "notes": "tools/jobs.py lists what every check explores; known-findings.txt the recorded defects.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
