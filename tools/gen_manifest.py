"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded model checking: the repository's functions are executed symbolically from their current source (state merging), assertions discharged with z3, counterexamples replayed on the real code"
NOTE = ("Holds for every value within the bounds listed per harness in the evidence file (finite universes, bounded histories); trusted: the Python encoding in "
        "/verif/symex, the environment models named in the evidence, z3. Encoding and real code are compared by replaying solver models on every run.")
CLAIMED = {
    "C01": "Pairs of calls of thirteen signatures mixing all parameter kinds, in every pair of the listed calling styles (up to 4 positional and 3 keyword arguments); all integer values.",
    "C02": "The listed histories of up to 8 calls over 1-3 sessions (nine memoized functions); all integer arguments.",
    "C03": "Fourteen signatures mixing all parameter kinds in the listed calling styles and wrapper patterns, run and no-op; the listed histories passing values and references; all integer arguments.",
    "C04": "0 to 3 arbitrary returned integers and 11 or 13 distinct ones; outputs inferred, variable, declared, named, annotated; five ways of looking up.",
    "C05": "All sequences of up to 2 arbitrary operations after the listed beginnings (up to 4 in all); two keys, two values, arbitrary and possibly equal.",
    "C06": "All sequences of 1-2 arbitrary operations after the listed beginnings; two calls with arbitrary, possibly equal identities and contents.",
    "C07": "Sessions of up to 3 calls after up to one committed session; crash or database error at every database and file operation of the commit; all integer arguments.",
    "C08": "Transactions of up to 4 writes, nested or not, file and in-memory; up to 10 consecutive errors from any write, begin or commit; one python error.",
    "C09": "Up to 4 operations over two values of every size from 400 to 1600 bytes around three thresholds; a crash at any point of one operation.",
    "C10": "Values of eight annotated types up to depth 3 and width 3 with arbitrary integer leaves; unwrapped, indexed, lazily, eagerly, attached; same session, evicted, new session.",
    "C11": "Collections of seven annotated types up to depth 3 and width 3, passed, returned, found by content; pairs of collections of five types; all integer leaves and coincidences.",
    "C12": "All call graphs of 3 calls and 3 references (thorough: 4), all sets asked for; the listed histories of up to 3 calls; all integer arguments.",
    "C13": "Histories of up to 3 calls and their structural calls; every subset deleted, in each residency; all integer arguments.",
    "C14": "Histories of up to 3 calls (4 thorough), every subset of the calls deleted before the collection; all integer arguments.",
    "C25": "Four functions with defaulted, ignored and pointed-to parameters, all listed forms of giving them, in a context, no-op and outside; all integer values.",
    "C26": "One call on an object with a nested list (list, dict or instance) to five functions sharing it with their result; 4 kinds of change to argument, result and what is read, before and after the commit; small integers. Two known findings: references sharing an in-memory value, functions changing an object they are passed.",
    "C28": "Histories of every element of every frame over three universes; tables and joins of frames of three shapes with any elements, any of up to six column choices; six recorded histories with all integer arguments. One known finding: values whose histories have nothing in common.",
    "C29": "Modules of up to three names bound to any of 28 kinds of object; source trees of up to four modules and packages, one of which may fail to import; three dependencies re-read in two arbitrary states of the program.",
    "C27": "The listed interleavings of two sessions (up to 7 calls, 4 commits); all integer arguments and coincidences. Unversioned storages only.",
    "C15": "All chains of 3 nested levels of six kinds (two storages, run, no-op, inherited, noop()), calls before and after each, exceptions raised and caught at any level; bodies entering levels; failing commits.",
    "C16": "The listed histories of up to 9 calls and toggles over up to two sessions; all integer arguments and coincidences.",
    "C17": "All histories of 5 syncs (thorough: 6) of arbitrary, possibly equal sources, each declared or answered same, changed or aborted; two components synchronized twice; one edit synchronized through the storage and reopened.",
    "C18": "The listed scripts of up to 5 steps (calls, edits, drops, evictions, new sessions) over two memoized functions and two helpers; every subset of the parts touched by an execution, as a function of behaviour; all sources and verdicts.",
    "C19": "A program of nine tracked functions and methods in two modules, each doing up to 2 (thorough: 3) arbitrary things in a row, nested up to 4 (6) deep; memoized functions calling tracked and memoized ones in run and no-op mode, every combination of two steps, arbitrary callees, the listed histories of up to 3 calls. Generator functions excluded.",
    "C20": "All well-formed frames over four small universes of refs/calls (two to three variables, one or two functions, incl. cycles and twin nodes); single edits.",
    "C21": "All well-formed frames over the same universes; all selections, start nodes and initial states within them.",
    "C22": "All pairs of well-formed frames over the same universes.",
    "C23": "All subsets of up to 5 recorded calls of two functions; all frames of one or two variables without calls, all well-formed frames over two small universes; both directions, with and without reusing nodes; histories of up to 4 calls through the real storage.",
    "C30": "The listed histories of up to 6 calls of nine functions, some with parameters and outputs named like functions; frames of each function, of results in all forms of giving them with repetitions, of two variables of up to three results, expanded both ways; all integer arguments and coincidences.",
    "C24": "All directed graphs with up to 4 (topological order: 5) nodes; edges, start and end symbolic.",
}
PENDING = "no check for it yet (machinery under construction)"
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo. Checks import and interpret /repo's working tree directly; nothing is built."}
for p in props:
    if p in CLAIMED:
        m["checks"].append({"property": p, "quick_cmd": "/opt/venv/bin/python /verif/check.py %s --tier quick" % p,
                            "thorough_cmd": "/opt/venv/bin/python /verif/check.py %s --tier thorough" % p,
                            "technique": TECH, "level": "model_checking", "level_note": CLAIMED[p] + " " + NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, PENDING)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
