#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run after changing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DFS = "exhaustive bounded enumeration of inputs and call sequences on the real code (stateless model checking), reference-model oracle"
BFS = "explicit-state search over operation sequences on the real code, compared with a record model in every state"
FAULT = "exhaustive enumeration of reader/writer schedules with bounded deviations and of all fault points on the real code"
SCHED = "exhaustive enumeration of task orders and of thread interleavings up to a preemption bound on the real code"
CONF = "exhaustive bounded enumeration of format-model states, replayed against the real codec in both directions"
T = {
    "C01": (DFS, "every index array over small alphabets up to length 6 (8 thorough), 12 long patterns x 40 maxima x lengths"),
    "C02": (DFS, "all small vertex arrays over corner coordinates, extents, offsets, scales and precisions; bound checked in exact arithmetic"),
    "C03": (DFS, "grids of directions on all octants x settings; the documented angle between vectors is a known finding"),
    "C04": (DFS, "grids, end points and neighbours of code boundaries x all precisions of 0 to 32 bits and beyond"),
    "C05": (DFS, "all kinds x small arrays x precisions x name lengths x mixes of up to 4 arrays"),
    "C06": (DFS, "lists of up to 3 meshes x presence x names, meshes that differ in one thing, limits of names, segments and counts; sync against async"),
    "C07": (DFS, "all byte strings up to a length, all single-byte mutations and field boundary pairs of base files, all header combinations; overflow checks on, allocator bounded"),
    "C08": (DFS, "all prefixes of all base files, all cuts of every segment, all concatenations of pairs with all kinds of trailing data"),
    "C09": (FAULT, "every delivery with up to 2 (3 thorough) deviations, uniform chunkings, an error at every call"),
    "C10": (FAULT, "every acceptance pattern with up to 2 (3 thorough) deviations, uniform chunkings, a failure at every call including flush"),
    "C11": (CONF, "independent codec of both layouts; all segment sequences up to 3 (4), field values at their limits, version tuples"),
    "C12": (DFS, "all corner tables over small alphabets x presence of parts; independent corner-by-corner oracle"),
    "C13": (DFS, "all corner tables over small alphabets x presence of parts; independent corner-by-corner oracle"),
    "C14": (BFS, "all operation sequences up to depth 3 (5 thorough) from an empty and a full mesh"),
    "C15": (DFS, "all small meshes around the limits of the rule; accepted ones are saved and loaded"),
    "C16": (DFS, "lists of up to 3 meshes of 14 kinds x names x values; independent OBJ oracle"),
    "C17": (DFS, "all documents of up to 3 (4) lines of 30, all corner triples of 34 forms, all strings up to 6 symbols; independent OBJ grammar as oracle"),
    "C18": (DFS, "all convex polygons on point sets up to n corners x starts x planes x orientations; exact cover oracle"),
    "C19": (DFS, "all operation sequences up to depth 4 over all widths; independent bit-string model, scripted sources"),
    "C20": (SCHED, "all task orders of up to 6 segments, tasks preempted up to 3 times, pairs and triples of calls in threads switched at reads, writes and memory requests with up to 2 (3) delays; whole calls, large ones too, within every input or output call of another, 300 at once"),
    "C21": (DFS, "meshes x settings x up to 4 generations, small exhaustive value grids"),
    "C22": (DFS, "all index arrays over small alphabets incl. out of range x presence of parts"),
    "C23": (DFS, "all triples over component alphabets from 1e-45 to 3e38 and small arrays of them"),
    "C24": (BFS, "all sequences of up to 3 operations out of a set covering the public API, each compared with a fresh process"),
    "C26": (DFS, "builds with 64-bit indices and doubles and with 16-bit indices: the bounded families of 16 other properties plus indices of every width, whole-mantissa values and indices that do not fit"),
    "C27": (DFS, "six builds: what each makes of 11120 cases loaded by each of the others, saved bytes compared, base files with every byte damaged in 16 ways; each build is the oracle of the others"),
    "C28": (DFS, "independent fault finder (all defects a file has) against the error returned, for every byte damage of base files; scripted sources and sinks failing with every kind at every call; verify() against the mesh"),
    "C29": (DFS, "small meshes of every structure, special floats in every part, all pairs of odd settings, declared maxima; every operation returns and saved files load"),
    "C30": (DFS, "all sequences of up to 4 (5) of 13 operations on 7 lists of meshes, three ways of going on after each; a model carried along, and a newly made mesh with the same arrays as oracle"),
    "C25": (DFS, "independent cost model against file sizes over all array kinds, patterns, maxima and settings"),
}
DONE = os.environ.get("DONE", "").split() or sorted(T)
checks = []
na = []
for p, (tech, note) in sorted(T.items()):
    if p not in DONE:
        na.append({"property": p, "reason": "its check is still being built"})
        continue
    checks.append(
        {
            "property": p,
            "quick_cmd": f"./check.py {p} --tier quick",
            "thorough_cmd": f"./check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": tech,
            "level": "model_checking",
            "level_note": "exhaustive within the stated bounds: " + note,
        }
    )
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
