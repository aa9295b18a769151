#!/usr/bin/env python3
"""Writes MANIFEST.json (and checks it against properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification of the real C++ (symbolic execution of LLVM IR extracted on every run + SMT)"
DED = "Every obligation of the contracts is discharged for all inputs in the stated ranges; reals for doubles, sequential, engine and solvers trusted. "
BND = "A native run of the same contracts on the real code (ASan/UBSan, IEEE doubles) is a bounded stand-in and replays counterexamples; not counted as proof."
# property: (level, note)
CLAIMS = {
    "P01": ("proof", DED + "Cell counts up to 1e6 per direction. " + BND),
    "P02": ("proof", DED + "Cell counts up to 1e4 per direction. " + BND),
    "P03": ("proof", DED + BND),
    "P05": ("proof", DED + BND),
    "P06": ("proof", DED + "Orders 0..8 (all the code supports). " + BND),
    "P07": ("proof", DED + "All methods and orders enumerated (tables are finite), exactness by exact rational evaluation of the moments against a 1e-12 tolerance. " + BND),
    "P08": ("proof", DED + "All methods and order combinations enumerated, symbolic box; exactness follows from P07 and the product structure. " + BND),
    "P12": ("proof", DED + "KKT conditions proved for one row or one column with arbitrary coefficients and, for two and three rows, for families of fixed matrices with every right-hand side (up to 3 columns); larger systems only in the bounded native run. " + BND),
    "P13": ("proof", DED + "Proved for one active slab per axis with general triangles (all 27 vertex/slab configurations), for triangles inside and outside, and for the face marks; several active planes at once only in the bounded native run. " + BND),
    "P14": ("proof", DED + "Vertex counts 0..9 (all the polygon holds), at most one marked edge plus one lone vertex per case. " + BND),
    "P15": ("proof", DED + BND),
    "P16": ("proof", DED + BND),
    "P22": ("proof", DED + "Mesh sizes enumerated up to a bound. " + BND),
    "P23": ("proof", DED + "Mesh sizes enumerated up to a bound. " + BND),
    "P24": ("proof", DED + "Mesh sizes enumerated up to a bound. " + BND),
    "P25": ("proof", DED + "Coordinates in [-10,10]; normal for |cross|^2 > 1e-4; aspect ratio only in the bounded native run. " + BND),
    "P04": ("proof", DED + "Grids of up to four cells per direction, all subsets of populated cells for the small ones; the grid sizes are enumerated, the queries symbolic. " + BND),
    "P09": ("proof", DED + "Arrangements of full elements on small grids enumerated; moments of the assembled rules compared with the exact ones per solid block. " + BND),
    "P10": ("proof", DED + "Proved for the elimination (constant and linear fits) and the assembled system; the solve with higher orders and the whole trimmed pipeline only in the bounded native run. NNLS itself is P12. " + BND),
    "P11": ("proof", DED + BND),
    "P17": ("proof", DED + "Triangle counts 0..5 enumerated, coordinates symbolic. " + BND),
    "P18": ("proof", DED + "Points symbolic, bodies and ray directions from a fixed family (box, tetrahedron, L-shaped and non-convex polyhedra, several tessellations, scales and positions); the random choice of rays is an arbitrary sequence in the caller's contract. " + BND),
    "P19": ("proof", DED + "Fill and merge proved against the contract of the operator for every arrangement of trimmed cells (and families of walls) on grids of up to 8 cells, every side of every component, 1 to 3 threads' partitions; agreement with the real operator only in the bounded native run. " + BND),
    "P20": ("proof", DED + "Levels 0..3, exact classification of the cells assumed of the operator. " + BND),
    "P26": ("proof", DED + BND),
    "P27": ("proof", DED + "Values symbolic; keys, offered types and write sequences (two writes, thorough: three) enumerated over the real key sets, typed and by-name access mixed. " + BND),
    "P21": ("proof", "Proved, in real arithmetic, for families with an arbitrary position of the cutting faces: half spaces along each direction, slabs, edge and corner regions, inclined planes (slopes listed in the contract), a corner cut off by a plane; both plane orientations the code tries. Callees by contract: search tree (P17), inside test of the trimmed domain (P18; arbitrary answer on the surface). The whole pGetTrimmedDomain with quality control and retries, turned boxes and tetrahedra, and flush faces: bounded, run natively (ASan/UBSan) against an independent half-space intersection."),
    "P28": ("exploration", "Bounded, nothing proved: file streams and text formatting are outside the verifier's reach. The contracts (files parsed independently of the code, and read back by the code) are checked at run time on the real code (ASan/UBSan) for seeded families of meshes up to 43000 triangles, grids up to 4x4x4 and malformed files."),
    "P29": ("proof", DED + "Orders 0..12 symbolic per direction, every method, grid type, omitted entry and incomplete condition enumerated. " + BND),
    "P30": ("proof", DED + "Creation of conditions proved against the contract of the clipping for all activity patterns and pieces per cell on grids of 2 to 4 cells; the clipping itself for planar triangles at every position (also on faces), for inclined ones in three families (thorough: every position) across two cells; boxes across 27 cells only in the bounded native run. Planar surfaces closer than 1e-9 to a face but not on it are excluded. " + BND),
    "P31": ("proof", DED + "Container sizes enumerated up to a bound. " + BND),
}
NA = {
    "P32": "whole-pipeline property (file IO, moment fitting, ray casting, OpenMP): no contract within reach decides it; its parts are P04-P30",
    "P33": "Python/pybind11 layer: no deductive verifier for it here",
    "P34": "thread interleavings of OpenMP regions are outside the sequential contract semantics of the verifier",
}
PENDING = "contracts not finished yet"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert all(c in ids for c in CLAIMS) and all(c in ids for c in NA) and not set(CLAIMS) & set(NA)
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "none (no hooks in /repo are needed)", "enable": "nothing to enable: the contracts are compiled against the unmodified sources", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "technique": TECH,
                 "level": CLAIMS[i][0], "level_note": CLAIMS[i][1]} for i in ids if i in CLAIMS],
     "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in ids if i not in CLAIMS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
