#!/usr/bin/python3
"""Writes MANIFEST.json from the checks that exist"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {   # property: (technique, level note)
 "C01": ("property-based testing against an independent numpy model of the equations", "random lens models, intrinsics and points of each kind; reference implementation of every lens model; batch/length metamorphic relations; C and python entry points"),
 "C02": ("property-based round-trip testing", "random intrinsics restricted to where the model is invertible; project/unproject round trips through every entry point"),
 "C03": ("property-based testing against numerical derivatives", "6th-order central differences with a self-estimated error; all models and entry points; all gradient selections of the C function"),
 "C04": ("property-based round-trip testing and grammar-based fuzzing of names", "names from a grammar with mutations, against an independent parser"),
 "C05": ("property-based testing: algebraic laws and a reference implementation", "random poses with special angles against matrix definitions"),
 "C06": ("property-based testing against numerical derivatives", "random poses, every flag combination"),
 "C07": ("metamorphic property-based testing of memory layouts", "random strides, broadcasting, out= arrays for each vectorised function, compared with one-at-a-time calls"),
 "C08": ("property-based testing: optimality and recovery oracles", "random point sets incl. degenerate; compared with an SVD-free optimality test and perturbations"),
 "C09": ("model-based property-based testing of the state layout", "random problems; an independent model of the layout; perturbation of each variable"),
 "C10": ("property-based testing against a reference model of the cost", "random problems; independent numpy evaluation of every measurement"),
 "C11": ("property-based testing against numerical derivatives", "random problems; directional and per-column numerical differences"),
 "C12": ("property-based testing: invariants over solves", "random small problems solved from perturbed seeds"),
 "C13": ("property-based testing with injected outliers", "random problems with drawn gross errors"),
 "C14": ("property-based differential testing against dense algebra", "random sparse matrices, layouts, malformed inputs; compared with numpy"),
 "C15": ("property-based differential testing against dense formulas", "random small calibrations, dense numpy propagation"),
 "C16": ("property-based testing: exact recovery, optimality, numerical derivatives", "random ray pairs; each method's criterion is compared with a search"),
 "C17": ("round-trip property-based testing, stateful histories, and structure-aware fuzzing of the C parser under ASAN/UBSAN", "random models written and read through python and C; mutated files through the sanitized C parser"),
 "C18": ("property-based testing of geometric invariants", "random camera pairs and settings"),
 "C19": ("property-based testing against direct geometry", "random rectified systems and points"),
 "C20": ("round-trip property-based testing and a reference model of the colour map", "random images, types, layouts"),
 "C21": ("property-based testing against direct geometry", "random model pairs and options"),
 "C22": ("metamorphic property-based testing", "random models and rigid motions"),
 "C23": ("model-based property-based testing of graph traversal", "random graphs against an independent shortest-path implementation; random index tables"),
 "C24": ("property-based testing against a reference model", "random boards, cameras and noise"),
 "C25": ("property-based recovery testing", "random rigs with noise-free observations"),
 "C26": ("property-based testing against an exact membership oracle", "random polygons and query points"),
 "C27": ("property-based testing against a reference table parser", "random corner tables and globs"),
 "C28": ("round-trip property-based testing of file converters", "random models through the tools"),
 "C29": ("property-based testing of command-line filters against the python API", "random tables through the tools"),
 "C30": ("metamorphic property-based testing with synthetic warps", "random textures and homographies"),
 "C31": ("property-based end-to-end recovery testing", "random rigs through the tool, judged against the drawn truth"),
 "C32": ("property-based differential testing of the image tools", "random stereo pairs, images and point clouds against the geometry evaluated pixel by pixel"),
 "C33": ("API fuzzing with structured malformations", "random valid problems with one thing made wrong, and junk in place of the arguments of valid calls"),
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists("%s/checks/%s.py" % (V, i)):
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py" % i, thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % i,
                           evidence_file="evidence/%s.json" % i, technique=T[i][0], level="exploration", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason="no check has been built yet"))
m = dict(version=1, setup_cmd="python3 lib/mvbuild.py", checks=checks, not_applicable=na,
         notes="Property-based testing and fuzzing. Checks build /repo's working tree out of tree in .build/ and report through lib/pbt.py")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
