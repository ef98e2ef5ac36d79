"""Writes /verif/MANIFEST.json (run from /verif after changing what is claimed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "PBT against an independent multilinear reference",
 "C02": "PBT against tensor-product natural cubic splines (scipy) + interpolation round trip",
 "C03": "PBT against a reference for each extrapolation mode, every evaluation form",
 "C04": "PBT over generated derivative lists against exact derivatives of the reference interpolant",
 "C05": "differential PBT over every evaluation form + dirty preallocated outputs",
 "C06": "metamorphic PBT over memory layouts with guarded, snapshotted arguments",
 "C07": "PBT against a dense solve of the defining equations + differential between interfaces",
 "C08": "differential PBT old interfaces vs current evaluators",
 "C09": "PBT of values and gradients against the reference spline",
 "C10": "stateful (model-based) PBT of spline objects",
 "C11": "PBT against reference and numpy.interp, every call form",
 "C12": "PBT against reference and eval_linear, every call form",
 "C13": "generated jitted programs, differential with the calls from Python",
 "C14": "generated call histories in fresh processes; same call alone as oracle",
 "C15": "PBT: enumeration against itertools.product; generated invalid grids must be rejected",
 "C16": "PBT: unique factorisation at primes identifies each monomial; exact derivatives",
 "C17": "stateful PBT against a least squares model with damping",
 "C18": "PBT: set equality with the sparse grid built from its definition",
 "C19": "stateful PBT against the interpolating polynomial",
 "C20": "PBT against exact gradients of the interpolating polynomial",
 "C21": "PBT of each building block against its definition",
 "C22": "PBT against long-double Hermite cubics and cubic recovery",
 "C23": "fuzzing extreme points with bounds checking on / poisoned memory",
 "C24": "metamorphic PBT: linearity, affine change, reversal, relabelling of axes",
 "C25": "PBT against the divided-difference definition in exact rationals",
 "C27": "PBT: templates generated from syntax trees, rendered independently; generated errors at known places",
 "C28": "PBT: generated unsupported calls must raise; supported calls around them against the reference",
 "C29": "generated schedules of threads inside the package, same calls alone as oracle; model-based PBT of copies",
 "C30": "generated jitted programs over tuple types and mixes of axes, definitions in Python as oracle",
 "C26": "metamorphic PBT over argument types: same numbers, double precision reference",
}
note = ("Generated-input search (Hypothesis, seeded by VERIF_SEED, shrinking to a replay file); "
        "it shows the property on everything generated, not its absence elsewhere. "
        "Trusts the reference in /verif/vp, numpy, scipy and numba. ")
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
import ast
checks = []
for p in props:
    pid = p["id"]
    t = ast.parse(open(os.path.join(HERE, "vp/props/%s.py" % pid.lower())).read())
    ass = []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "ASSUMPTIONS":
            ass = ast.literal_eval(n.value)
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid,
                       thorough_cmd="python3 check.py %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid,
                       technique="property-based testing: " + TECH[pid].replace("PBT", "generated cases"),
                       level="exploration", level_note=note + "Assumes: " + "; ".join(ass) + "."))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B tools/selfcheck.py", checks=checks, not_applicable=[],
         notes="No hooks: the checks import /repo's working tree as it is. VERIF_REPO=<dir> points them at another copy (own experiments only). Known findings and fixes: KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
