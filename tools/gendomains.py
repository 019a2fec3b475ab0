"""Development tool: print the parameter domains the constructors of the tree accept (the
specification checks/domains.json was started from this listing and then reviewed)."""
import json
import sys
sys.path.insert(0, "/verif")
from sa.framework import load_program            # noqa: E402
from sa.units import all_units                   # noqa: E402
from checks.domains import Ctor                  # noqa: E402

EPS = 1e-6


def describe(c, p):
    if p == "n_jobs":
        return {"accept": [1, 2, 8], "reject": [0, -1, None]}
    special = {
        "hidden_range": {"accept": [[4, 20], [1, 1]], "reject": [[0, 5], [4, 0]]},
        "order": {"accept": [1, 2, 3], "reject": [0, -1]},
        "kernel": {"accept": ["inner", "rbf_1.0"], "reject": ["rbf_-1", "rbf_0", "poly"]},
        "d_cut": {"accept": ["auto", 0.5], "reject": [0, -1, "no_such_value"]}}
    if p in special:
        return special[p]
    if p == "topology" and c.fi.qualname.startswith("polynom"):
        return {"accept": ["star", "bus", "poly_1", "poly_3"],
                "reject": ["poly_0", "no_such_value"]}
    if p == "method" and c.fi.qualname.startswith("G_SMOTE"):
        return {"accept": ["linear", "non-linear_2.0"],
                "reject": ["non-linear_-1", "no_such_value"]}
    if p == "oversampler":
        return None
    nums, strs = c.constants(p)
    strs = {x for x in strs if x not in ("_",)}
    if strs:
        acc = [x for x in sorted(strs) if c.rejects(p, x)[0] is False]
        return {"accept": acc, "reject": ["no_such_value", ""]}
    if not nums:
        return None
    lo, hi = min(nums), max(nums)
    r = {x: c.rejects(p, x)[0] for x in (lo - EPS, lo, hi, hi + EPS, 1e9, -1e9)}
    if r[lo - EPS] and not r[1e9]:
        return f">={lo:g}" if not r[lo] else f">{lo:g}"
    if r[lo - EPS] and r[1e9]:
        return f"{'[' if not r[lo] else '('}{lo:g}, {hi:g}{']' if not r[hi] else ')'}"
    return f"? {r}"


def main():
    prog = load_program()
    out = {}
    for u in all_units(prog):
        if u.kind == "function":
            continue
        c = Ctor(prog, prog.classes[u.name])
        d = {}
        for n, _ in c.params:
            if c.relevant(n):
                x = describe(c, n)
                if x is not None:
                    d[n] = x
        if d:
            out[u.name] = d
    print("{" + ",\n".join(f" {json.dumps(k)}: {json.dumps(v)}" for k, v in out.items()) + "}")


main()
