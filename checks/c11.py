"""C11: constructors reject invalid parameters and accept valid ones."""
import ast
import json
import os
import re
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.units import all_units, unit_stats, UnitRun
from checks.domains import Ctor

R_REJ = "invalid-value-rejected"
R_ACC = "valid-value-accepted"
R_DEF = "default-accepted"
R_EXC = "rejection-is-a-ValueError"

EPS = 1e-6
SPEC = json.load(open(os.path.join(os.path.dirname(__file__), "domains.json")))


def member(spec):
    """(predicate, critical values) of a documented domain"""
    if isinstance(spec, dict):
        acc, rej = spec["accept"], spec["reject"]
        return (lambda v: v in acc and not (isinstance(v, bool))), list(acc) + list(rej)
    none = spec.endswith(" or None")
    s = spec.replace(" or None", "")
    m = re.match(r"(>=?)(.*)$", s)
    if m:
        c = float(m.group(2))
        lo, hi, incl, inch = c, None, m.group(1) == ">=", True
    else:
        m = re.match(r"([\[(])(.*), (.*)([\])])$", s)
        lo, hi = float(m.group(2)), float(m.group(3))
        incl, inch = m.group(1) == "[", m.group(4) == "]"

    def inside(v):
        if v is None:
            return none
        if v < lo or (v == lo and not incl):
            return False
        if hi is not None and (v > hi or (v == hi and not inch)):
            return False
        return True
    crit = []
    for b in (lo, hi):
        if b is not None:
            b = int(b) if b == int(b) else b
            crit += [b - 1, b - EPS, b, b + EPS, b + 1]
    crit += [-1000000, 1000000]
    return inside, crit + ([None] if none else [])


def unit(prog, un):
    ci = prog.classes[un.name]
    c = Ctor(prog, ci)
    it = c.run.it
    u = UnitRun()
    u.it = it
    obs = []
    have = [n for n, _ in c.params]
    w0 = f"{c.fi.module.path}:{c.fi.node.lineno} in {c.fi.qualname}"
    nprobe = 0
    for p, spec in sorted(SPEC.get(un.name, {}).items()):
        if p not in have:
            continue
        inside, crit = member(spec)
        if not isinstance(spec, dict):
            nums, _ = c.constants(p)
            for k in nums:
                crit += [k - EPS, k, k + EPS]
        key = f"{un.name}.{p}"
        res = {R_REJ: [OK, w0, ""], R_ACC: [OK, w0, ""]}
        for v in crit:
            nprobe += 1
            r, e = c.rejects(p, v)
            rule = R_ACC if inside(v) else R_REJ
            want = rule == R_REJ
            cur = res[rule]
            if r is None:
                # undecided, or rejected in some configurations only
                if cur[0] == OK:
                    cur[:] = [UNK, e.where(), f"{p}={v!r} not decided"]
            elif r != want and cur[0] != BAD:
                cur[:] = [BAD, e.where() if e else w0,
                          f"{p}={v!r} is {'outside' if want else 'inside'} the documented range "
                          f"{spec} but the constructor {'accepts' if want else 'rejects'} it"]
            if r and e is not None:
                x = e.data
                cls = exc_name(x)
                if cls is not None:
                    obs.append(Ob(R_EXC, key, OK if cls == "ValueError" else BAD, e.where(),
                                  "" if cls == "ValueError" else f"raises {cls}"))
        for rule, (vd, w, m) in res.items():
            obs.append(Ob(rule, key, vd, w, m))
    for n, d in c.params:
        if d is None or not c.relevant(n):
            continue
        try:
            v = ast.literal_eval(d)
        except (ValueError, SyntaxError):
            continue
        r, e = c.rejects(n, v)
        obs.append(Ob(R_DEF, f"{un.name}.{n}", UNK if r is None else (BAD if r else OK),
                      e.where() if e else w0,
                      f"the default {n}={v!r} is rejected" if r else ""))
    st = unit_stats(u)
    st["probed_values"] = nprobe
    st["raise_paths"] = len(c.paths)
    return obs, st


def exc_name(v):
    t = getattr(v, "term", None)
    if t is None:
        return None
    s = repr(t)
    m = re.search(r"\b([A-Z]\w*(?:Error|Exception))\b", s)
    return m.group(1) if m else None


def main(tier):
    c = Check("C11", tier)
    us = [x for x in all_units(c.prog) if x.kind != "function"]
    c.run_units(unit, us)
    c.explanation = (
        "The raise statements reachable from each constructor (check helpers inlined) give its "
        "rejection condition as path conditions over the parameters; per parameter it is compared "
        "exactly, at every constant it is compared with and at the bounds of the documented domain "
        "(checks/domains.json) and their neighbourhoods, with that domain.")
    c.assumptions = ["parameters without a documented domain are not judged",
                     "conditions are piecewise constant between the constants they mention"]
    return c.finish({R_REJ: 180, R_ACC: 180, R_DEF: 180})
