"""C12: every predefined parameter combination is usable: its keys are parameters of the
constructor and each of its values is accepted by it."""
import ast
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, leaves, is_const, const_value, show
from sa.values import AV, HDict, HList, vconst, vany
from sa.units import all_units, unit_stats, UnitRun
from sa.drive import ClassRun, ctor_params
from sa.interp import Interp
from checks.domains import Ctor

R_KEY = "grid-key-is-a-parameter"
R_VAL = "grid-value-accepted"
R_USED = "grid-values-distinct"
R_RAW = "grid-is-the-declared-dictionary"


def concrete(v, st, depth=0):
    """the literal value of an abstract value, or Ellipsis"""
    if depth > 5:
        return Ellipsis
    if v.kind == "none":
        return None
    if v.is_const:
        return v.value
    if v.kind == "tuple":
        r = tuple(concrete(x, st, depth + 1) for x in v.data)
        return Ellipsis if any(x is Ellipsis for x in r) else r
    if v.kind == "list":
        h = st.heap.get(v.data)
        if isinstance(h, HList) and h.items is not None:
            r = [concrete(x, st, depth + 1) for x in h.items]
            return Ellipsis if any(x is Ellipsis for x in r) else r
    if v.kind == "dict":
        h = st.heap.get(v.data)
        if isinstance(h, HDict) and h.exact():
            r = {k: concrete(x, st, depth + 1) for k, x in h.keys.items()}
            return Ellipsis if any(x is Ellipsis for x in r.values()) else r
    return Ellipsis


def unit(prog, un):
    ci = prog.classes[un.name]
    u = UnitRun()
    f = ci.find("parameter_combinations")
    r = ClassRun(prog, ci)
    u.it = r.it
    obs = []
    if f is None:
        return obs, unit_stats(u)
    where = f"{f[1].module.path}:{f[1].node.lineno} in {f[1].qualname}"
    alts = r.call("parameter_combinations", [], {"raw": vconst(True)}, phase="grid")
    c = Ctor(prog, ci)
    have = {n for n, _ in c.params}
    nval = 0
    for s, v in alts:
        g = s.heap.get(v.data) if v.kind in ("dict", "list") else None
        grids = []
        if isinstance(g, HDict) and g.exact():
            grids.append(({k: x for k, x in g.keys.items()}, True))
        elif isinstance(g, HList) and g.items is not None:
            for x in g.items:
                h = s.heap.get(x.data) if x.kind == "dict" else None
                if isinstance(h, HDict) and h.exact():
                    grids.append((dict(h.keys), False))
        if not grids:
            obs.append(Ob(R_KEY, f"{un.name}", UNK, where, "grid not resolved"))
            continue
        for grid, lists in grids:
            if not grid:
                obs.append(Ob(R_KEY, f"{un.name} (empty)", OK, where, ""))
            for k, x in grid.items():
                obs.append(Ob(R_KEY, f"{un.name}[{k!r}]", OK if k in have else BAD, where,
                              "" if k in have else
                              f"{k!r} is not a parameter of the constructor of {un.name}: the "
                              "combination silently runs with the default"))
                if k not in have:
                    continue
                vals = [x]
                if lists:
                    h = s.heap.get(x.data) if x.kind == "list" else None
                    if x.kind == "tuple":
                        vals = list(x.data)
                    elif isinstance(h, HList) and h.items is not None:
                        vals = list(h.items)
                    else:
                        obs.append(Ob(R_VAL, f"{un.name}[{k!r}]", UNK, where,
                                      "values not resolved"))
                        continue
                    if not vals:
                        obs.append(Ob(R_VAL, f"{un.name}[{k!r}]", BAD, where,
                                      f"no value for {k!r}: there are no combinations at all"))
                        continue
                cs = [concrete(y, s) for y in vals]
                if Ellipsis not in cs:
                    dup = [y for i, y in enumerate(cs) if y in cs[:i]]
                    obs.append(Ob(R_USED, f"{un.name}[{k!r}]", BAD if dup else OK, where,
                                  f"{dup} listed twice" if dup else ""))
                for y in cs:
                    nval += 1
                    if y is Ellipsis:
                        obs.append(Ob(R_VAL, f"{un.name}[{k!r}]", UNK, where,
                                      "a value is not resolved"))
                        continue
                    rj, e = c.rejects(k, y)
                    obs.append(Ob(R_VAL, f"{un.name}[{k!r}]",
                                  UNK if rj is None else (BAD if rj else OK),
                                  e.where() if e else where,
                                  f"{k}={y!r} of the predefined grid is rejected" if rj else ""))
    st = unit_stats(u)
    st["grid_values"] = nval
    return obs, st


def product(prog, name):
    """a sample dictionary through generate_parameter_combinations: analysed abstractly, the
    result must be the Cartesian product over every key, pairing each key with its own values"""
    ci = prog.classes["SMOTE"]
    r = ClassRun(prog, ci)
    u = UnitRun()
    u.it = r.it
    obs = []
    f = ci.find("generate_parameter_combinations")
    if f is None:
        return obs, unit_stats(u)
    where = f"{f[1].module.path}:{f[1].node.lineno} in {f[1].qualname}"
    d = vany(T("arg", "dictionary"), frozenset([("arg", "dictionary")]))
    r.it.phase = "grid"
    s0 = r.copy_state()
    alts = r.call("generate_parameter_combinations", [], {"dictionary": d, "raw": vconst(True)},
                  st=s0, phase="grid")
    ok = all(v.term is d.term for _, v in alts)
    obs.append(Ob(R_RAW, "raw grid", OK if ok else BAD, where,
                  "" if ok else "raw=True does not return the dictionary itself"))
    # a dictionary of known content
    st = r.copy_state()
    it = r.it
    import ast as _a
    node = _a.parse("x").body[0].value
    want = []
    ks = {}
    for k, vs in (("gamma", (1, 2)), ("alpha", ("p", "q", "r")), ("beta", (0.5,))):
        node = _a.parse("\n" * len(ks) + "x").body[0].value
        ks[k] = it.mk_list([vconst(x) for x in vs], st, node, "grid" + k)
    for g in (1, 2):
        for al in ("p", "q", "r"):
            want.append({"gamma": g, "alpha": al, "beta": 0.5})
    d = it.mk_dict(ks, st, _a.parse("\n\n\n\nx").body[0].value)
    alts = r.call("generate_parameter_combinations", [], {"dictionary": d, "raw": vconst(False)},
                  st=st, phase="grid")
    for s, v in alts:
        got = concrete(v, s)
        if got is Ellipsis or not isinstance(got, list):
            obs.append(Ob(R_RAW, "combinations", UNK, where, "result not resolved"))
            continue
        key = lambda x: sorted((k, str(y)) for k, y in x.items())      # noqa: E731
        ok = sorted(map(key, got)) == sorted(map(key, want))
        obs.append(Ob(R_RAW, "combinations", OK if ok else BAD, where, "" if ok else
                      f"the combinations of a 2x3x1 grid are {got} instead of the Cartesian "
                      "product"))
    return obs, unit_stats(u)


def main(tier):
    c = Check("C12", tier)
    us = [x for x in all_units(c.prog) if x.kind != "function"]
    c.run_units(unit, us)
    c.run_units(product, ["generate_parameter_combinations"])
    c.explanation = (
        "The grid returned by every parameter_combinations is evaluated by constant propagation; "
        "each key must be a named constructor parameter (unknown keywords are swallowed by "
        "**_kwargs) and each value must lie outside the rejection condition of the constructor "
        "(the path conditions of its raise statements).")
    c.assumptions = ["values that are not literals are reported as undecided"]
    return c.finish({R_KEY: 200, R_VAL: 200})
