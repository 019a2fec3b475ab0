"""C06: running an object never changes its own configuration nor the parameter
containers the user supplied."""
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.values import HDict, HList, HObj, HExt
from sa.units import all_units, unit_stats, method_args, UnitRun
from sa.drive import ClassRun, reachable

R_SAME = "reported-parameter-unchanged"
R_CONT = "supplied-container-unchanged"
R_ATTR = "configuration-attribute-unchanged"


def snap(v, st, depth=5):
    if depth == 0:
        return ("...",)
    if v.kind == "dict" and v.data in st.heap:
        h = st.heap[v.data]
        if isinstance(h, HDict):
            return ("dict", tuple(sorted((repr(k), snap(x, st, depth - 1))
                                         for k, x in h.keys.items())),
                    tuple(x.term.uid for x in h.rest), h.ver.uid if h.ver is not None else None)
    if v.kind in ("list", "set") and v.data in st.heap:
        h = st.heap[v.data]
        if isinstance(h, HList):
            return ("list", None if h.items is None else
                    tuple(snap(x, st, depth - 1) for x in h.items),
                    h.ln.uid if h.ln is not None else None)
    if v.kind in ("tuple", "union"):
        return (v.kind, tuple(snap(x, st, depth - 1) for x in v.data))
    if v.kind in ("obj", "ext"):
        return (v.kind, v.term.uid)
    return ("v", v.term.uid)


def reported(r, st):
    """{key: AV} that get_params() gives in state st (does not disturb st)"""
    s = st.copy()
    alts = r.call("get_params", [], phase="get_params", st=s)
    if not alts:
        return None, s
    v = r.it.strip(r.it.merge_alts(alts, s))
    h = s.heap.get(v.data) if v.kind == "dict" else None
    if not isinstance(h, HDict) or h.rest or h.ver is not None:
        return None, s
    return h.keys, s


def unit(prog, un):
    ci = prog.classes[un.name]
    r = ClassRun(prog, ci)
    it = r.it
    u = UnitRun()
    u.it = it
    obs = []
    before, s0 = reported(r, r.st)
    ctor = {a: snap(v, r.st) for a, v in r.st.heap[r.loc].attrs.items()}
    ev0 = len(it.events)
    where = ci.module.path
    if before is None:
        before = {}
    sb = {k: snap(v, s0) for k, v in before.items()}
    states = []
    for c in un.calls:
        args = method_args(prog, ci, c)
        if args is None:
            continue
        alts = r.call(c, [], dict(args), phase=c)
        states += [(c, s.copy()) for s, _ in alts]
        if c != un.calls[-1]:
            it.merge_alts([(s.copy(), v) for s, v in alts], r.st)
    last = {}
    for e in it.events[ev0:]:
        if e.kind == "setattr" and e.data[0] == r.loc:
            last.setdefault(e.data[1], e)
    for i, (c, s) in enumerate(states):
        after, s1 = reported(r, s)
        if after is None:
            continue
        for k in before:
            if k not in after:
                continue
            sa = snap(after[k], s1)
            ok = sa == sb[k]
            e = None
            if not ok:
                for a, ev in last.items():
                    e = ev if ctor.get(a) is not None else e
            obs.append(Ob(R_SAME, f"{un.name}.{k}", OK if ok else BAD,
                          e.where() if e is not None else where,
                          f"after {c} the reported parameter {k} is {after[k].term!r} "
                          f"instead of {before[k].term!r}" if not ok else ""))
    # containers supplied by the user, or held as configuration
    conf = {}
    for n, v in r.param_av.items():
        conf[("param", n)] = n
    hit = set()
    n = 0
    for e in it.events[ev0:]:
        if e.kind != "write":
            continue
        n += 1
        locs, how = e.data
        for l in locs:
            if l in conf:
                hit.add(conf[l])
                obs.append(Ob(R_CONT, f"{un.name}.{conf[l]}", BAD, e.where(),
                              f"{how} modifies the object supplied as {conf[l]} "
                              f"(call chain {' -> '.join(f for _, f, _ in e.chain)})"))
    for p in r.param_av:
        if p not in hit and r.param_av[p].kind == "any":
            obs.append(Ob(R_CONT, f"{un.name}.{p}", OK, where, f"{n} write effects"))
    st = unit_stats(u)
    st["write_effects"] = n
    return obs, st


def main(tier):
    c = Check("C06", tier)
    units = [u for u in all_units(c.prog) if u.kind != "function"]
    c.run_units(unit, units)
    c.explanation = (
        "Typestate by value numbering: the parameters each object reports are evaluated "
        "symbolically before and after its public data methods (every return path, callees "
        "inlined) and must have identical value numbers, deep through dictionaries; and no "
        "in-place effect of the run may touch memory of a user-supplied parameter.")
    return c.finish({R_SAME: 350, R_CONT: 80})
