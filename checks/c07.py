"""C07: successive calls on one object are independent: no result of an earlier call
(other than the advanced random generator) can influence a later one."""
import ast
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import Term, leaves, is_const, const_value
from sa.values import HDict, HList, HObj, HExt, vconst
from sa.units import all_units, unit_stats, method_args, UnitRun
from sa.drive import ClassRun, reachable
from checks.c06 import snap

R_ATTR = "no-attribute-carried-over"
R_CONT = "no-container-carried-over"
R_EST = "no-fitted-estimator-carried-over"
R_MEMO = "no-memoisation-across-calls"

FIT = {"fit", "fit_transform", "fit_predict", "fit_resample", "sample", "remove_noise",
       "tensor", "call"}
MEMO = ("lru_cache", "cache", "cached_property", "memoize", "Memory")


def unit(prog, un):
    """joined analysis first; when it reports a carried-over attribute, the configuration
    parameter that discriminates the writing path is split into its constants"""
    obs, st, conds = analyse(prog, un, None)
    bad = [o for o in obs if o.verdict == BAD and o.rule == R_ATTR]
    for o in bad:
        p, vals = conds.get(o.key, (None, ()))
        if p is None:
            continue
        worst = OK
        for v in sorted(vals, key=repr) + ["<other>"]:
            o2, _, _ = analyse(prog, un, {p: vconst(v)})
            m = [x for x in o2 if x.key == o.key and x.rule == R_ATTR]
            if any(x.verdict == BAD for x in m):
                worst = BAD
        st["configuration_splits"] = st.get("configuration_splits", 0) + len(vals) + 1
        if worst == OK:
            o.verdict = OK
            o.msg = f"each value of {p} analysed separately"
    return obs, st


def split_param(e):
    """(parameter, constants) tested on the path to event e"""
    out = {}
    for c, _ in e.pc:
        for t in leaves(c):
            if t.op == "eq":
                a, b = t.args[0], t.args[1]
                if isinstance(b, Term) and b.op == "param":
                    a, b = b, a
                if isinstance(a, Term) and a.op == "param" and is_const(b) \
                        and isinstance(const_value(b), str):
                    out.setdefault(a.args[0], set()).add(const_value(b))
    return out


def analyse(prog, un, preset):
    ci = prog.classes[un.name]
    r = ClassRun(prog, ci, preset=preset)
    it = r.it
    u = UnitRun()
    u.it = it
    obs = []
    where = ci.module.path
    call = next((c for c in un.calls if c in FIT), None)
    args = method_args(prog, ci, call) if call else None
    if args is None:
        return [Ob(R_ATTR, str(un), UNK, where, "no data method")], unit_stats(u), {}
    pre = frozenset(reachable([r.loc], r.st))
    it.pre_locs = pre
    s0 = r.st.copy()
    ev0 = len(it.events)
    alts = r.call(call, [], dict(args), phase=call)
    reads, writes = {}, {}
    conds = {}
    cont = {}
    for e in it.events[ev0:]:
        if e.kind == "hread":
            reads.setdefault(e.data, e)
        elif e.kind == "setattr" and e.data[0] in pre:
            nm = f"{e.data[0][-1] if e.data[0][0] == 'self' else 'nested'}.{e.data[1]}"
            for p, vs in split_param(e).items():
                old = conds.get(f"{un.name} {nm}", (p, frozenset()))
                if old[0] == p:
                    conds[f"{un.name} {nm}"] = (p, old[1] | vs)
            writes.setdefault((e.data[0], e.data[1]), e)
        elif e.kind == "write":
            for l in e.data[0]:
                base = l[1] if l[0] == "weak" and isinstance(l[1], tuple) else l
                if base in pre and isinstance(s0.heap.get(base), (HDict, HList)):
                    cont.setdefault(base, e)
                if base[0] == "dflt":
                    _, q, p = base
                    obs.append(Ob(R_CONT, f"{q} default {p}", BAD, e.where(),
                                  f"{e.data[1]} on the mutable default of {p}, which persists "
                                  "between calls"))
    n = 0
    for k, ew in writes.items():
        n += 1
        loc, attr = k
        name = f"{loc[-1] if loc[0] == 'self' else 'nested'}.{attr}"
        er = reads.get(k)
        if er is None:
            obs.append(Ob(R_ATTR, f"{un.name} {name}", OK, ew.where(),
                          "always rewritten before it is read"))
            continue
        h0 = s0.heap.get(loc)
        v0 = h0.attrs.get(attr) if isinstance(h0, HObj) else None
        same = True
        for s, _ in alts:
            h1 = s.heap.get(loc)
            v1 = h1.attrs.get(attr) if isinstance(h1, HObj) else None
            if v0 is None or v1 is None or snap(v0, s0) != snap(v1, s):
                same = False
        if same:
            obs.append(Ob(R_ATTR, f"{un.name} {name}", OK, ew.where(),
                          "restored on every path"))
            continue
        obs.append(Ob(R_ATTR, f"{un.name} {name}", BAD, er.where(),
                      f"{call} reads attribute {attr} before setting it, and an earlier {call} "
                      f"leaves a data-dependent value in it ({ew.where()})"))
    for l, e in cont.items():
        a = owner(r, l, s0)
        same = all(s.heap.get(l) is not None and
                   s.heap[l].key() == s0.heap[l].key() for s, _ in alts)
        if same:
            continue
        obs.append(Ob(R_CONT, f"{un.name} {a}", BAD, e.where(),
                      f"{call} modifies the container {a} in place ({e.data[1]}): what it holds "
                      "is seen by the next call"))
    for k, e in reads.items():
        if k[1] == "<state>":
            h = s0.heap.get(k[0])
            fits = any(isinstance(s.heap.get(k[0]), HExt) and
                       s.heap[k[0]].state is not h.state for s, _ in alts)
            if fits:
                obs.append(Ob(R_EST, f"{un.name} {owner(r, k[0], s0)}", BAD, e.where(),
                              f"{call} uses the estimator {owner(r, k[0], s0)} before refitting it"))
    for path, q in sorted(it.funcs):
        fi = find(prog, path, q)
        if fi is None:
            continue
        for d in fi.node.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            nm = x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "")
            a = fi.node.args
            first = (a.posonlyargs + a.args)[:1]
            if nm in MEMO and first and first[0].arg in ("self", "cls"):
                obs.append(Ob(R_MEMO, q, BAD, f"{path}:{fi.node.lineno} in {q}",
                              f"@{nm} on a method keeps results of earlier datasets"))
    if not any(o.verdict == BAD for o in obs):
        obs.append(Ob(R_CONT, str(un), UNK if it.budget_hit else OK, where,
                      f"{n} attributes set by {call}, {len(reads)} read before being set"))
    st = unit_stats(u)
    st["attributes_written"] = n
    return obs, st, conds


_idx = {}


def find(prog, path, q):
    if not _idx:
        for m in prog.modules.values():
            for b in m.bindings.values():
                if b[0] == "func":
                    _idx[(b[1].module.path, b[1].qualname)] = b[1]
        for ci in prog.classes.values():
            for f in ci.methods.values():
                _idx[(f.module.path, f.qualname)] = f
    return _idx.get((path, q))


def owner(r, loc, st):
    for l in reachable([r.loc], st):
        h = st.heap.get(l)
        if isinstance(h, HObj):
            for a, v in h.attrs.items():
                if v.data == loc or loc in v.locs:
                    return f"{h.cls.name}.{a}"
    return str(loc)


def main(tier):
    c = Check("C07", tier)
    units = [u for u in all_units(c.prog) if u.kind != "function"]
    c.run_units(unit, units)
    c.explanation = (
        "Definite-assignment typestate over object attributes: on every path of a data method, an "
        "attribute that the method changes must be assigned before it is read (or restored before "
        "the method returns); containers and estimators held by the object may not accumulate "
        "state; no method may be memoised; mutable default arguments may not be modified.")
    return c.finish({R_ATTR: 150, R_CONT: 80})
