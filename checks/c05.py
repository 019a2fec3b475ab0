"""C05: get_params() reports every constructor parameter with the value given and
only names the constructor accepts (round trip / cloning)."""
import ast
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.terms import T, Term, leaves, is_const, const_value
from sa.values import HDict, HObj, NONE
from sa.units import os_classes, us_classes, nf_classes, unit_stats, UnitRun
from sa.drive import ClassRun, DUMMY

R_REP = "parameter-reported"
R_VAL = "reported-value-is-the-given-value"
R_ACC = "reported-name-is-accepted"
R_NAME = "class-name-reported"
R_CLASS = "class-name-is-own-class"

EXTRA = ["MulticlassOversampling", "OversamplingClassifier", "MLPClassifierWrapper",
         "ErrorWarningClassifier", "ClassifierImpliedDissimilarityMatrix",
         "ClosestNeighborsInClasses", "MetricTensor", "NearestNeighborsWithMetricTensor",
         "SamplingJob", "EvaluationJob", "Folding"]


ALTERING = {"round", "floor", "ceil", "abs", "maximum", "minimum", "clip", "sqrt", "log", "exp",
            "sum", "mean", "sort", "sorted", "reversed", "unique", "+", "-", "*", "/", "//", "%",
            "**", "fabs", "rint", "trunc", "power", "square", "rstrip", "lower", "upper"}


def altered(t, pt):
    """a value computed from the parameter that is not the parameter"""
    return t is not pt and pt in leaves(t) and (
        t.op in ("lin", "mul", "neg", "max", "min", "abs", "pow", "div", "floordiv", "mod",
                 "round") or (t.op in ("u", "call") and t.args[0] in ALTERING))


def is_none_test(c, pt):
    """the condition only asks whether the parameter is None (or empty)"""
    while c.op in ("not", "truth", "bool", "if", "alt") and isinstance(c.args[0], Term):
        c = c.args[0]
    return c is pt or (c.op in ("isnone", "notnone") and c.args[0] is pt)


def classify(v, p, default=None, is_num=False):
    """is the reported value v certainly equal / certainly different from param p"""
    t = v.term
    pt = T("param", p)
    while t.op == "alt":
        t = t.args[0]
    if t is pt:
        return OK, "identical"
    ls = leaves(t)
    if pt not in ls and ("param", p) not in v.locs:
        if t.op in ("sym", "ucall", "rec", "attr", "dictget", "item", "m", "call"):
            return UNK, f"unresolved value {t!r}"
        return BAD, f"reports {t!r}, which does not depend on the parameter"
    if t.op == "orv" and t.args and t.args[0] is pt:
        d = t.args[-1]
        if is_num and is_const(d) and const_value(d):
            return BAD, f"replaces an explicit zero by {const_value(d)!r}"
        return OK, "the parameter, or the default when it is empty"
    if t.op == "tuple" and all(isinstance(a, Term) and a.op == "item" and a.args[0] is pt
                               for a in t.args):
        if all(is_const(a.args[1]) and const_value(a.args[1]) == i
               for i, a in enumerate(t.args)):
            return OK, "the components of the parameter, in order"
        return BAD, f"permutes the components of the parameter: {t!r}"
    if t.op == "attr":
        nw, nm = t.args[0], t.args[1]
        if isinstance(nw, Term) and nw.op == "new":
            for k in nw.args[1:]:
                if isinstance(k, Term) and k.op == "k" and k.args[0] == nm:
                    if k.args[1] is pt:
                        return OK, "kept by the wrapped estimator"
                    return BAD, f"reports the wrapped estimator's {nm}, which is {k.args[1]!r}"
        return UNK, f"reports {t!r}"
    if t.op == "phi":
        # join of alternatives: the parameter itself must be one alternative and the others
        # may only replace None
        c = t.args[0]
        if pt in t.args[1:]:
            other = [a for a in t.args[1:] if a is not pt]
            cond = c.args[0] if c.op == "if" and isinstance(c.args[0], Term) else c
            if is_none_test(cond, pt):
                return OK, "the parameter or its default"
            if pt in leaves(cond) and all(is_const(o) for o in other):
                return BAD, (f"replaces the given value by {other[0]!r} depending on "
                             f"{cond!r}")
            alt = [o for o in other if isinstance(o, Term) and altered(o, pt)]
            if alt:
                return BAD, f"reports the altered value {alt[0]!r} depending on {cond!r}"
            return OK, f"the parameter or a default ({len(other)} alternative(s))"
        if any(pt in flat_phi(a) for a in t.args[1:] if isinstance(a, Term) and a.op == "phi"):
            return OK, "the parameter or a default"
        return UNK, f"joined value {t!r}"
    if t.op in ("u", "call") and t.args[0] in ALTERING:
        return BAD, f"reports the altered value {t!r}"
    if t.op == "lin" or t.op in ("mul", "neg", "not", "max", "min", "int", "float", "abs",
                                 "pow", "div", "floordiv", "mod", "str", "round"):
        if t.op in ("int", "float", "str") and len(t.args) == 1 and t.args[0] is pt:
            return UNK, "a conversion of the parameter"
        return BAD, f"reports the altered value {t!r}"
    return UNK, f"reports {t!r}"


def flat_phi(t):
    out = []
    for a in t.args[1:]:
        if isinstance(a, Term) and a.op == "phi":
            out += flat_phi(a)
        elif isinstance(a, Term):
            out.append(a)
    return out


def unit(prog, name):
    ci = prog.classes[name]
    r = ClassRun(prog, ci)
    it = r.it
    obs = []
    gp = ci.find("get_params")
    where = f"{gp[1].module.path}:{gp[1].node.lineno} in {gp[1].qualname}" if gp else ci.module.path
    u = UnitRun()
    u.it = it
    if gp is None:
        return [Ob(R_REP, f"{name} get_params", UNK, where, "no get_params")], unit_stats(u)
    alts = r.call("get_params", [])
    d = None
    v = it.merge_alts(alts, r.st)
    v = it.strip(v)
    if v.kind == "dict":
        d = r.st.heap.get(v.data)
    if not isinstance(d, HDict) or d.rest or d.ver is not None:
        return [Ob(R_REP, f"{name} get_params", UNK, where,
                   f"result is not a literal dictionary: {v!r}")], unit_stats(u)
    keys = d.keys
    pnames = [n for n, _ in r.params]
    for p in pnames:
        if p not in keys:
            if flows_nowhere(r, p):
                obs.append(Ob(R_REP, f"{name}.{p}", OK, where, "ignored by the constructor"))
                continue
            obs.append(Ob(R_REP, f"{name}.{p}", BAD, where,
                          f"constructor parameter {p} of {name} is missing from get_params(): "
                          f"an object rebuilt from the reported parameters gets the default"))
            continue
        obs.append(Ob(R_REP, f"{name}.{p}", OK, where, ""))
        nest = nested_params(r, keys[p], p)
        if nest is None:
            num = r.param_av[p].kind in ("num", "bool")
            vd, msg = classify(keys[p], p, is_num=num)
            obs.append(Ob(R_VAL, f"{name}.{p}", vd, where,
                          f"get_params()['{p}'] of {name} {msg}"))
        else:
            for sub, vd, msg in nest:
                obs.append(Ob(R_VAL, f"{name}.{p}[{sub}]", vd, where,
                              f"get_params()['{p}']['{sub}'] of {name} {msg}"))
    for k in keys:
        if k in pnames:
            continue
        if k == "class_name":
            cv = keys[k]
            if cv.is_const:
                obs.append(Ob(R_CLASS, f"{name}.class_name", OK if cv.value == name else BAD,
                              where, f"class_name is {cv.value!r}"))
            if not r.has_kwargs and ci in os_set(prog):
                obs.append(Ob(R_ACC, f"{name}.{k}", BAD, where,
                              f"get_params() reports {k!r} but the constructor of {name} "
                              "rejects it"))
            continue
        if not r.has_kwargs:
            obs.append(Ob(R_ACC, f"{name}.{k}", BAD, where,
                          f"get_params() reports {k!r} but the constructor of {name} does "
                          "not accept it"))
        else:
            v = keys[k]
            dep = [x for x in leaves(v.term) if x.op == "param"]
            if dep and k not in [q.args[0] for q in dep]:
                # a derived value under a name the constructor drops: information only
                obs.append(Ob(R_ACC, f"{name}.{k}", UNK, where,
                              f"get_params() reports {k!r}, which the constructor drops"))
            else:
                obs.append(Ob(R_ACC, f"{name}.{k}", OK, where,
                              "a constant the constructor ignores"))
    if ci in os_set(prog):
        obs.append(Ob(R_NAME, name, OK if "class_name" in keys else BAD, where,
                      "get_params() carries class_name" if "class_name" in keys else
                      f"get_params() of {name} lacks class_name, which the query and evaluation "
                      "interfaces read"))
    st = unit_stats(u)
    st["parameters"] = len(pnames)
    return obs, st


def os_set(prog):
    return set(os_classes(prog))


def flows_nowhere(r, p):
    """the constructor ignores the parameter altogether"""
    t = T("param", p)
    from sa.drive import reachable
    for l in reachable([r.loc], r.st):
        h = r.st.heap.get(l)
        vals = []
        if isinstance(h, HObj):
            vals = list(h.attrs.values())
        elif isinstance(h, HDict):
            vals = list(h.keys.values()) + list(h.rest)
        for v in vals:
            if t in leaves(v.term) or ("param", p) in v.locs:
                return False
    for e in r.it.events:
        if e.kind in ("raise",):
            for c, _ in e.pc:
                if t in leaves(c):
                    return False
    return True


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if isinstance(a, Term):
            yield from subterms(a, seen)


def nested_params(r, v, p):
    """per-key verdicts for a reported dictionary of settings built from the dictionary
    parameter p, or None when the value is not such a dictionary"""
    if v.kind != "dict":
        return None
    h = r.st.heap.get(v.data)
    if not isinstance(h, HDict) or not h.keys:
        return None
    pt = T("param", p)
    out = []
    for k, x in h.keys.items():
        names = set()
        dep = False
        for t in subterms(x.term):
            if t.op == "lphi" and len(t.args) >= 4 and t.args[1] == "d":
                names.add(t.args[3])
                dep = True
            if t.op in ("item", "kw", "dictget", "get") and len(t.args) > 1:
                q = t.args[1]
                q = const_value(q) if isinstance(q, Term) and is_const(q) else q
                if isinstance(q, str):
                    names.add(q)
                    dep = True
            if t is pt:
                dep = True
        if is_const(x.term) or (not dep and not x.locs):
            out.append((k, BAD, f"reports {x.term!r}, which does not depend on the setting"))
        elif names and k not in names:
            out.append((k, BAD, f"reports the setting {sorted(names)} instead"))
        else:
            out.append((k, OK, "the given setting or its default"))
    return out


def main(tier):
    c = Check("C05", tier)
    names = [x.name for x in os_classes(c.prog) + us_classes(c.prog) + nf_classes(c.prog)]
    names += [n for n in EXTRA if n in c.prog.classes]
    c.run_units(unit, names)
    c.explanation = (
        "Value-numbering through the constructor and get_params of every configurable class, "
        "with every constructor argument symbolic: each parameter must be a key of the reported "
        "dictionary, its reported value must be the very value given (or its documented "
        "replacement for None), and every reported key must be a constructor parameter.")
    return c.finish({R_REP: 400, R_VAL: 400})
