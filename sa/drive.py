"""Entry-point drivers: analyse a class of the library the way a user calls it
(constructor with arbitrary parameters, get_params, sample on an arbitrary
dataset)."""
import ast
import time

from .terms import T, Term, const, is_const, const_value
from .values import (AV, HList, HDict, HObj, HExt, State, NONE, EMPTY, vconst,
                     vnum, vbool, vany, vstr, vtuple)
from .interp import Interp, Frame

DUMMY = ast.parse("pass").body[0]


def lit(node):
    try:
        return ast.literal_eval(node)
    except (ValueError, TypeError, SyntaxError):
        return Ellipsis


def ctor_params(ci):
    """[(name, default ast or None, literal default)] of the constructor"""
    f = ci.find("__init__")
    if f is None or f[0] != "method":
        return None, [], False
    a = f[1].node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    dfl = a.defaults
    allnames = [x.arg for x in a.posonlyargs + a.args]
    defaults = dict(zip(allnames[len(allnames) - len(dfl):], dfl))
    for n, d in zip(a.kwonlyargs, a.kw_defaults):
        names.append(n.arg)
        if d is not None:
            defaults[n.arg] = d
    return f[1], [(n, defaults.get(n)) for n in names], a.kwarg is not None


def sym_param(name, default, pre="param"):
    t = T(pre, name)
    loc = frozenset([(pre, name)])
    if name == "random_state":
        return AV("num", t, EMPTY, "int")
    if default is None:
        return vany(t, loc)
    v = lit(default)
    if v is Ellipsis:
        return vany(t, loc)
    if isinstance(v, bool):
        return AV("bool", t)
    if isinstance(v, int):
        return AV("num", t)
    if isinstance(v, float):
        return AV("num", t)
    if isinstance(v, str):
        return AV("str", t)
    return vany(t, loc)


def reachable(locs, st):
    seen = set()
    todo = list(locs)
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        h = st.heap.get(l)
        if h is None:
            continue
        vals = []
        if isinstance(h, HObj):
            vals = list(h.attrs.values())
        elif isinstance(h, HList):
            vals = list(h.items or ()) + ([h.elem] if h.elem is not None else [])
        elif isinstance(h, HDict):
            vals = list(h.keys.values()) + list(h.rest)
        elif isinstance(h, HExt):
            vals = [a for a in h.args if isinstance(a, AV)] + \
                [a for a in h.kwargs.values() if isinstance(a, AV)]
        for v in vals:
            stack = [v]
            while stack:
                x = stack.pop()
                todo.extend(x.locs)
                if x.kind in ("tuple", "union"):
                    stack.extend(x.data)
                if x.kind in ("obj", "list", "dict", "set", "ext") and x.data is not None \
                        and isinstance(x.data, tuple):
                    todo.append(x.data)
    return seen


class ClassRun:
    """analysis of one oversampler-like class"""

    def __init__(self, prog, ci, budget=240.0, preset=None):
        self.prog = prog
        self.ci = ci
        self.it = it = Interp(prog, budget_s=budget)
        self.st = st = State()
        self.fi, self.params, self.has_kwargs = ctor_params(ci)
        self.loc = ("self", ci.name)
        st.heap[self.loc] = HObj(ci, {})
        self.obj = AV("obj", T("obj", ci.name), frozenset([self.loc]), self.loc)
        it.phase = "ctor"
        self.param_av = {}
        preset = preset or {}
        for n, d in self.params:
            self.param_av[n] = preset[n] if n in preset else sym_param(n, d)
        if self.fi is not None:
            alts = it.call_func(self.fi, [self.obj], dict(self.param_av), [], st, DUMMY,
                                cls=self.fi.cls)
            it.merge_alts(alts, st)
        self.ctor_attrs = dict(st.heap[self.loc].attrs)

    def copy_state(self):
        return self.st.copy()

    def call(self, name, args, kwargs=None, phase=None, st=None):
        it = self.it
        f = self.ci.find(name)
        if f is None:
            return None
        st = st if st is not None else self.st
        it.phase = phase or name
        if f[0] == "staticmethod" or f[1].kind == "staticmethod":
            a = args
        elif f[1].kind == "classmethod":
            a = [AV("cls", T("cls", self.ci.name), data=self.ci)] + args
        else:
            a = [self.obj] + args
        alts = it.call_func(f[1], a, kwargs or {}, [], st, DUMMY, cls=f[2])
        return alts


def data_args(it, st):
    X = AV("arr", T("arg", "X"), frozenset([("arg", "X")]), nd=2, ln=T("len", T("arg", "X")))
    y = AV("arr", T("arg", "y"), frozenset([("arg", "y")]), nd=1, ln=T("len", T("arg", "X")))
    return X, y
