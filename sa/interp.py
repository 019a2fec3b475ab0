"""Abstract interpreter: whole-program, context-sensitive (full inlining)
forward analysis computing value numbers, may-alias locations, array lengths
and an effect log, directly on the syntax trees of /repo's current source."""
import ast
import sys
import time

from .terms import (T, Term, const, is_const, const_value, lin_add, lin_sub,
                    lin_scale, num_mul, lin_parts, leaves)
from .values import (AV, HList, HDict, HObj, HExt, State, UNDEF, NONE, EMPTY,
                     vconst, vnum, vbool, vany, vstr, vtuple, weak, phi_ln,
                     phi_term)
from .loader import ClassInfo, FuncInfo

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class PyRaise(BaseException):
    """a model raises a concrete exception class (only the matching handlers are executed)"""

    def __init__(self, exc):
        super().__init__(exc)
        self.exc = exc


class Event:
    __slots__ = ("kind", "file", "line", "func", "chain", "data", "pc", "phase")

    def __init__(self, kind, file, line, func, chain, data, pc, phase):
        self.kind = kind
        self.file = file
        self.line = line
        self.func = func
        self.chain = chain
        self.data = data
        self.pc = pc
        self.phase = phase

    def where(self):
        return f"{self.file}:{self.line} in {self.func}"

    def __repr__(self):
        return f"[{self.kind} {self.where()} {self.data}]"


class Frame:
    def __init__(self, fi, fid, module, cls, parent=None):
        self.fi = fi
        self.fid = fid
        self.module = module
        self.cls = cls
        self.returns = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.parent = parent
        self.yields = None


CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==",
       ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
       ast.NotIn: "not in"}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
       ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|",
       ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}


class Interp:
    trace_ops = False       # log arithmetic, reductions and indexing as events
    on_sort = None          # told of every np.sort of an array
    on_write = None         # told of every in-place modification before it is made

    def __init__(self, prog, max_depth=45, budget_s=240.0):
        self.prog = prog
        self.events = []
        self._evkeys = set()
        self.stack = []          # [(Frame, call node)]
        self.ctx = 0
        self._ctx = {}
        self.draw_args = {}      # draw -> the argument terms it was made with
        self.range_of = {}
        self.elem_of = {}        # array of a list's elements -> {term: element}
        self.phi_late = {}       # the same for names not bound before the loop -> next AV
        self.phi_def = {}        # loop phi term -> (init, next) AVs
        self.pick_info = {}
        self.on_delete = None
        self.loop_count = {}     # loop term -> trip count term
        self.term_total = {}     # array of counts -> what it sums to
        self.while_cond = {}     # while loop -> condition to stay
        self.loop_brk = set()    # loops that may be left early
        self.ver_loop = {}       # list version of a comprehension -> its loop
        self.phase = "ctor"
        self.pre_locs = frozenset()
        self.max_depth = max_depth
        self.deadline = time.time() + budget_s
        self.budget_hit = False
        self.n_calls = 0
        self.funcs = set()
        self.gaps = {}
        self._modconst = {}
        self.depth_cut = 0
        self.nextfid = 0
        self.eager_generators = False  # generators with known items are lists
        self.fixdepth = 0
        self.unroll_while = 0
        self.on_with = None      # (it, value, state, entering)
        self.on_obj_attr = None  # (it, object, attribute, state, writing, node)
        self.only_forced = False  # handlers are only entered by PyRaise
        self.ext_override = {}   # dotted/internal name -> model
        self.func_override = {}
        self.unroll_limit = 24
        self.label_model = None      # (term of y, constant labels, terms of their counts)
        self.sort_witness = None
        self.ucall_hook = None
        self.on_yield = None
        self.int_prod = False    # keep the fixed size of numpy's integer products in the term
        self.on_bound = None     # observer of every inlined call: (it, fi, env, st, node)  # FuncInfo qualname -> model
        from . import extmodels
        self.ext = extmodels

    # ------------------------------------------------------------ utilities
    def child_ctx(self, *key):
        k = (self.ctx,) + key
        r = self._ctx.get(k)
        if r is None:
            r = len(self._ctx) + 1
            self._ctx[k] = r
        return r

    def site(self, node, tag=""):
        return f"{self.ctx}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}{tag}"

    def newloc(self, node, tag=""):
        return ("new", self.site(node, tag))

    def fresh(self, node, tag="v"):
        return T("sym", tag, self.site(node))

    def gap(self, what):
        self.gaps[what] = self.gaps.get(what, 0) + 1

    def event(self, kind, node, data, st):
        fr = self.stack[-1][0] if self.stack else None
        file = fr.module.path if fr else "?"
        func = fr.fi.qualname if fr and fr.fi else "<module>"
        line = getattr(node, "lineno", 0)
        chain = tuple((f.module.path, f.fi.qualname if f.fi else "<module>",
                       getattr(n, "lineno", 0)) for f, n in self.stack)
        k = (kind, file, line, getattr(node, "col_offset", 0), func, self.phase,
             self._evkey(data), tuple(c[1] for c in chain[-3:]),
             tuple((c.uid, p) for c, p in st.pc) if kind in ("raise",) else None)
        if k in self._evkeys:
            return
        self._evkeys.add(k)
        self.events.append(Event(kind, file, line, func, chain, data, st.pc, self.phase))

    def _evkey(self, d):
        if isinstance(d, AV):
            return d.key()
        if isinstance(d, dict):
            return tuple((k, self._evkey(v)) for k, v in sorted(d.items(), key=lambda p: str(p[0])))
        if isinstance(d, (list, tuple)):
            return tuple(self._evkey(x) for x in d)
        if isinstance(d, Term):
            return d.uid
        if isinstance(d, frozenset):
            return d
        return str(d)

    # ------------------------------------------------------------ joining
    def join_av(self, key, avs, st_list=None, out=None, depth=0):
        """join values; st_list gives the states the heap references live in,
        out is the joined state"""
        a0 = avs[0]
        if all(a is a0 or a.same(a0) for a in avs[1:]):
            return a0
        if any(a.kind == "undef" for a in avs):
            real = [a for a in avs if a.kind != "undef"]
            if not real:
                return UNDEF
            # possibly undefined: value when defined
            if len(real) == 1 or all(r.same(real[0]) for r in real[1:]):
                r = real[0]
                return r
            avs2 = [a if a.kind != "undef" else real[0] for a in avs]
            return self.join_av(key, avs2, st_list, out, depth)
        locs = EMPTY
        for a in avs:
            locs |= a.locs
        kinds = {a.kind for a in avs}
        t = phi_term(key, [a.term for a in avs])
        if len(kinds) == 1:
            k = a0.kind
            if k == "arr":
                nd = a0.nd if all(a.nd == a0.nd for a in avs) else None
                d = a0.data if all(a.data == a0.data for a in avs) else None
                return AV("arr", t, locs, d, nd, phi_ln(key, [self.ln(a) for a in avs]))
            if k in ("num", "bool", "str", "any"):
                return AV(k, t, locs)
            if k == "tuple":
                n = len(a0.data)
                if all(len(a.data) == n for a in avs) and depth < 6:
                    items = [self.join_av(key, [a.data[i] for a in avs], st_list, out,
                                          depth + 1) for i in range(n)]
                    return vtuple(items)
                return AV("any", t, locs)
            if k in ("list", "dict", "set", "obj", "ext"):
                if all(a.data == a0.data for a in avs):
                    return AV(k, t, locs, a0.data, ln=a0.ln)
                if out is not None and st_list is not None and k in ("list", "set", "dict") \
                        and depth < 4:
                    hs = []
                    for a, s in zip(avs, st_list):
                        hs.append(s.heap.get(a.data))
                    if all(h is not None for h in hs):
                        nl = ("new", "j%d:%s" % (t.uid, k))
                        out.heap[nl] = self.join_heap(key, hs, st_list, out, depth + 1, t)
                        return AV(k, t, locs | {nl}, nl)
                if k in ("obj", "ext"):
                    return AV("union", t, locs, tuple(avs))
                return AV("any", t, locs)
            if k in ("func", "bound", "cls", "mod"):
                return AV("union", t, locs, tuple(avs))
            if k == "none":
                return NONE
            return AV("any", t, locs)
        if kinds <= {"num", "bool"}:
            return AV("num", t)
        # mixed kinds
        alts = []
        for a in avs:
            for x in (a.data if a.kind == "union" else (a,)):
                if not any(x.same(y) for y in alts):
                    alts.append(x)
        if len(alts) <= 5 and not any(x.kind == "undef" for x in alts):
            return AV("union", t, locs, tuple(alts))
        return AV("any", t, locs)

    def join_heap(self, key, hs, st_list, out, depth=0, verhint=None):
        h0 = hs[0]
        if all(h is h0 or h.key() == h0.key() for h in hs[1:]):
            return h0
        if all(isinstance(h, HList) for h in hs):
            if all(h.items is not None and len(h.items) == len(h0.items or ()) for h in hs) \
                    and h0.items is not None:
                return HList(items=tuple(
                    self.join_av(key, [h.items[i] for h in hs], st_list, out, depth + 1)
                    for i in range(len(h0.items))))
            elems = []
            for h in hs:
                e = self.list_elem(h)
                if e is not None:
                    elems.append(e)
            elem = None
            if elems:
                elem = elems[0]
                for e in elems[1:]:
                    if not elem.same(e):
                        elem = self.join_av(T("any1", key), [elem, e], None, None, depth + 1)
            vers = phi_term(key, [self.list_ver(h) for h in hs])
            return HList(None, elem, phi_ln(key, [h.ln for h in hs]), vers,
                         phi_ln(key, [h.total() for h in hs]))
        if all(isinstance(h, HDict) for h in hs):
            keys = {}
            vers = []
            for i, h in enumerate(hs):
                vers.append(h.ver or const(0))
            allk = []
            for h in hs:
                for k in h.keys:
                    if k not in allk:
                        allk.append(k)
            ver = None
            common = [k for k in allk if all(k in h.keys for h in hs)]
            for k in common:
                keys[k] = self.join_av(key, [h.keys[k] for h in hs], st_list, out, depth + 1)
            rest = []
            for h in hs:
                for r in h.rest:
                    if not any(r.same(q) for q in rest):
                        rest.append(r)
            if len(common) != len(allk) or any(h.ver is not None for h in hs) \
                    or not all(len(h.rest) == len(rest) for h in hs):
                ver = phi_term(key, [self.dict_term(h) for h in hs])
            return HDict(keys, tuple(rest), ver)
        if all(isinstance(h, HObj) for h in hs) and all(h.cls is h0.cls for h in hs):
            attrs = {}
            names = []
            for h in hs:
                for k in h.attrs:
                    if k not in names:
                        names.append(k)
            for k in names:
                attrs[k] = self.join_av(key, [h.attrs.get(k, UNDEF) for h in hs],
                                        st_list, out, depth + 1)
            return HObj(h0.cls, attrs)
        if all(isinstance(h, HExt) for h in hs):
            cls = h0.cls if all(h.cls == h0.cls for h in hs) else "?"
            return HExt(cls, phi_term(key, [h.state for h in hs]), h0.args, h0.kwargs)
        return h0

    def list_elem(self, h):
        if h.items is None:
            return h.elem
        if not h.items:
            return None
        e = h.items[0]
        for i, x in enumerate(h.items[1:]):
            if not e.same(x):
                e = self.join_av(T("anyof", e.term, x.term), [e, x])
        return e

    def list_ver(self, h):
        if h.items is not None:
            return T("list", *[i.term for i in h.items])
        return h.ver

    def dict_term(self, h):
        ks = []
        for k, v in h.keys.items():
            ks.append(const(k))
            ks.append(v.term)
        return T("dict", T("rest", *[r.term for r in h.rest]), h.ver or const(0), *ks)

    def join_states(self, key, sts):
        sts_in = [s for s in sts if s is not None]
        if not sts_in:
            return None
        if len(sts_in) == 1:
            return sts_in[0]
        s0 = sts_in[0]
        out = State()
        n = len(s0.pc)
        for s in sts_in[1:]:
            i = 0
            while i < n and i < len(s.pc) and s.pc[i] == s0.pc[i]:
                i += 1
            n = i
        out.pc = s0.pc[:n]
        out.written = s0.written
        for s in sts_in[1:]:
            out.written = out.written & s.written
        locs = {}
        for s in sts_in:
            for l in s.heap:
                locs[l] = 1
        for l in locs:
            hs = [s.heap[l] for s in sts_in if l in s.heap]
            if len(hs) == len(sts_in):
                h0 = hs[0]
                if all(h is h0 for h in hs):
                    out.heap[l] = h0
                    continue
                out.heap[l] = self.join_heap(key, hs, sts_in, out)
            else:
                out.heap[l] = hs[0] if len(hs) == 1 else \
                    (hs[0] if all(h is hs[0] for h in hs) else
                     self.join_heap(key, hs, [s for s in sts_in if l in s.heap], out))
        fids = {}
        for s in sts_in:
            for f in s.frames:
                fids[f] = 1
        for f in fids:
            envs = [s.frames.get(f) for s in sts_in]
            if any(e is None for e in envs):
                envs = [e for e in envs if e is not None]
                ss = [s for s in sts_in if f in s.frames]
            else:
                ss = sts_in
            e0 = envs[0]
            names = {}
            for e in envs:
                for k in e:
                    names[k] = 1
            ne = {}
            for k in names:
                vs = [e.get(k, UNDEF) for e in envs]
                v0 = vs[0]
                if all(v is v0 for v in vs):
                    ne[k] = v0
                else:
                    ne[k] = self.join_av(key, vs, ss, out)
            out.frames[f] = ne
        return out

    # ------------------------------------------------------------ lengths
    def ln(self, av):
        if av.ln is not None:
            return av.ln
        return T("len", av.term)

    def seq_ln(self, av, st):
        if av.kind == "list" or av.kind == "set":
            h = st.heap.get(av.data)
            if isinstance(h, HList):
                return h.ln if h.ln is not None else T("len", av.term)
        if av.kind == "dict":
            h = st.heap.get(av.data)
            if isinstance(h, HDict) and h.exact():
                return const(len(h.keys))
            return T("len", av.term)
        if av.kind == "iter":
            return self.iter_info(av, st, None)[2]
        if av.kind == "union":
            a = self.strip(av)
            if a.kind != "union":
                return self.seq_ln(a, st)
        return self.ln(av)

    def strip(self, av):
        """drop None alternatives of a union"""
        if av.kind != "union":
            return av
        alts = [a for a in av.data if a.kind not in ("none", "undef")]
        if len(alts) == 1:
            a = alts[0]
            return a
        if alts and all(a.kind == "arr" for a in alts):
            nd = alts[0].nd if all(a.nd == alts[0].nd for a in alts) else None
            return AV("arr", av.term, av.locs, None, nd, None)
        if alts and all(a.kind in ("num", "bool") for a in alts):
            return AV("num", av.term)
        if alts and {a.kind for a in alts} <= {"arr", "any", "num"} and \
                any(a.kind == "arr" for a in alts) and False:
            return av
        return av

    # ------------------------------------------------------------ name lookup
    def lookup_name(self, name, st, fr, node):
        f = fr
        while f is not None:
            env = st.frames.get(f.fid)
            if env is not None and name in env and name not in f.globals:
                v = env[name]
                if v.kind != "undef":
                    return v
                return vany(self.fresh(node, "undef:" + name))
            f = f.parent
        return self.module_name(fr.module, name, node)

    def module_name(self, module, name, node=None):
        r = self.prog.lookup(module.name, name)
        if r is None:
            return self.ext.builtin_value(name)
        return self.binding_value(r, module, name)

    def binding_value(self, r, module, name):
        if r[0] == "class":
            return AV("cls", T("cls", r[1].name), data=r[1])
        if r[0] == "func":
            return AV("func", T("fn", r[1].module.name, r[1].name), data=(r[1], None))
        if r[0] == "mod":
            return AV("mod", T("mod", r[1]), data=r[1])
        if r[0] == "ext":
            return AV("mod", T("mod", r[1]), data=r[1])
        if r[0] == "assign":
            _, m, expr = r
            return self.module_const(m, name, expr)
        return vany(T("global", module.name, name))

    def module_const(self, m, name, expr):
        loc = ("modglobal", m.name, name)
        if expr is None:
            return vany(T("global", m.name, name), frozenset([loc]))
        if isinstance(expr, (ast.Constant, ast.UnaryOp)):
            try:
                return vconst(ast.literal_eval(expr))
            except Exception:
                pass
        if isinstance(expr, ast.Name) or (isinstance(expr, ast.Attribute)):
            try:
                r = self.prog.resolve_expr_static(m, expr)
                if isinstance(expr, ast.Name):
                    rr = self.prog.lookup(m.name, expr.id)
                    if rr is not None and rr[0] != "assign":
                        return self.binding_value(rr, m, expr.id)
                    if rr is not None and expr.id != name:
                        return self.module_const(rr[1], expr.id, rr[2])
                    if rr is None:
                        return self.ext.builtin_value(expr.id)
                elif isinstance(r, str):
                    return AV("mod", T("mod", r), data=r)
            except Exception:
                pass
        if isinstance(expr, ast.Tuple):
            try:
                items = [self.module_const(m, f"{name}.{i}", e) for i, e in enumerate(expr.elts)]
                return vtuple(items)
            except Exception:
                pass
        if isinstance(expr, ast.Call):
            return AV("any", T("global", m.name, name), frozenset([loc]))
        kind = "any"
        return AV(kind, T("global", m.name, name), frozenset([loc]), ("modexpr", m, expr))

    # ------------------------------------------------------------ execution
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self.exec_stmt(s, st, fr)
        return st

    def exec_stmt(self, s, st, fr):
        if time.time() > self.deadline:
            self.budget_hit = True
            raise Budget()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.gap("stmt " + type(s).__name__)
            return st
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        self.eval(s.value, st, fr)
        return st

    def s_Pass(self, s, st, fr):
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            d = a.name if a.asname else a.name.split(".")[0]
            st.frames[fr.fid][nm] = AV("mod", T("mod", d), data=d)
        return st

    def s_ImportFrom(self, s, st, fr):
        mod = self.prog._abs(fr.module, s.level, s.module)
        for a in s.names:
            if mod in self.prog.modules:
                r = self.prog.lookup(mod, a.name)
                if r is not None:
                    st.frames[fr.fid][a.asname or a.name] = \
                        self.binding_value(r, self.prog.modules[mod], a.name)
                    continue
            d = f"{mod}.{a.name}"
            st.frames[fr.fid][a.asname or a.name] = AV("mod", T("mod", d), data=d)
        return st

    def s_Global(self, s, st, fr):
        fr.globals.update(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(s.names)
        return st

    def s_Assert(self, s, st, fr):
        c = self.eval(s.test, st, fr)
        self.event("assert", s, c, st)
        self.assume(s.test, c, True, st, fr)
        return st

    def s_FunctionDef(self, s, st, fr):
        fi = FuncInfo(s, fr.module, None)
        st.frames[fr.fid][s.name] = AV("func", T("closure", self.site(s)), data=(fi, fr))
        return st

    def s_ClassDef(self, s, st, fr):
        ci = ClassInfo(s, fr.module)
        for b in s.bases:
            ci.bases.append(self.prog.resolve_expr_static(fr.module, b))
        st.frames[fr.fid][s.name] = AV("cls", T("cls", s.name), data=ci)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st, fr)
                i = self.eval_index(t.slice, st, fr)
                self.write(b, t, "del-item", st)
                b = self.strip(b)
                if b.kind == "dict":
                    h = st.heap.get(b.data)
                    if isinstance(h, HDict):
                        k = dict(h.keys)
                        if i.is_const and i.value in k:
                            del k[i.value]
                            st.heap[b.data] = HDict(k, h.rest, h.ver)
                        else:
                            st.heap[b.data] = HDict({}, h.rest + tuple(h.keys.values()),
                                                    self.fresh(s, "deldict"))
                elif b.kind == "list":
                    self.list_havoc(b, st, s)
            elif isinstance(t, ast.Name):
                st.frames[fr.fid].pop(t.id, None)
        return st

    def s_Return(self, s, st, fr):
        if s.value is None:
            fr.returns.append((st, NONE, s))
            return None
        if isinstance(s.value, ast.Call):
            alts = self.eval_call_multi(s.value, st, fr)
            for a_st, a in alts:
                fr.returns.append((a_st, a, s))
            return None
        if isinstance(s.value, ast.IfExp):
            c = self.eval(s.value.test, st, fr)
            for pol, sub in ((True, s.value.body), (False, s.value.orelse)):
                if c.is_const and bool(c.value) != pol:
                    continue
                st2 = st.copy()
                self.assume(s.value.test, c, pol, st2, fr)
                self.s_Return(ast.copy_location(ast.Return(value=sub), s), st2, fr)
            return None
        v = self.eval(s.value, st, fr)
        fr.returns.append((st, v, s))
        return None

    def s_Raise(self, s, st, fr):
        v = self.eval(s.exc, st, fr) if s.exc is not None else NONE
        self.event("raise", s, v, st)
        if fr.__dict__.get("trydepth"):
            fr.raised.append(st)
        return None

    def s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][0].append(st)
        return None

    def s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1][1].append(st)
        return None

    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        op = BIN[type(s.op)]
        cur = self.eval(s.target if not isinstance(s.target, ast.Name)
                        else ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target),
                        st, fr)
        rhs = self.eval(s.value, st, fr)
        base = self.strip(cur)
        if base.kind == "list" and op == "+":
            self.list_extend(base, rhs, st, s)
            if not isinstance(s.target, ast.Name):
                self.assign(s.target, base, st, fr, s)
            return st
        if base.kind == "dict" and op == "|":
            self.dict_update(base, rhs, st, s)
            return st
        if base.kind == "arr" and isinstance(s.target, (ast.Name, ast.Attribute)):
            res = self.binop(op, base, rhs, st, s)
            self.write(base, s, f"augmented assignment {op}=", st, new=res)
            res = res.replace(locs=base.locs, kind="arr", nd=base.nd, ln=base.ln)
            self.assign(s.target, res, st, fr, s, quiet=True)
            return st
        if base.kind == "set":
            self.write(base, s, f"augmented assignment {op}=", st)
            return st
        if base.kind == "any" and base.locs and isinstance(s.target, (ast.Name, ast.Attribute)):
            self.write(base.replace(locs=weak(base.locs)), s, f"augmented assignment {op}=", st)
        res = self.binop(op, cur, rhs, st, s)
        self.assign(s.target, res, st, fr, s)
        return st

    def assign(self, t, v, st, fr, node, quiet=False):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.event("gwrite", node, (fr.module.name, t.id, v.term), st)
                return
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None:
                    if t.id in st.frames.get(f.fid, {}):
                        st.frames[f.fid][t.id] = v
                        return
                    f = f.parent
            st.frames[fr.fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fr, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st, fr)
            self.set_attr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st, fr)
            i = self.eval_index(t.slice, st, fr)
            self.set_item(b, i, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, node)

    def unpack(self, t, v, st, fr, node):
        n = len(t.elts)
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        vs = self.strip(v)
        items = None
        if vs.kind == "tuple":
            items = vs.data
        elif vs.kind == "list":
            h = st.heap.get(vs.data)
            if isinstance(h, HList) and h.items is not None:
                items = h.items
        if items is not None and not stars and len(items) == n:
            for e, x in zip(t.elts, items):
                self.assign(e, x, st, fr, node)
            return
        if items is not None and stars and len(items) >= n - 1:
            k = stars[0]
            after = n - k - 1
            for e, x in zip(t.elts[:k], items[:k]):
                self.assign(e, x, st, fr, node)
            mid = items[k:len(items) - after]
            self.assign(t.elts[k].value, self.mk_list(mid, st, node), st, fr, node)
            for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                self.assign(e, x, st, fr, node)
            return
        if vs.kind == "union" and all(a.kind == "tuple" and len(a.data) == n for a in vs.data):
            for i, e in enumerate(t.elts):
                self.assign(e, self.join_av(T("alt", v.term), [a.data[i] for a in vs.data]),
                            st, fr, node)
            return
        for i, e in enumerate(t.elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, vany(T("unpack*", v.term, i), weak(v.locs)), st, fr, node)
            else:
                self.assign(e, self.get_item(v, vconst(i), st, node), st, fr, node)

    # ---------------------------------------------------------------- writes
    def write(self, av, node, how, st, new=None):
        """in-place modification of the memory of av"""
        locs = av.locs
        if self.on_write is not None:
            self.on_write(self, av, node, how, st)
        if locs:
            self.event("write", node, (locs, how), st)
        if av.kind == "arr":
            strong = frozenset(l for l in locs if l[0] != "weak")
            self.refresh(strong or locs, st, node, av, new)

    def refresh(self, locs, st, node, target, new=None):
        memo = {}
        stamp = self.site(node, "w")

        def upd(a):
            if a.kind == "arr" and a.locs & locs:
                k = a.key()
                r = memo.get(k)
                if r is None:
                    if new is not None and a.term is target.term and a.nd == target.nd:
                        nt = new.term
                    else:
                        nt = T("upd", stamp, a.term,
                               new.term if new is not None else const(0))
                    r = a.replace(term=nt, ln=self.ln(a))
                    memo[k] = r
                return r
            if a.kind in ("tuple", "union"):
                nd = tuple(upd(x) for x in a.data)
                if any(x is not y for x, y in zip(nd, a.data)):
                    if a.kind == "tuple":
                        return vtuple(nd)
                    return a.replace(data=nd, term=T("upd", stamp, a.term, const(0)))
                return a
            if a.kind in ("any", "union") and a.locs & locs:
                return a.replace(term=T("upd", stamp, a.term, const(0)))
            return a
        for f, env in st.frames.items():
            for k, a in list(env.items()):
                if a.locs and a.locs & locs:
                    env[k] = upd(a)
        for l, h in list(st.heap.items()):
            if isinstance(h, HObj):
                ch = {k: upd(a) for k, a in h.attrs.items() if a.locs and a.locs & locs}
                if ch:
                    st.heap[l] = HObj(h.cls, {**h.attrs, **ch})
            elif isinstance(h, HList):
                if h.items is not None:
                    if any(a.locs & locs for a in h.items):
                        st.heap[l] = HList(tuple(upd(a) for a in h.items))
                elif h.elem is not None and h.elem.locs & locs:
                    st.heap[l] = HList(None, upd(h.elem), h.ln, T("upd", stamp, h.ver, const(0)),
                                           h.tot)
            elif isinstance(h, HDict):
                ch = {k: upd(a) for k, a in h.keys.items() if a.locs & locs}
                if ch:
                    st.heap[l] = HDict({**h.keys, **ch}, h.rest, h.ver)

    # ---------------------------------------------------------- attributes
    def set_attr(self, b, attr, v, st, node):
        b0 = b
        b = self.strip(b)
        if b.kind == "obj":
            h = st.heap.get(b.data)
            if self.on_obj_attr is not None:
                self.on_obj_attr(self, b, attr, st, True, node)
            if self.on_write is not None:
                self.on_write(self, b, node, "attribute assignment", st)
            self.event("setattr", node, (b.data, attr, v), st)
            if b.data in self.pre_locs:
                st.written = st.written | {(b.data, attr)}
            if isinstance(h, HObj):
                st.heap[b.data] = HObj(h.cls, {**h.attrs, attr: v})
            return
        if b.kind == "cls":
            self.event("clswrite", node, (b.data.name, attr), st)
            return
        if b.kind == "mod":
            self.event("modwrite", node, (b.data, attr), st)
            return
        if b.kind == "union":
            for a in b.data:
                if a.kind in ("obj", "cls"):
                    self.set_attr(a, attr, self.join_av(T("maybe", b0.term),
                                  [v, self.get_attr(a, attr, st, node)])
                                  if a.kind == "obj" else v, st, node)
            return
        if b.locs:
            self.write(b, node, f"attribute .{attr} assigned", st)
        else:
            self.event("setattr?", node, (attr,), st)

    def get_attr(self, b, attr, st, node):
        b = self.strip(b)
        k = b.kind
        if k == "obj":
            h = st.heap.get(b.data)
            if self.on_obj_attr is not None:
                self.on_obj_attr(self, b, attr, st, False, node)
            if isinstance(h, HObj):
                if attr == "__class__":
                    return AV("cls", T("cls", h.cls.name), data=h.cls)
                if attr == "__dict__":
                    return vany(T("attr", b.term, attr), b.locs)
                if attr in h.attrs:
                    if b.data in self.pre_locs and (b.data, attr) not in st.written:
                        self.event("hread", node, (b.data, attr), st)
                    return h.attrs[attr]
                f = h.cls.find(attr)
                if f is not None:
                    if f[0] == "method":
                        if f[1].kind == "property":
                            alts = self.call_func(f[1], [b], {}, [], st, node, cls=f[2])
                            return self.merge_alts(alts, st)
                        if f[1].kind == "staticmethod":
                            return AV("func", T("fn", f[2].name, attr), data=(f[1], None))
                        if f[1].kind == "classmethod":
                            return AV("bound", T("bm", b.term, attr),
                                      data=(f[1], AV("cls", T("cls", h.cls.name), data=h.cls)))
                        return AV("bound", T("bm", b.term, attr), b.locs, data=(f[1], b))
                    return self.class_attr(f, attr, st)
                if b.data in self.pre_locs:
                    self.event("hread", node, (b.data, attr), st)
                if h.cls.ext_bases():
                    return AV("extbound", T("ea", b.term, attr), data=(h.cls.ext_bases()[0], attr, b))
                return vany(T("attr", b.term, attr))
        if k == "cls":
            f = b.data.find(attr)
            if attr == "__name__":
                return vconst(b.data.name)
            if attr == "__subclasses__" and f is None:
                return AV("method", T("method", b.term, attr), data=(b, attr))
            if f is not None:
                if f[0] == "method":
                    if f[1].kind == "classmethod":
                        return AV("bound", T("bm", b.term, attr), data=(f[1], b))
                    return AV("func", T("fn", f[2].name, attr), data=(f[1], None))
                return self.class_attr(f, attr, st)
            if b.data.ext_bases():
                return AV("mod", T("mod", f"{b.data.ext_bases()[0]}.{attr}"),
                          data=f"{b.data.ext_bases()[0]}.{attr}")
            if attr in ("__init__", "__new__", "__setattr__"):
                return AV("mod", T("mod", "object." + attr), data="object." + attr)
            return AV("any", T("attr", b.term, attr))
        if k == "super":
            cls, obj = b.data
            h = st.heap.get(obj.data)
            if isinstance(h, HObj) or obj.kind == "cls":
                C = h.cls if isinstance(h, HObj) else obj.data
                f = C.find(attr, after=cls)
                if f is not None and f[0] == "method":
                    return AV("bound", T("bm", obj.term, "super", attr), data=(f[1], obj))
                if f is not None:
                    return self.class_attr(f, attr, st)
                if attr == "__init__":
                    return AV("extbound", T("ea", obj.term, attr), data=("object", attr, obj))
            return vany(T("attr", b.term, attr))
        if k == "mod":
            d = b.data
            if d in self.prog.modules:
                r = self.prog.lookup(d, attr)
                if r is not None:
                    return self.binding_value(r, self.prog.modules[d], attr)
            if d + "." + attr in self.prog.modules:
                return AV("mod", T("mod", d + "." + attr), data=d + "." + attr)
            nm = d + "." + attr
            c = self.ext.ext_const(nm)
            if c is not None:
                return c
            return AV("mod", T("mod", nm), data=nm)
        if k == "ext":
            h = st.heap.get(b.data)
            cls = h.cls if isinstance(h, HExt) else "?"
            if isinstance(h, HExt):
                ev = self.ext.ext_attr_value(self, h, attr, b, st, node)
                if ev is not None:
                    return ev
                kv = h.kwargs.get(attr) if isinstance(h.kwargs, dict) else None
                if isinstance(kv, AV):
                    return kv       # estimators keep their constructor arguments
            return AV("extbound", T("attr", h.state if isinstance(h, HExt) else b.term, attr),
                      data=(cls, attr, b))
        if k == "union":
            alts = [a for a in b.data if a.kind != "none"]
            vs = [self.get_attr(a, attr, st, node) for a in alts]
            if len(vs) == 1:
                return vs[0]
            if all(v.same(vs[0]) for v in vs):
                return vs[0]
            return AV("union", T("attr", b.term, attr),
                      frozenset().union(*[v.locs for v in vs]), tuple(vs))
        return self.ext.value_attr(self, b, attr, st, node)

    def class_const(self, cls, e):
        """constant named by an element of a class-level list (Class.NAME or NAME)"""
        if isinstance(e, ast.Constant):
            return vconst(e.value)
        owner = None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            r = self.prog.lookup(cls.module.name, e.value.id)
            if r is not None and r[0] == "class":
                owner, name = r[1], e.attr
        elif isinstance(e, ast.Name):
            owner, name = cls, e.id
        if owner is None:
            return None
        f = owner.find(name)
        if f is not None and f[0] != "method" and isinstance(f[1], ast.Constant):
            return vconst(f[1].value)
        return None

    def class_attr(self, f, attr, st):
        _, expr, cls = f
        loc = ("clsattr", cls.name, attr)
        if isinstance(expr, ast.Constant):
            return vconst(expr.value)
        if isinstance(expr, ast.List):
            return AV("any", T("clsattr", cls.name, attr), frozenset([loc]), ("clsexpr", cls, expr))
        return AV("any", T("clsattr", cls.name, attr), frozenset([loc]))

    # ---------------------------------------------------------- containers
    def mk_list(self, items, st, node, tag="l", kind="list"):
        loc = self.newloc(node, tag)
        st.heap[loc] = HList(items=tuple(items))
        locs = frozenset([loc])
        return AV(kind, T(kind, self.site(node, tag)), locs, loc)

    def mk_slist(self, elem, ln, st, node, tag="sl", ver=None, kind="list"):
        loc = self.newloc(node, tag)
        st.heap[loc] = HList(None, elem, ln, ver or T("lver", self.site(node, tag)))
        return AV(kind, T(kind, self.site(node, tag)), frozenset([loc]), loc)

    def mk_dict(self, keys, st, node, rest=(), ver=None, tag="d"):
        loc = self.newloc(node, tag)
        st.heap[loc] = HDict(dict(keys), tuple(rest), ver)
        return AV("dict", T("dictref", self.site(node, tag)), frozenset([loc]), loc)

    def list_h(self, av, st):
        h = st.heap.get(av.data)
        if isinstance(h, HList):
            return h
        return HList(None, None, T("len", av.term), T("lver", av.term))

    def list_append(self, av, x, st, node):
        self.write(av, node, "list append", st)
        h = self.list_h(av, st)
        if h.items is not None and len(h.items) < max(40, self.unroll_limit):
            st.heap[av.data] = HList(h.items + (x,))
        else:
            e = self.list_elem(h)
            ne = x if e is None else self.join_elem(e, x)
            tot = h.total()
            if tot is not None:
                tot = lin_add(tot, self.ln(x)) if x.kind == "arr" else None
            st.heap[av.data] = HList(None, ne, lin_add(h.ln, const(1)),
                                     T("append", self.list_ver(h), x.term), tot)

    def join_elem(self, a, b):
        if a.same(b):
            return a
        return self.join_av(T("elem2", a.term, b.term) if not a.term is b.term
                            else T("elem2", a.term), [a, b])

    def list_extend(self, av, x, st, node):
        self.write(av, node, "list extend", st)
        h = self.list_h(av, st)
        xs = self.strip(x)
        items, elem, ln = self.iter_info(xs, st, node)
        if h.items is not None and items is not None and len(h.items) + len(items) < 40:
            st.heap[av.data] = HList(h.items + tuple(items))
            return
        e = self.list_elem(h)
        if items is not None:
            for i in items:
                elem = i if elem is None else self.join_elem(elem, i)
        if e is None:
            ne = elem
        elif elem is None:
            ne = e
        else:
            ne = self.join_elem(e, elem)
        st.heap[av.data] = HList(None, ne, lin_add(h.ln, ln),
                                 T("extend", self.list_ver(h), xs.term))

    def list_havoc(self, av, st, node, elem=None, ln=None):
        h = self.list_h(av, st)
        e = self.list_elem(h)
        if elem is not None:
            e = elem if e is None else self.join_elem(e, elem)
        st.heap[av.data] = HList(None, e, ln or T("len", self.fresh(node, "lh")),
                                 T("lhavoc", self.site(node), self.list_ver(h)))

    def dict_update(self, av, other, st, node):
        self.write(av, node, "dict update", st)
        h = st.heap.get(av.data)
        if not isinstance(h, HDict):
            return
        st.heap[av.data] = self.dict_merge(h, other, st)

    def dict_merge(self, h, other, st):
        o = self.strip(other)
        if o.kind == "dict":
            ho = st.heap.get(o.data)
            if isinstance(ho, HDict):
                if ho.exact():
                    return HDict({**h.keys, **ho.keys}, h.rest, h.ver)
                keys = {k: vany(T("kwor", k, o.term, v.term), v.locs)
                        for k, v in h.keys.items()}
                keys.update(ho.keys)
                return HDict(keys, h.rest + ho.rest, ho.ver or h.ver)
        if o.kind == "none":
            return h
        keys = {k: vany(T("kwor", k, o.term, v.term), v.locs) for k, v in h.keys.items()}
        return HDict(keys, h.rest + (o,), h.ver)

    def set_item(self, b, i, v, st, node):
        b0 = b
        b = self.strip(b)
        if b.kind == "dict":
            self.write(b, node, "dict item assignment", st)
            h = st.heap.get(b.data)
            if isinstance(h, HDict):
                if i.is_const:
                    st.heap[b.data] = HDict({**h.keys, i.value: v}, h.rest, h.ver)
                else:
                    keys = {k: vany(T("kwor", const(k), i.term, x.term), x.locs)
                            for k, x in h.keys.items()}
                    st.heap[b.data] = HDict(keys, h.rest + (v,),
                                            T("dset", h.ver or const(0), i.term, v.term))
            return
        if b.kind == "list":
            self.write(b, node, "list item assignment", st)
            h = self.list_h(b, st)
            if h.items is not None and i.is_const and isinstance(i.value, int) \
                    and -len(h.items) <= i.value < len(h.items):
                its = list(h.items)
                its[i.value] = v
                st.heap[b.data] = HList(tuple(its))
            else:
                self.list_havoc(b, st, node, elem=v, ln=h.ln)
            return
        if b.kind == "arr":
            self.write(b, node, "item assignment", st,
                       new=AV("any", T("setitem", b.term, i.term, v.term)))
            return
        if b.kind == "obj":
            h = st.heap.get(b.data)
            f = h.cls.find("__setitem__") if isinstance(h, HObj) else None
            if f:
                self.merge_alts(self.call_func(f[1], [b, i, v], {}, [], st, node, cls=f[2]), st)
                return
        if b.kind == "mod":
            self.event("modwrite", node, (b.data, "[]"), st)
            return
        if b.kind == "extbound":
            self.event("extattrwrite", node, (b.data[0], b.data[1]), st)
            return
        if b.kind == "union":
            for a in b.data:
                if a.kind == "dict":
                    self.set_item(a, i, v, st, node)
                elif a.kind in ("arr", "list") or a.kind == "any" and a.locs:
                    self.write(a, node, "item assignment", st)
            return
        if b.locs:
            self.write(b, node, "item assignment", st)
            self.refresh(b.locs, st, node, b)

    # ---------------------------------------------------------- control flow
    def cond_key(self, c):
        t = c.term
        if t.op == "not":
            return t.args[0], True
        return t, False

    def s_If(self, s, st, fr):
        c = self.eval(s.test, st, fr)
        tv = self.truth(c, st)
        if tv is not None:
            if tv:
                self.assume(s.test, c, True, st, fr, known=True)
                return self.exec_block(s.body, st, fr)
            self.assume(s.test, c, False, st, fr, known=True)
            return self.exec_block(s.orelse, st, fr)
        pc0 = st.pc
        st_t = st
        st_f = st.copy()
        self.assume(s.test, c, True, st_t, fr)
        self.assume(s.test, c, False, st_f, fr)
        r_t = self.exec_block(s.body, st_t, fr)
        r_f = self.exec_block(s.orelse, st_f, fr)
        return self.join_if(c, r_t, r_f, pc0)

    def join_if(self, c, r_t, r_f, pc0):
        if r_t is None:
            return r_f
        if r_f is None:
            return r_t
        k, neg = self.cond_key(c)
        key = T("if", k)
        out = self.join_states(key, [r_f, r_t] if neg else [r_t, r_f])
        return out

    def truth(self, c, st):
        if c.kind == "none":
            return False
        if c.is_const:
            return bool(c.value)
        if c.kind in ("func", "cls", "mod", "obj", "bound"):
            return True
        if c.kind == "tuple":
            return len(c.data) > 0
        if c.kind == "list":
            h = st.heap.get(c.data)
            if isinstance(h, HList) and h.items is not None:
                return len(h.items) > 0
        if c.kind == "dict":
            h = st.heap.get(c.data)
            if isinstance(h, HDict) and h.exact():
                return len(h.keys) > 0
            if isinstance(h, HDict) and h.keys:
                return True
        t = c.term
        for cond, pol in reversed(st.pc):
            if cond is t:
                return pol
        if t.op == "not":
            for cond, pol in reversed(st.pc):
                if cond is t.args[0]:
                    return not pol
        return None

    def assume(self, test, c, pol, st, fr, known=False):
        """record branch fact and refine"""
        t, neg = self.cond_key(c)
        if not known:
            st.pc = st.pc + ((t, pol ^ neg),)
        self.refine(test, pol, st, fr)

    def refine(self, test, pol, st, fr):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.refine(test.operand, not pol, st, fr)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) and pol or isinstance(test.op, ast.Or) and not pol:
                for v in test.values:
                    self.refine(v, pol, st, fr)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            rhs = test.comparators[0]
            if isinstance(rhs, ast.Constant) and rhs.value is None and \
                    isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                isnone = isinstance(op, (ast.Is, ast.Eq)) == pol
                self.refine_none(test.left, isnone, st, fr)

    def refine_none(self, target, isnone, st, fr):
        if isinstance(target, ast.Name):
            f = fr
            while f is not None:
                env = st.frames.get(f.fid)
                if env is not None and target.id in env:
                    v = env[target.id]
                    if isnone:
                        if v.kind in ("any", "union"):
                            env[target.id] = NONE
                    elif v.kind == "union":
                        alts = [a for a in v.data if a.kind != "none"]
                        if len(alts) == 1:
                            env[target.id] = alts[0]
                        elif alts:
                            env[target.id] = v.replace(data=tuple(alts))
                    elif v.kind == "any" and v.data is None:
                        env[target.id] = v.replace(data="notnone")
                    return
                f = f.parent
        elif isinstance(target, ast.Attribute) and isinstance(target.value, ast.Name):
            b = st.frames.get(fr.fid, {}).get(target.value.id)
            if b is not None and b.kind == "obj":
                h = st.heap.get(b.data)
                if isinstance(h, HObj) and target.attr in h.attrs:
                    v = h.attrs[target.attr]
                    if isnone and v.kind in ("any", "union"):
                        st.heap[b.data] = HObj(h.cls, {**h.attrs, target.attr: NONE})
                    elif not isnone and v.kind == "union":
                        alts = [a for a in v.data if a.kind != "none"]
                        if len(alts) == 1:
                            st.heap[b.data] = HObj(h.cls, {**h.attrs, target.attr: alts[0]})

    # ------------------------------------------------------------------ loops
    def iter_info(self, av, st, node, loop=None):
        """(exact items or None, summary element, length term)"""
        av = self.strip(av)
        k = av.kind
        if k == "tuple":
            return list(av.data), None, const(len(av.data))
        if k == "any" and self.unroll_limit > 24 and isinstance(av.data, tuple) and \
                len(av.data) == 3 and av.data[0] == "modexpr" and \
                isinstance(av.data[2], (ast.List, ast.Set)):
            m, ex = av.data[1], av.data[2]
            its = [self.module_const(m, f"{av.term.args[1]}.{i}", e)
                   for i, e in enumerate(ex.elts)]
            return its, None, const(len(its))
        if k in ("list", "set"):
            h = st.heap.get(av.data)
            if isinstance(h, HList):
                if h.items is not None:
                    return list(h.items), None, const(len(h.items))
                return None, self.vary(h.elem, loop, h.ver) if h.elem is not None else \
                    vany(T("elem", h.ver)), self.seq_ln(av, st)
            return None, vany(T("elem", av.term)), T("len", av.term)
        if k == "dict":
            h = st.heap.get(av.data)
            if isinstance(h, HDict) and h.exact():
                return [vconst(x) for x in h.keys], None, const(len(h.keys))
            return None, vany(T("key", av.term, loop or const(0))), T("len", av.term)
        if k == "arr":
            ln = self.ln(av)
            idx = T("it", loop) if loop is not None else T("it0")
            return None, self.ext.row_of(self, av, idx), ln
        if k == "str" and av.is_const:
            return [vconst(ch) for ch in av.value], None, const(len(av.value))
        if k == "iter":
            return self.ext.iter_parts(self, av, st, node, loop)
        if k == "any" and isinstance(av.data, tuple) and av.data[0] in ("modexpr", "clsexpr"):
            expr = av.data[2]
            if isinstance(expr, (ast.List, ast.Tuple)) and all(
                    isinstance(e, ast.Constant) for e in expr.elts):
                return [vconst(e.value) for e in expr.elts], None, const(len(expr.elts))
            if isinstance(expr, (ast.List, ast.Tuple)) and av.data[0] == "clsexpr":
                vs = [self.class_const(av.data[1], e) for e in expr.elts]
                if all(v is not None for v in vs):
                    return vs, None, const(len(vs))
        idx = T("it", loop) if loop is not None else T("it0")
        return None, vany(T("elem", av.term, idx), weak(av.locs)), T("len", av.term)

    def vary(self, elem, loop, ver):
        """element of a summarised container seen in one iteration"""
        if elem is None or loop is None:
            return elem
        if elem.kind in ("num", "any", "str", "bool"):
            if is_const(elem.term):
                return elem
            return elem.replace(term=T("el", ver, T("it", loop), elem.term))
        if elem.kind == "arr":
            return elem.replace(term=T("el", ver, T("it", loop), elem.term),
                                ln=None if self.ln_varies(elem) else elem.ln)
        if elem.kind == "tuple":
            return vtuple([self.vary(x, loop, T("sub", ver, i)) for i, x in enumerate(elem.data)])
        return elem

    def ln_varies(self, elem):
        if elem.ln is None:
            return True
        for t in leaves(elem.ln):
            if t.op in ("it", "el", "sym", "loop"):
                return True
        return False

    def s_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        loop = T("loop", self.site(s))
        items, elem, ln = self.iter_info(it, st, s, loop)
        if items is not None and len(items) <= self.unroll_limit and \
                (len(items) <= 6 or self.unroll_limit > 24 or self.small(s.body)):
            return self.unrolled(s, items, st, fr)
        if items is not None:
            e = None
            for x in items:
                e = x if e is None else self.join_elem(e, x)
            elem = self.vary(e, loop, T("list", *[x.term for x in items])) if e else \
                vany(T("elem", it.term))
            ln = const(len(items))
        self.loop_count[loop] = ln
        return self.fixpoint(s, loop, st, fr, elem=elem, count=ln)

    s_AsyncFor = s_For

    def small(self, body):
        return sum(1 for b in body for _ in ast.walk(b)) < 200

    def unrolled(self, s, items, st, fr):
        brk = []
        saved = self.ctx
        for n, x in enumerate(items):
            if st is None:
                break
            cont = []
            fr.loops.append((brk, cont))
            self.ctx = self.child_ctx("unroll", s.lineno, s.col_offset, n) \
                if n else saved
            try:
                self.assign(s.target, x, st, fr, s)
                st = self.exec_block(s.body, st, fr)
            finally:
                self.ctx = saved
            fr.loops.pop()
            if cont:
                st = self.join_states(T("cont", self.site(s), n), cont + ([st] if st else []))
        if st is not None and s.orelse:
            st = self.exec_block(s.orelse, st, fr)
        if brk:
            st = self.join_states(self.pc_key(brk + ([st] if st else []), self.site(s, "brk")),
                                  brk + ([st] if st else []))
        return st

    def pc_key(self, sts, site):
        n = min(len(s.pc) for s in sts)
        p0 = sts[0].pc
        i = 0
        while i < n and all(s.pc[i] == p0[i] for s in sts):
            i += 1
        sig = tuple(tuple((c, p) for c, p in s.pc[i:]) for s in sts)
        if len(sts) == 2 and len(sig[0]) == 1 and len(sig[1]) == 1 and \
                sig[0][0][0] is sig[1][0][0] and sig[0][0][1] != sig[1][0][1]:
            return T("if", sig[0][0][0]) if sig[0][0][1] else T("ifnot", sig[0][0][0])
        return T("sel", tuple(tuple((c.uid, p) for c, p in x) for x in sig), site)

    def while_unrolled(self, s, st, fr):
        """exact execution when every decision of the loop is known; None otherwise"""
        cur = st.copy()
        saved = self.ctx
        pc0 = st.pc
        for n in range(self.unroll_while):
            self.ctx = self.child_ctx("while", s.lineno, s.col_offset, n) if n else saved
            try:
                tv = self.truth(self.eval(s.test, cur, fr), cur)
                if tv is None:
                    return None
                if not tv:
                    return (self.exec_block(s.orelse, cur, fr) if s.orelse else cur,)
                brk, cont = [], []
                nret = len(fr.returns)
                fr.loops.append((brk, cont))
                try:
                    cur = self.exec_block(s.body, cur, fr)
                finally:
                    fr.loops.pop()
            finally:
                self.ctx = saved
            ends = brk + cont + ([cur] if cur is not None else [])
            if len(ends) + len(fr.returns) - nret != 1 or any(x.pc != pc0 for x in ends):
                del fr.returns[nret:]
                return None
            if brk:
                return (brk[0],)
            if not ends:
                return (None,)
            cur = ends[0]
        return None

    def s_While(self, s, st, fr):
        if self.unroll_while:
            r = self.while_unrolled(s, st, fr)
            if r is not None:
                return r[0]
        loop = T("loop", self.site(s))
        return self.fixpoint(s, loop, st, fr)

    def fixpoint(self, *args, **kwargs):
        self.fixdepth += 1
        try:
            return self.fixpoint_(*args, **kwargs)
        finally:
            self.fixdepth -= 1

    def fixpoint_(self, s, loop, st, fr, elem=None, count=None):
        init = st.copy()
        head = st
        widened = {}          # path -> phi AV
        pc0 = st.pc
        for rnd in range(12):
            cur = head.copy()
            brk, cont = [], []
            fr.loops.append((brk, cont))
            nret = len(fr.returns)
            exit_st = None
            rets_before = list(fr.returns)
            body_st = cur
            if isinstance(s, ast.While):
                c = self.eval(s.test, body_st, fr)
                tv = self.truth(c, body_st)
                if tv is False and rnd == 0:
                    fr.loops.pop()
                    if s.orelse:
                        return self.exec_block(s.orelse, body_st, fr)
                    return body_st
                exit_st = None if (tv is True and c.is_const) else body_st.copy()
                if exit_st is not None:
                    self.assume(s.test, c, False, exit_st, fr)
                self.assume(s.test, c, True, body_st, fr)
                self.while_cond[loop] = c.term
            else:
                self.assign(s.target, elem, body_st, fr, s)
            end = self.exec_block(s.body, body_st, fr)
            fr.loops.pop()
            if brk:
                self.loop_brk.add(loop)
            ends = cont + ([end] if end is not None else [])
            after = self.join_states(self.pc_key(ends, self.site(s, "cont")), ends) \
                if ends else None
            if after is None:
                # body always leaves the loop
                changed = False
            else:
                changed = self.widen(loop, init, head, after, widened, rnd, fr)
            if not changed:
                break
            # discard returns recorded in this non-final pass
            fr.returns[:] = rets_before
        if after is not None:
            for path, (phi, ini) in widened.items():
                nxt = self.at_path(after, path)
                if nxt is not None and ini is not None:
                    self.phi_def[phi.term] = (ini, nxt)
                elif nxt is not None:
                    self.phi_late[phi.term] = nxt
                    if phi.ln is not None and phi.ln.op == "len" and phi.ln.args[0] is phi.term:
                        pass
        # normal exit
        if isinstance(s, ast.While):
            out = exit_st
        else:
            out = head.copy()
        if out is not None:
            out.pc = tuple(p for p in out.pc)
            if s.orelse:
                out = self.exec_block(s.orelse, out, fr)
        outs = ([out] if out is not None else []) + brk
        if not outs:
            return None
        if len(outs) == 1:
            o = outs[0]
        else:
            o = self.join_states(self.pc_key(outs, self.site(s, "exit")), outs)
        if not isinstance(s, ast.While) or len(outs) > 1:
            o.pc = pc0
        return o

    def at_path(self, st, path):
        try:
            if path[0] == "v":
                return st.frames[path[1]].get(path[2])
            if path[0] == "a":
                return st.heap[path[1]].attrs.get(path[2])
            if path[0] == "d":
                return st.heap[path[1]].keys.get(path[2])
            if path[0] == "l":
                h = st.heap[path[1]]
                return AV("list", const(0), ln=h.ln)
            if path[0] == "lt":
                t = st.heap[path[1]].total()
                return AV("list", const(0), ln=t) if t is not None else None
            if path[0] == "t":
                r = self.at_path(st, path[1])
                if r is not None and r.kind == "tuple" and path[2] < len(r.data):
                    return r.data[path[2]]
        except (KeyError, AttributeError):
            pass
        return None

    def widen(self, loop, init, head, after, widened, rnd, fr):
        changed = False
        # frames
        for f, env in after.frames.items():
            henv = head.frames.get(f)
            if henv is None:
                continue
            ienv = init.frames.get(f, {})
            for k, v in env.items():
                hv = henv.get(k, UNDEF)
                if hv is v:
                    continue
                nv = self.widen_av(loop, ("v", f, k), ienv.get(k, UNDEF), hv, v, widened,
                                   rnd, head, after)
                if not nv.same(hv):
                    henv[k] = nv
                    changed = True
        for l, h in after.heap.items():
            hh = head.heap.get(l)
            if hh is None:
                if l in init.heap:
                    continue
                # allocated inside the loop: keep a summary so that values carried
                # around the back edge can be dereferenced
                head.heap[l] = h
                changed = changed or False
                continue
            if hh is h or hh.key() == h.key():
                continue
            ih = init.heap.get(l, hh)
            nh = self.widen_heap(loop, l, ih, hh, h, widened, rnd, head, after)
            if nh.key() != hh.key():
                head.heap[l] = nh
                changed = True
        w = head.written & after.written
        if w != head.written:
            head.written = w
        if rnd >= 10:
            return False
        return changed

    def widen_av(self, loop, path, ini, hv, av, widened, rnd, head, after):
        if hv.kind != "undef" and hv.same(av):
            return hv
        phi_t = T("lphi", loop, str(path[0]), str(path[1]), str(path[2]),
                  ini.term if ini.kind != "undef" else const(0))
        base = hv if hv.kind != "undef" else av
        # value defined only inside the loop: keep a loop-local phi
        if hv.kind == "undef":
            r = self.as_phi(phi_t, av, av)
        else:
            r = self.as_phi(phi_t, hv, av)
            if hv.kind == "tuple" and av.kind == "tuple" and len(hv.data) == len(av.data):
                its = []
                for i, (a, b) in enumerate(zip(hv.data, av.data)):
                    ii = ini.data[i] if ini.kind == "tuple" and len(ini.data) == len(hv.data) else UNDEF
                    if a.same(b):
                        its.append(a)
                    else:
                        its.append(self.widen_av(loop, ("t", path, i), ii, a, b, widened,
                                                 rnd, head, after))
                return vtuple(its)
        widened[path] = (r, ini if ini.kind != "undef" else None)
        return r

    def as_phi(self, t, a, b):
        locs = a.locs | b.locs
        if a.kind == b.kind:
            k = a.kind
            if k == "arr":
                nd = a.nd if a.nd == b.nd else None
                if a.ln is not None and a.ln is b.ln:
                    ln = a.ln
                else:
                    ln = T("len", t)
                return AV("arr", t, locs, a.data if a.data == b.data else None, nd, ln)
            if k in ("num", "bool", "str", "any"):
                return AV(k, t, locs)
            if k in ("list", "dict", "set", "obj", "ext") and a.data == b.data:
                return AV(k, t if a.term is not b.term else a.term, locs, a.data)
            if k in ("list", "set", "dict", "ext", "obj"):
                if k == "obj" or k == "ext":
                    alts = [a] if a.same(b) else [a, b]
                    return AV("union", t, locs, tuple(alts))
                # different allocation: keep the later reference, contents summarised
                return AV(k, t, locs, b.data)
            if k == "tuple" and len(a.data) == len(b.data):
                return vtuple([x if x.same(y) else self.as_phi(T("tp", t, i), x, y)
                               for i, (x, y) in enumerate(zip(a.data, b.data))])
            if k in ("func", "cls", "mod", "bound", "extbound", "iter", "super"):
                return b
            if k == "union":
                alts = list(a.data)
                for x in b.data:
                    if not any(x.same(y) or x.kind == y.kind for y in alts):
                        alts.append(x)
                return AV("union", t, locs, tuple(alts))
            return AV("any", t, locs)
        if {a.kind, b.kind} <= {"num", "bool"}:
            return AV("num", t)
        alts = []
        for src in (a, b):
            for x in (src.data if src.kind == "union" else (src,)):
                if x.kind in ("arr", "num", "any", "str", "bool"):
                    x = x.replace(term=T("alt", t, x.kind), ln=None) if x.kind == "arr" else \
                        x.replace(term=T("alt", t, x.kind))
                if not any(x.same(y) or (x.kind == y.kind and x.kind in
                                         ("arr", "num", "any", "str", "bool", "list", "dict"))
                           for y in alts):
                    alts.append(x)
        if len(alts) == 1:
            return alts[0].replace(term=t, locs=locs)
        return AV("union", t, locs, tuple(alts))

    def widen_heap(self, loop, l, ih, hh, h, widened, rnd, head, after):
        if isinstance(hh, HList) and isinstance(h, HList):
            if hh.items is not None and h.items is not None and len(hh.items) == len(h.items):
                its = []
                for i, (a, b) in enumerate(zip(hh.items, h.items)):
                    ii = ih.items[i] if isinstance(ih, HList) and ih.items is not None and \
                        len(ih.items) == len(hh.items) else UNDEF
                    its.append(a if a.same(b) else
                               self.widen_av(loop, ("v", str(l), i), ii, a, b, widened, rnd,
                                             head, after))
                return HList(tuple(its))
            ver = T("lphi", loop, "list", str(l), self.list_ver(ih) if isinstance(ih, HList)
                    else const(0), const(0))
            e1, e2 = self.list_elem(hh), self.list_elem(h)
            if e1 is None:
                e = e2
            elif e2 is None:
                e = e1
            elif e1.same(e2):
                e = e1
            else:
                e = self.as_phi(T("lelem", ver), e1, e2)
                for x in (e1, e2):
                    self.elem_of.setdefault(T("lelem", ver), {})[x.term] = x
            if hh.ln is h.ln and hh.items is None:
                ln = hh.ln
            else:
                ln = T("len", ver)
                widened[("l", l)] = (AV("list", ver, ln=ln), AV("list", ver, ln=ih.ln)
                                     if isinstance(ih, HList) else None)
            tot, ta = hh.total(), h.total()
            if tot is None or ta is None:
                tot = None
            elif tot is not ta or hh.items is not None:
                tv = T("lphi", loop, "tot", str(l), self.list_ver(ih) if isinstance(ih, HList)
                       else const(0), const(0))
                tot = T("len", tv)
                it0 = ih.total() if isinstance(ih, HList) else None
                if it0 is not None:
                    widened[("lt", l)] = (AV("list", tv, ln=tot), AV("list", tv, ln=it0))
            return HList(None, e, ln, ver, tot)
        if isinstance(hh, HDict) and isinstance(h, HDict):
            keys = {}
            for k in h.keys:
                if k in hh.keys:
                    a, b = hh.keys[k], h.keys[k]
                    ii = ih.keys.get(k, UNDEF) if isinstance(ih, HDict) else UNDEF
                    keys[k] = a if a.same(b) else self.widen_av(
                        loop, ("d", l, k), ii, a, b, widened, rnd, head, after)
            rest = list(hh.rest)
            for r in h.rest:
                if not any(r.same(q) or (r.kind == q.kind and len(rest) > 2) for q in rest):
                    rest.append(r)
            ver = None
            if h.ver is not None or set(h.keys) != set(hh.keys) or len(rest) != len(hh.rest):
                ver = T("lphi", loop, "dict", str(l), const(0), const(0))
            if rnd > 5 and len(rest) > 3:
                rest = rest[:3]
            return HDict(keys, tuple(rest), ver)
        if isinstance(hh, HObj) and isinstance(h, HObj):
            attrs = dict(hh.attrs)
            for k, b in h.attrs.items():
                a = hh.attrs.get(k, UNDEF)
                if a.kind != "undef" and a.same(b):
                    continue
                ii = ih.attrs.get(k, UNDEF) if isinstance(ih, HObj) else UNDEF
                attrs[k] = self.widen_av(loop, ("a", l, k), ii, a, b, widened, rnd, head, after)
            return HObj(h.cls, attrs)
        if isinstance(hh, HExt) and isinstance(h, HExt):
            st = hh.state if hh.state is h.state else \
                T("lphi", loop, "ext", str(l), const(0), const(0))
            return HExt(h.cls if h.cls == hh.cls else "?", st, h.args, h.kwargs)
        return h

    # ------------------------------------------------------------ try / with
    def s_Try(self, s, st, fr):
        snaps = [st.copy()]
        cur = st
        nret = len(fr.returns)
        saved_raised = getattr(fr, "raised", None)
        fr.raised = []
        fr.trydepth = getattr(fr, "trydepth", 0) + 1
        self.event("try", s, tuple(self.handler_types(h, fr) for h in s.handlers), st)
        forced = None
        try:
            for b in s.body:
                if cur is None:
                    break
                cur = self.exec_stmt(b, cur, fr)
                if cur is not None:
                    snaps.append(cur.copy())
        except PyRaise as pr:
            forced = pr
        fr.trydepth -= 1
        if forced is not None:
            fr.raised = saved_raised
            return self.forced_handler(s, forced, cur if cur is not None else st, fr)
        raised, fr.raised = fr.raised, saved_raised
        outs = []
        if cur is not None and s.orelse:
            cur = self.exec_block(s.orelse, cur, fr)
        if cur is not None:
            outs.append(cur)
        for n, h in enumerate(s.handlers if not self.only_forced else ()):
            hs = self.join_states(T("exc", self.site(h), n),
                                  [x.copy() for x in snaps + raised])
            hs.pc = st.pc + ((T("exc", self.site(h)), True),)
            if h.name:
                hs.frames[fr.fid][h.name] = vany(T("excval", self.site(h)))
            r = self.exec_block(h.body, hs, fr)
            if r is not None:
                outs.append(r)
        out = None
        if outs:
            out = outs[0] if len(outs) == 1 else \
                self.join_states(T("tryjoin", self.site(s)), outs)
            if len(outs) > 1:
                out.pc = snaps[0].pc
        if s.finalbody:
            if out is not None:
                out = self.exec_block(s.finalbody, out, fr)
            else:
                tmp = snaps[-1].copy()
                self.exec_block(s.finalbody, tmp, fr)
        return out

    def forced_handler(self, s, forced, st, fr):
        out = None
        try:
            for h in s.handlers:
                cl = (BaseException,) if h.type is None else \
                    self.exc_classes(self.eval(h.type, st, fr), st)
                if cl is None:
                    self.gap("exception type")
                    continue
                if issubclass(forced.exc, cl):
                    if h.name:
                        st.frames[fr.fid][h.name] = vany(T("excval", self.site(h)))
                    out = self.exec_block(h.body, st, fr)
                    break
            else:
                raise forced
        except PyRaise:
            if s.finalbody:
                self.exec_block(s.finalbody, st, fr)
            raise
        if s.finalbody and out is not None:
            out = self.exec_block(s.finalbody, out, fr)
        return out

    def exc_classes(self, v, st):
        """the concrete exception classes a handler names (builtin or standard library)"""
        import builtins
        import importlib
        v = self.strip(v)
        if v.kind == "tuple":
            parts = [self.exc_classes(x, st) for x in v.data]
            return None if any(p is None for p in parts) else tuple(c for p in parts for c in p)
        name = v.data if isinstance(v.data, str) else \
            v.data[-1] if isinstance(v.data, tuple) and v.data and \
            isinstance(v.data[-1], str) else None
        if name is None and v.term.op == "unresolved":
            name = v.term.args[0]
        if name is None:
            return None
        if "." not in name:
            c = getattr(builtins, name, None)
        else:
            mod, _, n = name.rpartition(".")
            if mod.split(".")[0] not in sys.stdlib_module_names:
                return None
            try:
                c = getattr(importlib.import_module(mod), n, None)
            except ImportError:
                c = None
        return (c,) if isinstance(c, type) and issubclass(c, BaseException) else None

    s_TryStar = s_Try

    def handler_types(self, h, fr):
        if h.type is None:
            return "BaseException"
        return ast.unparse(h.type)

    def s_With(self, s, st, fr):
        entered = []
        nloop = [(len(b), len(c)) for b, c in fr.loops]
        nret0 = len(fr.returns)
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            self.event("with", s, v, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr, s)
            if self.on_with is not None:
                self.on_with(self, v, st, True)
                entered.append(v)
        names = [ast.unparse(i.context_expr) for i in s.items]
        fr.__dict__.setdefault("withs", []).append(names)
        self.withdepth = getattr(self, "withdepth", [])
        self.withdepth.append(names)
        try:
            st0 = st
            st = self.exec_block(s.body, st, fr)
        except PyRaise:
            for v in reversed(entered):
                self.on_with(self, v, st0, False)
            raise
        finally:
            self.withdepth.pop()
        if entered:
            left = [] if st is None else [st]
            left += [x[0] for x in fr.returns[nret0:]]
            for (b, c), (nb, nc) in zip(fr.loops, nloop):
                left += b[nb:] + c[nc:]
            for x in left:
                for v in reversed(entered):
                    self.on_with(self, v, x, False)
        return st

    s_AsyncWith = s_With

    def s_Match(self, s, st, fr):
        subj = self.eval(s.subject, st, fr)
        outs = []
        for c in s.cases:
            st2 = st.copy()
            for n in ast.walk(c.pattern):
                if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                    st2.frames[fr.fid][n.name] = vany(T("match", subj.term, n.name))
            r = self.exec_block(c.body, st2, fr)
            if r is not None:
                outs.append(r)
        outs.append(st)
        return self.join_states(T("match", self.site(s)), outs)

    # ------------------------------------------------------------ expressions
    def eval(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.gap("expr " + type(e).__name__)
            return vany(self.fresh(e, type(e).__name__))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return vconst(e.value)

    def e_Name(self, e, st, fr):
        return self.lookup_name(e.id, st, fr, e)

    def e_Attribute(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        return self.get_attr(b, e.attr, st, e)

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, st, fr)
        return vtuple([self.eval(x, st, fr) for x in e.elts])

    def e_List(self, e, st, fr):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                its, elem, ln = self.iter_info(v, st, e)
                if its is None:
                    lst = self.mk_list(items, st, e)
                    self.list_extend(lst, v, st, e)
                    rest = e.elts[e.elts.index(x) + 1:]
                    for y in rest:
                        if isinstance(y, ast.Starred):
                            self.list_extend(lst, self.eval(y.value, st, fr), st, e)
                        else:
                            self.list_append(lst, self.eval(y, st, fr), st, e)
                    return lst
                items.extend(its)
            else:
                items.append(self.eval(x, st, fr))
        return self.mk_list(items, st, e)

    def e_Set(self, e, st, fr):
        return self.mk_list([self.eval(x, st, fr) for x in e.elts], st, e, kind="set")

    def e_Dict(self, e, st, fr):
        h = HDict({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                h = self.dict_merge(h, self.eval(v, st, fr), st)
            else:
                kv = self.eval(k, st, fr)
                vv = self.eval(v, st, fr)
                if kv.is_const:
                    h = HDict({**h.keys, kv.value: vv}, h.rest, h.ver)
                else:
                    h = HDict(h.keys, h.rest + (vv,), T("dset", h.ver or const(0), kv.term, vv.term))
        loc = self.newloc(e, "d")
        st.heap[loc] = h
        return AV("dict", T("dictref", self.site(e)), frozenset([loc]), loc)

    def e_JoinedStr(self, e, st, fr):
        ts, txt = [], []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, st, fr)
                ts.append(x.term)
                if x.is_const and type(x.value) in (str, int) and v.conversion == -1 and \
                        v.format_spec is None:
                    txt.append(str(x.value))
                else:
                    txt.append(None)
            else:
                ts.append(const(v.value))
                txt.append(v.value)
        if all(x is not None for x in txt):
            return vconst("".join(txt))
        return vstr(T("fstr", *ts))

    def e_FormattedValue(self, e, st, fr):
        return vstr(T("fmt", self.eval(e.value, st, fr).term))

    def e_Lambda(self, e, st, fr):
        fi = FuncInfo(e, fr.module, None)
        return AV("func", T("lambda", self.site(e)), data=(fi, fr))

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr, e)
        return v

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Yield(self, e, st, fr):
        v = self.eval(e.value, st, fr) if e.value is not None else NONE
        if fr.yields is None:
            fr.yields = []
        fr.yields.append((st.copy(), v, e))
        fr.yield_at = getattr(fr, "yield_at", []) + [(st.pc, self.fixdepth)]
        self.event("yield", e, v, st)
        if self.on_yield is not None:
            self.on_yield(self, v, st, e)
        return vany(self.fresh(e, "yield"))

    def e_YieldFrom(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        if fr.yields is None:
            fr.yields = []
        fr.yields.append((st.copy(), self.iter_info(v, st, e)[1] or vany(self.fresh(e)), e))
        return vany(self.fresh(e, "yield"))

    def e_IfExp(self, e, st, fr):
        c = self.eval(e.test, st, fr)
        tv = self.truth(c, st)
        if tv is not None:
            return self.eval(e.body if tv else e.orelse, st, fr)
        st_f = st.copy()
        pc0 = st.pc
        self.assume(e.test, c, True, st, fr)
        self.assume(e.test, c, False, st_f, fr)
        a = self.eval(e.body, st, fr)
        b = self.eval(e.orelse, st_f, fr)
        TMP = "$ifexp"
        st.frames[fr.fid][TMP] = a
        st_f.frames[fr.fid][TMP] = b
        out = self.join_if(c, st, st_f, pc0)
        v = out.frames[fr.fid].pop(TMP)
        st.assign_from(out)
        return v

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        vals = []
        st2 = st
        extra = 0
        cond = []
        for v in e.values:
            x = self.eval(v, st2, fr)
            tv = self.truth(x, st2)
            if tv is not None:
                if tv != isand:
                    vals.append(x)
                    break
                if x.is_const or x.kind == "none":
                    last_const = x
                    if v is e.values[-1]:
                        vals.append(x)
                    continue
            vals.append(x)
            if st2 is st:
                st2 = st.copy()
            self.refine(v, isand, st2, fr)
        if st2 is not st:
            # keep heap effects of operands (walrus / calls): rare, merge
            pass
        if not vals:
            return vconst(isand)
        if len(vals) == 1:
            return vals[0]
        if all(v.kind == "bool" for v in vals):
            ts = []
            for v in vals:
                if v.term.op == ("and" if isand else "or"):
                    ts.extend(v.term.args)
                else:
                    ts.append(v.term)
            # decided by a contained constant?
            return vbool(T("and" if isand else "or", *sorted(set(ts), key=lambda t: t.uid))
                         if len(set(ts)) > 1 else ts[0])
        locs = EMPTY
        for v in vals:
            locs |= v.locs
        kinds = {v.kind for v in vals}
        if len(vals) == 2 and not isand and vals[0].kind in ("any", "dict", "list", "union") \
                and vals[1].kind in ("dict", "list", "any", "none"):
            # a or b: the first value when it is true, else the second
            c = vals[0]
            st_f, pc0, TMP = st2.copy(), st.pc, "$ifexp"
            self.assume(e.values[0], c, True, st, fr)
            st.frames[fr.fid][TMP] = c
            st_f.frames[fr.fid][TMP] = vals[1]
            out = self.join_if(c, st, st_f, pc0)
            v = out.frames[fr.fid].pop(TMP)
            st.assign_from(out)
            return v
        t = T("andv" if isand else "orv", *[v.term for v in vals])
        if len(kinds) == 1 and kinds <= {"num", "str"}:
            return AV(vals[0].kind, t)
        r = AV("any", t, locs)
        return r

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            tv = self.truth(v, st)
            if tv is not None:
                return vconst(not tv)
            if v.term.op == "not":
                return vbool(v.term.args[0])
            return vbool(T("not", v.term))
        if isinstance(e.op, ast.Invert):
            return self.ext.logical_not(self, v)
        if isinstance(e.op, ast.USub):
            if v.is_const and v.kind in ("num", "bool"):
                return vconst(-v.value)
            if v.kind == "num":
                return vnum(lin_scale(v.term, -1))
            if v.kind == "arr":
                return self.ext.ufunc(self, "neg", [v], st, e)
            return vany(T("neg", v.term))
        return v

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(BIN[type(e.op)], a, b, st, e)

    def binop(self, op, a, b, st, node):
        return self.ext.binop(self, op, a, b, st, node)

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        res = None
        for op, rhs in zip(e.ops, e.comparators):
            r = self.eval(rhs, st, fr)
            c = self.ext.compare(self, CMP[type(op)], left, r, st, e)
            if res is None:
                res = c
            else:
                res = self.bool_and(res, c, st)
            left = r
        return res

    def bool_and(self, a, b, st):
        ta, tb = self.truth(a, st), self.truth(b, st)
        if ta is False or tb is False:
            return vconst(False)
        if ta is True:
            return b
        if tb is True:
            return a
        return vbool(T("and", *sorted({a.term, b.term}, key=lambda t: t.uid)))

    def eval_index(self, e, st, fr):
        if isinstance(e, ast.Slice):
            lo = self.eval(e.lower, st, fr) if e.lower is not None else NONE
            hi = self.eval(e.upper, st, fr) if e.upper is not None else NONE
            stp = self.eval(e.step, st, fr) if e.step is not None else NONE
            return AV("slice", T("slice", lo.term, hi.term, stp.term), data=(lo, hi, stp))
        if isinstance(e, ast.Tuple):
            return vtuple([self.eval_index(x, st, fr) for x in e.elts])
        return self.eval(e, st, fr)

    def e_Slice(self, e, st, fr):
        return self.eval_index(e, st, fr)

    def e_Subscript(self, e, st, fr):
        b = self.eval(e.value, st, fr)
        i = self.eval_index(e.slice, st, fr)
        return self.get_item(b, i, st, e)

    def get_item(self, b, i, st, node):
        return self.ext.get_item(self, b, i, st, node)

    # ---------------------------------------------------------- comprehensions
    def comp(self, e, st, fr, kind):
        # evaluated in the same frame with shadowing of targets
        gens = e.generators
        loop_saved = self.ctx
        env = st.frames[fr.fid]
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: env.get(n) for n in names}
        # exact unrolling of a single generator over known items
        g0 = gens[0]
        it0 = self.eval(g0.iter, st, fr)
        ev0 = len(self.events)
        loop = T("loop", self.site(e))
        items, elem, ln = self.iter_info(it0, st, e, loop)
        out = None
        if items is not None and len(items) <= self.unroll_limit:
            res = []

            def unroll(k, items):
                g = gens[k]
                for n, x in enumerate(items):
                    sctx = self.ctx
                    self.ctx = self.child_ctx("comp", e.lineno, e.col_offset, n,
                                              *([k] if k else [])) if n else sctx
                    try:
                        self.assign(g.target, x, st, fr, e)
                        keep = True
                        for c in g.ifs:
                            tv = self.truth(self.eval(c, st, fr), st)
                            if tv is None:
                                return False
                            if not tv:
                                keep = False
                                break
                        if not keep:
                            continue
                        if k + 1 < len(gens):
                            src = self.eval(gens[k + 1].iter, st, fr)
                            its, _, _ = self.iter_info(src, st, e, T("loop", self.site(
                                gens[k + 1].target)))
                            if its is None or len(its) > self.unroll_limit:
                                return False
                            if not unroll(k + 1, its):
                                return False
                        elif kind == "dict":
                            res.append((self.eval(e.key, st, fr), self.eval(e.value, st, fr)))
                        else:
                            res.append(self.eval(e.elt, st, fr))
                    finally:
                        self.ctx = sctx
                return True
            ok = unroll(0, items)
            if ok:
                if kind == "dict":
                    if all(k.is_const for k, _ in res):
                        out = self.mk_dict({k.value: v for k, v in res}, st, e)
                    else:
                        out = self.mk_dict({}, st, e, rest=[v for _, v in res],
                                           ver=T("comp", self.site(e)))
                elif kind == "set":
                    out = self.mk_list(res, st, e, kind="set")
                else:
                    out = self.mk_list(res, st, e)
        if out is None:
            if items is not None:
                el = None
                for x in items:
                    el = x if el is None else self.join_elem(el, x)
                elem = el if el is not None else vany(T("elem", it0.term))
                elem = self.vary(elem, loop, T("list", *[x.term for x in items]))
                ln = const(len(items))
            self.loop_count[loop] = ln
            total = ln
            filt = []
            key_src = [it0.term]
            pc0 = st.pc
            self.assign(g0.target, elem, st, fr, e)
            for gi, g in enumerate(gens):
                if gi:
                    itg = self.eval(g.iter, st, fr)
                    lp = T("loop", self.site(g.target))
                    its, el, l2 = self.iter_info(itg, st, e, lp)
                    if its is not None:
                        el = None
                        for x in its:
                            el = x if el is None else self.join_elem(el, x)
                        el = self.vary(el, lp, itg.term) if el is not None else \
                            vany(T("elem", itg.term))
                        l2 = const(len(its))
                    if total is not None and not any(x.op in ("it", "el") for x in leaves(l2)):
                        total = num_mul(total, l2)
                    else:
                        total = T("len", T("compn", self.site(e)))
                    key_src.append(itg.term)
                    self.assign(g.target, el, st, fr, e)
                for c in g.ifs:
                    cv = self.eval(c, st, fr)
                    tv = self.truth(cv, st)
                    if tv is None:
                        filt.append(cv.term)
                        self.assume(c, cv, True, st, fr)
            if kind == "dict":
                kk = self.eval(e.key, st, fr)
                vv = self.eval(e.value, st, fr)
                out = self.mk_dict({}, st, e, rest=[vv],
                                   ver=T("dcomp", kk.term, vv.term, it0.term))
                st.pc = pc0
            else:
                v = self.eval(e.elt, st, fr)
                st.pc = pc0
                ver = T("comp", v.term, T("src", *key_src), T("filt", *filt))
                if filt:
                    nln = T("len", ver)
                else:
                    nln = total
                loc = self.newloc(e, "c")
                if len(gens) == 1:
                    self.ver_loop[ver] = (loop, any(
                        x.kind == "anydraw" or x.kind == "extcall" and
                        ("andom" in x.data[0]) for x in self.events[ev0:]))
                st.heap[loc] = HList(None, v, nln, ver)
                k2 = "set" if kind == "set" else "list"
                if kind == "set":
                    st.heap[loc] = HList(None, v, T("len", T("setof", ver)), ver)
                out = AV(k2, T("listref", self.site(e)), frozenset([loc]), loc)
        env = st.frames[fr.fid]
        for n, v in saved.items():
            if v is None:
                env.pop(n, None)
            else:
                env[n] = v
        return out

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        alts = self.eval_call_multi(e, st, fr)
        return self.merge_alts(alts, st)

    def merge_alts(self, alts, st):
        """join alternatives (state, value) into st; returns joined value"""
        if not alts:
            # callee never returns normally; keep going with an opaque value
            return vany(T("noreturn"))
        if len(alts) == 1:
            s, v = alts[0]
            if s is not st:
                st.assign_from(s)
            return v
        RET = "$ret"
        for i, (s, v) in enumerate(alts):
            s.frames.setdefault("$", {})[RET] = v
        sts = [s for s, _ in alts]
        key = self.pc_key(sts, "ret")
        if key.op == "ifnot":
            sts = sts[::-1]
            key = T("if", key.args[0])
        out = self.join_states(key, sts)
        v = out.frames["$"].pop(RET)
        st.assign_from(out)
        return v

    def eval_args(self, e, st, fr):
        args = []
        star = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                items, elem, ln = self.iter_info(v, st, e)
                if items is not None:
                    args.extend(items)
                else:
                    star.append(v)
                    args.append(AV("starred", v.term, v.locs, v))
            else:
                args.append(self.eval(a, st, fr))
        kwargs = {}
        rest = []
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                vs = self.strip(v)
                if vs.kind == "dict":
                    h = st.heap.get(vs.data)
                    if isinstance(h, HDict):
                        for kk, vv in h.keys.items():
                            if isinstance(kk, str):
                                kwargs[kk] = vv
                        if not h.exact():
                            rest.extend(h.rest or (vs,))
                            if not h.rest:
                                pass
                        continue
                if vs.kind == "none":
                    continue
                rest.append(vs)
            else:
                kwargs[k.arg] = v
        return args, kwargs, rest

    def eval_call_multi(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and \
                self.lookup_is_builtin("super", st, fr):
            env = st.frames[fr.fid]
            if e.args:
                a = [self.eval(x, st, fr) for x in e.args]
                return [(st, AV("super", T("super"), data=(a[0].data, a[1])))]
            f = fr
            while f.cls is None and f.parent is not None:
                f = f.parent
            selfname = f.fi.node.args.args[0].arg if f.fi.node.args.args else "self"
            obj = st.frames[f.fid].get(selfname)
            return [(st, AV("super", T("super", f.cls.name if f.cls else "?"),
                            data=(f.cls, obj)))]
        fn = self.eval(e.func, st, fr)
        args, kwargs, rest = self.eval_args(e, st, fr)
        return self.call(fn, args, kwargs, rest, st, e)

    def lookup_is_builtin(self, name, st, fr):
        f = fr
        while f is not None:
            if name in st.frames.get(f.fid, {}):
                return False
            f = f.parent
        return self.prog.lookup(fr.module.name, name) is None

    def call(self, fn, args, kwargs, rest, st, node):
        fn = self.strip(fn)
        k = fn.kind
        if k == "func":
            fi, parent = fn.data
            return self.call_func(fi, args, kwargs, rest, st, node, parent=parent, cls=fi.cls)
        if k == "bound":
            fi, obj = fn.data
            return self.call_func(fi, [obj] + args, kwargs, rest, st, node, cls=fi.cls)
        if k == "cls":
            return [(st, self.construct(fn.data, args, kwargs, rest, st, node))]
        if k == "mod":
            return [(st, self.ext.call_ext(self, fn.data, args, kwargs, rest, st, node))]
        if k == "extbound":
            cls, attr, obj = fn.data
            return [(st, self.ext.call_ext_method(self, cls, attr, obj, args, kwargs, rest,
                                                  st, node))]
        if k == "method":
            return [(st, self.ext.call_method(self, fn.data[0], fn.data[1], args, kwargs,
                                              rest, st, node))]
        if k == "builtin":
            return [(st, self.ext.call_builtin(self, fn.data, args, kwargs, rest, st, node))]
        if k == "partial":
            f2, a2, k2 = fn.data
            return self.call(f2, list(a2) + args, {**k2, **kwargs}, rest, st, node)
        if k == "union":
            if not args and not kwargs and fn.term.op == "attr" and fn.term.args[1] == "copy" \
                    and all(a.kind == "method" for a in fn.data) \
                    and any(a.data[0].kind == "dict" for a in fn.data):
                # copy of a mapping that may be the caller's or a default
                src = AV("union", fn.term.args[0], fn.locs, tuple(a.data[0] for a in fn.data))
                loc = self.newloc(node, "cp")
                st.heap[loc] = self.dict_merge(HDict({}), src, st)
                return [(st, AV("dict", T("dictref", self.site(node)), frozenset([loc]), loc))]
            alts = []
            for i, a in enumerate(fn.data):
                s2 = st.copy()
                s2.pc = s2.pc + ((T("alt", fn.term, i), True),)
                for r in self.call(a, args, kwargs, rest, s2, node):
                    alts.append(r)
            return alts
        if k == "obj":
            h = st.heap.get(fn.data)
            f = h.cls.find("__call__") if isinstance(h, HObj) else None
            if f:
                return self.call_func(f[1], [fn] + args, kwargs, rest, st, node, cls=f[2])
        # unknown callee
        self.event("unknowncall", node, (fn.term, tuple(a.term for a in args)), st)
        if self.ucall_hook is not None:
            r = self.ucall_hook(self, fn, args, kwargs, rest, st, node)
            if r is not None:
                return r
        self.gap("call of unknown value")
        return [(st, vany(T("ucall", self.site(node), fn.term, *[a.term for a in args])))]

    def construct(self, ci, args, kwargs, rest, st, node):
        if self.ext.construct_override(self, ci) is not None:
            return self.ext.construct_override(self, ci)(self, ci, args, kwargs, rest, st, node)
        loc = self.newloc(node, "o:" + ci.name)
        st.heap[loc] = HObj(ci, {})
        obj = AV("obj", T("obj", ci.name, self.site(node)), frozenset([loc]), loc)
        f = ci.find("__init__")
        self.event("construct", node, (ci.name, tuple(args), dict(kwargs), tuple(rest)), st)
        if f is not None and f[0] == "method":
            alts = self.call_func(f[1], [obj] + args, kwargs, rest, st, node, cls=f[2])
            self.merge_alts(alts, st)
        elif ci.is_dataclass:
            attrs = {}
            names = [n for n, _ in ci.dc_fields]
            for n, a in zip(names, args):
                attrs[n] = a
            for kx, v in kwargs.items():
                attrs[kx] = v
            for n, d in ci.dc_fields:
                if n not in attrs:
                    attrs[n] = vconst(d.value) if isinstance(d, ast.Constant) else \
                        vany(T("dcf", ci.name, n))
            st.heap[loc] = HObj(ci, attrs)
        return obj

    def call_func(self, fi, args, kwargs, rest, st, node, parent=None, cls=None):
        self.n_calls += 1
        ov = self.func_override.get(fi.qualname)
        if ov is not None:
            r = ov(self, fi, args, kwargs, rest, st, node)
            if r is not None:
                return [(st, r)]
        depth = len(self.stack)
        rec = sum(1 for f, _ in self.stack if f.fi is not None and f.fi.node is fi.node)
        if depth >= self.max_depth or rec >= 2:
            self.depth_cut += 1
            locs = EMPTY
            for a in args:
                locs |= weak(a.locs)
            # recursion: the result is opaque, derived from the arguments
            return [(st, AV("any", T("rec", fi.qualname, *[a.term for a in args]), locs))]
        self.funcs.add((fi.module.path, fi.qualname))
        saved = self.ctx
        self.ctx = self.child_ctx("call", getattr(node, "lineno", 0),
                                  getattr(node, "col_offset", 0), fi.module.name, fi.qualname)
        fid = f"f{self.ctx}"
        n = 0
        while fid in st.frames:
            n += 1
            fid = f"f{self.ctx}.{n}"
        fr = Frame(fi, fid, fi.module, cls if cls is not None else fi.cls, parent)
        env = {}
        self.stack.append((fr, node))
        pc_in = st.pc
        try:
            self.bind(fi, args, kwargs, rest, env, st, node, fr)
            st.frames[fid] = env
            pc0 = st.pc
            if self.on_bound is not None:
                self.on_bound(self, fi, env, st, node)
            if isinstance(fi.node, ast.Lambda):
                v = self.eval(fi.node.body, st, fr)
                fr.returns.append((st, v, fi.node))
            else:
                end = self.exec_block(fi.node.body, st, fr)
                if end is not None:
                    fr.returns.append((end, NONE, fi.node))
        finally:
            self.stack.pop()
            self.ctx = saved
        alts = []
        if fr.yields is not None:
            end = [s for s, _, _ in fr.returns]
            o = self.join_states(T("gen", self.site(node)), end) if end else st
            els = [v for _, v, _ in fr.yields]
            at = getattr(fr, "yield_at", [])
            if self.eager_generators and len(fr.returns) == 1 and len(at) == len(els) and \
                    all(x == (pc_in, self.fixdepth) for x in at):
                v = self.mk_list(els, o, node, "gen")
                self._pop_frame(o, fid, fi)
                return [(o, v)]
            elem = els[0]
            for x in els[1:]:
                elem = self.join_elem(elem, x)
            v = AV("iter", T("genobj", self.site(node), elem.term),
                   elem.locs, ("gen", elem, T("len", T("genobj", self.site(node), elem.term))))
            self._pop_frame(o, fid, fi)
            return [(o, v)]
        # merge identical alternatives
        for s, v, _ in fr.returns:
            self._pop_frame(s, fid, fi)
            alts.append((s, v))
        if len(alts) > 40:
            tmp = alts[0][0]
            v = self.merge_alts(alts, tmp)
            alts = [(tmp, v)]
        return alts

    def _pop_frame(self, s, fid, fi):
        has_closure = getattr(fi, "_closure", None) if False else None
        for n in ast.walk(fi.node):
            if n is not fi.node and isinstance(n, (ast.Lambda, ast.FunctionDef)):
                return
        s.frames.pop(fid, None)

    def bind(self, fi, args, kwargs, rest, env, st, node, fr):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[n] = d
        pos = list(args)
        star = None
        i = 0
        while pos and i < len(names):
            x = pos[0]
            if x.kind == "starred":
                star = x
                break
            env[names[i]] = pos.pop(0)
            i += 1
        extra = dict(kwargs)
        for n in names + kwonly:
            if n in extra and n not in env:
                env[n] = extra.pop(n)
        for n in names + kwonly:
            if n in env:
                continue
            d = None
            if n in defaults:
                d = self.default_value(fi, n, defaults[n], st)
            if star is not None and n in names:
                env[n] = vany(T("stararg", star.term, n), weak(star.locs))
            elif rest:
                rt = T("rest", *[r.term for r in rest])
                locs = EMPTY
                for r in rest:
                    locs |= r.locs
                dflt = d.term if d is not None else const("<required>")
                env[n] = AV("any", T("kw", rt, n, dflt), locs)
            elif d is not None:
                env[n] = d
            else:
                env[n] = vany(T("missing", fi.qualname, n))
        if a.vararg:
            env[a.vararg.arg] = vtuple([p for p in pos if p.kind != "starred"]) \
                if not any(p.kind == "starred" for p in pos) else \
                vany(T("varargs", self.site(node)))
        if a.kwarg:
            loc = ("new", f"kw:{self.ctx}:{fi.qualname}")
            st.heap[loc] = HDict(extra, tuple(rest),
                                 None if not rest else T("restkw", *[r.term for r in rest]))
            env[a.kwarg.arg] = AV("dict", T("kwargs", self.ctx), frozenset([loc]), loc)
        elif extra:
            self.event("badkw", node, (fi.qualname, tuple(sorted(extra))), st)
        return env

    def default_value(self, fi, name, expr, st):
        if isinstance(expr, ast.Constant):
            return vconst(expr.value)
        if isinstance(expr, ast.UnaryOp) and isinstance(expr.operand, ast.Constant):
            return vconst(ast.literal_eval(expr))
        loc = ("dflt", fi.qualname, name)
        if isinstance(expr, (ast.List, ast.Dict, ast.Set)):
            fr = Frame(fi, "$d", fi.module, fi.cls)
            st.frames.setdefault("$d", {})
            saved = self.ctx
            self.ctx = self.child_ctx("dflt", fi.qualname, name)
            try:
                v = self.eval(expr, st, fr)
            finally:
                self.ctx = saved
            return v.replace(locs=v.locs | {loc})
        fr = Frame(fi, "$d", fi.module, fi.cls)
        st.frames.setdefault("$d", {})
        saved = self.ctx
        self.ctx = self.child_ctx("dflt", fi.qualname, name)
        try:
            v = self.eval(expr, st, fr)
        finally:
            self.ctx = saved
        return v
