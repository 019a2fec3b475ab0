"""C20: the cache returns what would be computed."""
import fnmatch
import json
import pickle
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.interp import PyRaise
from sa.terms import T, Term, const, is_const, const_value, leaves, show
from sa.values import AV, HDict, HExt, NONE, EMPTY, vany, vconst, vnum, vstr, vtuple
from sa.drive import DUMMY
from checks.evalmodel import (fold_arrays, spec, dict_arg, start, construct, invoke, install,
                              newobj, getarg, made_state, free_run)

R_NAME = "file-name-determines-the-result"
R_FOLD = "fold-descriptor-identifies-the-fold"
R_REUSE = "reused-only-when-valid"
R_DAM = "damaged-files-recognised"
R_TRIP = "written-and-read-back-alike"
R_FILES = "folds-of-this-study-only"
R_CLEAN = "clean-up-keeps-the-results"

ARR = ("X_train", "y_train", "X_test", "y_test")
LOSSY = {"len", "type", "bool", "not", "cmp", "eq", "lt", "gt", "le", "ge", "ne", "hash", "id",
         "isinstance", "mod"}


def where_of(ci, name):
    f = ci.find(name)
    return f"{f[1].module.path}:{f[1].node.lineno} in {ci.name}.{name}"


def stats(it):
    return {"functions": set(f"{p}:{q}" for p, q in it.funcs), "calls_inlined": it.n_calls,
            "unmodelled_constructs": set(it.gaps)}


def entries(v, st):
    h = st.heap.get(v.data) if v.kind == "dict" else None
    return h.keys if h is not None else None


def atoms(t, st, lossy=False, out=None, seen=None):
    """{atom: reached losslessly?} of a term, references expanded through the heap"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    if isinstance(t, tuple):
        for x in t:
            atoms(x, st, lossy, out, seen)
        return out
    if isinstance(t, AV):
        if t.kind in ("tuple",):
            for x in t.data:
                atoms(x, st, lossy, out, seen)
            return out
        if t.kind == "union":
            for x in t.data:
                atoms(x, st, lossy, out, seen)
            return out
        if t.kind in ("dict", "list", "set") and t.data in st.heap:
            key = (t.data, lossy)
            if key in seen:
                return out
            seen.add(key)
            h = st.heap[t.data]
            if isinstance(h, HDict):
                for x in h.keys.values():
                    atoms(x, st, lossy, out, seen)
                for x in h.rest:
                    atoms(x, st, lossy, out, seen)
            elif getattr(h, "items", None) is not None:
                for x in h.items:
                    atoms(x, st, lossy, out, seen)
            elif getattr(h, "elem", None) is not None:
                atoms(h.elem, st, lossy, out, seen)
            return out
        return atoms(t.term, st, lossy, out, seen)
    if not isinstance(t, Term):
        return out
    key = (t, lossy)
    if key in seen:
        return out
    seen.add(key)
    if t.op == "arg":
        out[t] = out.get(t, False) or not lossy
        return out
    if t.op in ("dictref", "listref", "list", "dict"):
        for loc, h in st.heap.items():
            if isinstance(loc, tuple) and len(loc) > 1 and t.args and loc[1] == t.args[0]:
                atoms(AV("dict" if isinstance(h, HDict) else "list", const(0), EMPTY, loc), st,
                      lossy, out, seen)
    lo = lossy or t.op in LOSSY or (t.op in ("call", "builtin", "am", "bcall") and t.args and
                                    t.args[0] in LOSSY) or keys_only(t)
    for x in t.args:
        atoms(x, st, lo, out, seen)
    return out


def keys_only(t):
    """iteration over a dictionary, which visits its keys and not its values"""
    if t.op == "dm" and t.args[0] == "keys":
        return True
    if t.op == "seq" and len(t.args) > 1 and isinstance(t.args[1], Term):
        s = t.args[1]
        return s.op in ("dictref", "dict") or s.op == "arg" and s.args[-1] == "params"
    return False


def coverage(obs, rule, key, where, need, name_av, st):
    got = atoms(name_av, st)
    for label, t in need:
        if t not in got:
            obs.append(Ob(rule, f"{key}: {label}", BAD, where,
                          f"results that differ in the {label} share one file"))
        elif not got[t]:
            obs.append(Ob(rule, f"{key}: {label}", BAD, where,
                          f"the file name holds only a summary of the {label}"))
        else:
            obs.append(Ob(rule, f"{key}: {label}", OK, where, ""))


# ----------------------------------------------------------------------- folding
def hash_model(it):
    def mk(it, name, args, kwargs, rest, st, node):
        a = [it.strip(x) for x in args if not (x.is_const and isinstance(x.value, str))]
        v = newobj(it, T("hashed"), st, node)
        s = T("hashed", *[x.term for x in a])
        st.heap[v.data[1]] = HExt("made", T("new", s, it.site(node)))
        return v

    def update(it, b, args, kwargs, rest, st, node):
        s = made_state(st, b)
        if s is None or s.op != "new" or s.args[0].op != "hashed":
            return None
        st.heap[b.data[1]] = HExt("made", T("new", T("hashed", s.args[0],
                                                     it.strip(args[0]).term), s.args[1]))
        return NONE

    def digest(it, b, args, kwargs, rest, st, node):
        s = made_state(st, b)
        if s is None or s.op != "new" or s.args[0].op != "hashed":
            return None
        return vstr(T("digest", s.args[0]))
    for n in ("md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "new"):
        it.ext_override["hashlib." + n] = mk
    it.func_override["any.update"] = update
    it.func_override["any.hexdigest"] = digest
    it.func_override["any.digest"] = digest


def run_folding(prog, nr, ns, cached=False):
    it, st, ci, obj = start(prog, "Folding")
    n = T("len", T("arg", "data"))
    data = AV("arr", T("arg", "data"), frozenset([("arg", "data")]), nd=2, ln=n)
    tgt = AV("arr", T("arg", "target"), frozenset([("arg", "target")]), nd=1, ln=n)
    ds = dict_arg(st, {"data": data, "target": tgt, "name": vstr(T("arg", "name"))}, (),
                  ("new", "ds"))
    vp = dict_arg(st, {"n_repeats": vconst(nr), "n_splits": vconst(ns),
                       "random_state": vconst(5)}, (), ("new", "vp"))

    def mk(it, name, args, kwargs, rest, st, node):
        return newobj(it, T("splitter", name.split(".")[-1]), st, node)

    def split(it, b, args, kwargs, rest, st, node):
        s = made_state(st, b)
        if s is None or s.args[0].op != "splitter":
            return None
        items = []
        for i in range(nr * ns):
            pair = []
            for k in ("cvtrain", "cvtest"):
                t = T(k, i)
                pair.append(AV("arr", t, frozenset([it.newloc(node, f"{k}{i}")]), "i", 1,
                               T("len", t)))
            items.append(vtuple(pair))
        return it.mk_list(items, st, node, "splits")
    for s in ("RepeatedStratifiedKFold", "StratifiedKFold", "RepeatedKFold", "KFold"):
        it.ext_override["sklearn.model_selection." + s] = mk
    it.func_override["any.split"] = split
    hash_model(it)
    construct(it, st, ci, obj, {"dataset": ds, "validator_params": vp,
                                "serialization": vstr(T("arg", "ser")),
                                "cache_path": vstr(T("arg", "cache_path")) if cached else NONE})
    return it, st, ci, obj, data, tgt


def fold_rows(prog, nr=1, ns=2):
    """[(entries of the fold, entries of its descriptor)]"""
    it, st, ci, obj, data, tgt = run_folding(prog, nr, ns)
    ys = []

    def on_yield(it, v, st, node):
        v = it.strip(v)
        k = dict(entries(v, st) or {})
        d = it.strip(k["fold_descriptor"]) if "fold_descriptor" in k else None
        ys.append((k, dict(entries(d, st)) if d is not None and d.kind == "dict" and
                   entries(d, st) is not None else None, st.copy()))
    it.on_yield = on_yield
    alts = invoke(it, st, ci, obj, "fold")
    if not ys and alts:
        s, v = alts[0]
        v = it.strip(v)
        h = it.list_h(v, s) if v.kind == "list" else None
        for x in (h.items if h is not None and h.items is not None else ()):
            on_yield(it, x, s, None)
    return it, ci, ys, data, tgt


def indexed(t, lossy=False, out=None, seen=None):
    """indexings of the dataset a term depends on without loss"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(t, AV):
        t = t.term
    if not isinstance(t, Term) or (t, lossy) in seen:
        return out
    seen.add((t, lossy))
    if t.op == "idx" and not lossy:
        out.add(t)
    lo = lossy or t.op in LOSSY
    for x in t.args:
        indexed(x, lo, out, seen)
    return out


def content_keys(ys, data, tgt):
    """descriptor entries that depend on the content of the fold"""
    k, d, st = ys[0]
    out = []
    for name, v in (d or {}).items():
        if any(x.args[0] in (data.term, tgt.term) for x in indexed(v)):
            out.append(name)
    return out


def unit_descriptor(prog, job):
    it, ci, ys, data, tgt = fold_rows(prog, *job)
    where = where_of(ci, "fold")
    obs = []
    if len(ys) != job[0] * job[1]:
        return [Ob(R_FOLD, f"{job}", UNK, where, f"{len(ys)} folds found")], stats(it)
    for i, (k, d, st) in enumerate(ys):
        if d is None:
            obs.append(Ob(R_FOLD, f"fold {i} of {job}", UNK, where, "descriptor not resolved"))
            continue
        got = set()
        for v in d.values():
            got |= indexed(v)
        missing = [n for n in ARR if n in k and k[n].term not in got]
        named = set(x for v in d.values() for x in leaves(v.term))
        bad = ""
        if missing and not any(x.op == "idx" for x in named):
            bad = "the descriptor, used for the names of cached results, does not depend on " \
                "the content of the fold: another dataset or folding gives the same descriptor"
        elif set(missing) >= {"X_train", "y_train"}:
            bad = f"the descriptor does not depend on the content of {missing}"
        unk = "" if bad or not missing else f"{missing} not found in the descriptor"
        obs.append(Ob(R_FOLD, f"fold {i} of {job}", BAD if bad else UNK if unk else OK, where,
                      bad or unk))
    terms = [tuple(sorted((n, v.term.uid) for n, v in d.items())) for k, d, st in ys if d]
    dup = len(set(terms)) < len(terms)
    obs.append(Ob(R_FOLD, f"distinct descriptors {job}", BAD if dup else OK, where,
                  "two folds have the same descriptor" if dup else ""))
    return obs, stats(it)


def unit_files(prog, job):
    nr, ns, missing = job
    it, st, ci, obj, data, tgt = run_folding(prog, nr, ns, cached=True)
    where = where_of(ci, "folding_files")
    dumps = []

    def dump(it, fi, args, kwargs, rest, st, node):
        dumps.append((it.strip(getarg(args, kwargs, 0, "obj")),
                      it.strip(getarg(args, kwargs, 1, "filename")),
                      getarg(args, kwargs, 2, "serialization"),
                      getarg(args, kwargs, 3, "array_to_list_map"), st.copy()))
        return NONE
    it.func_override["dump_dict"] = dump
    for n in ("os.path.exists", "os.path.isfile"):
        it.ext_override[n] = lambda *a: vconst(not missing)
    globbed = []

    def globf(it, name, args, kwargs, rest, st, node):
        globbed.append(it.strip(args[0]).term)
        loc = it.newloc(node, "glob")
        v = it.mk_list([], st, node, "glob")
        st.heap[v.data] = type(st.heap[v.data])(
            None, vstr(T("globfile", it.strip(args[0]).term)), T("len", T("glob")), T("glob"))
        return v
    for n in ("glob.glob", "glob.iglob", "os.listdir", "os.scandir"):
        it.ext_override[n] = globf
    obs = []
    out = None
    for s, v in invoke(it, st, ci, obj, "folding_files"):
        v = it.strip(v)
        h = it.list_h(v, s) if v.kind == "list" else None
        out = [it.strip(x).term for x in h.items] if h is not None and h.items is not None \
            else None
    tag = f"{nr}x{ns}, " + ("files missing" if missing else "files present")
    n_files = len(dumps)
    if out is None:
        bad = bool(globbed)
        obs.append(Ob(R_FILES, tag, BAD if bad else UNK, where,
                      "all the fold files of the directory are evaluated, also those of an "
                      "earlier folding with more splits" if bad else "files not resolved"))
    else:
        bad = ""
        if len(out) != nr * ns:
            bad = f"{len(out)} files instead of {nr * ns}"
        elif len(set(out)) < len(out):
            bad = "one file is listed twice"
        elif any(x.op == "globfile" for t in out for x in leaves(t)):
            bad = "files of the directory are evaluated"
        if missing and not bad and set(d[1].term for d in dumps) != set(out):
            bad = "the files listed are not those written"
        obs.append(Ob(R_FILES, tag, BAD if bad else OK, where, bad))
    # the files written
    dumps.clear()
    invoke(it, st, ci, obj, "cache_foldings")
    where = where_of(ci, "cache_foldings")
    bad = ""
    if len(dumps) != nr * ns:
        bad = f"{len(dumps)} folds of {nr * ns} are written"
    elif len(set(d[1].term for d in dumps)) < nr * ns:
        bad = "two folds are written into one file"
    unk = bad and not dumps
    obs.append(Ob(R_FILES, f"written {nr}x{ns} {missing}", UNK if unk else BAD if bad else OK,
                  where, bad))
    for i, d in enumerate(dumps):
        key_list(obs, f"fold {i} of {nr}x{ns} {missing}", where, it, d)
        ext_of(obs, f"fold {i} of {nr}x{ns} {missing}", where, it, d)
    return obs, stats(it)


def key_list(obs, key, where, it, d):
    """arrays of a dictionary are named in the list of arrays to serialize"""
    v, fn, ser, keys, st = d
    e = entries(v, st)
    items = None
    if keys is not None:
        items, _, _ = it.iter_info(it.strip(keys), st, DUMMY)
    if e is None or keys is not None and items is None:
        obs.append(Ob(R_TRIP, f"{key}: arrays", UNK, where, "entries not resolved"))
        return
    names = {x.value for x in items or () if x.is_const}
    arrs = {k for k, x in e.items() if it.strip(x).kind == "arr" or
            k in ARR + ("y_pred",) and it.strip(x).kind == "any"}
    miss = sorted(arrs - names)
    extra = sorted(names - set(e))
    bad = f"the array {miss} cannot be serialized" if miss else \
        f"{extra} is not in the dictionary" if extra else ""
    obs.append(Ob(R_TRIP, f"{key}: arrays", BAD if bad else OK, where, bad))


def ext_of(obs, key, where, it, d):
    """the serialization a file is written with is the one its name tells"""
    v, fn, ser, keys, st = d
    s = it.strip(ser) if ser is not None else None
    last = fn.term
    while isinstance(last, Term) and last.op in ("call", "fstr", "cat", "add", "num+", "join"):
        xs = [x for x in last.args if isinstance(x, Term) or isinstance(x, str)]
        if last.op == "call":
            xs = [x for x in last.args[1:] if isinstance(x, Term) and x.op != "const"] or xs
        last = xs[-1] if xs else None
    if s is None:
        obs.append(Ob(R_TRIP, f"{key}: suffix", OK, where, ""))
        return
    a = atoms(fn, st)
    if s.term.op == "arg" and s.term not in a:
        obs.append(Ob(R_TRIP, f"{key}: suffix", BAD, where,
                      f"written as {show(s.term)}, which the file name does not tell"))
    else:
        obs.append(Ob(R_TRIP, f"{key}: suffix", OK, where, ""))


# ------------------------------------------------------- sampling and evaluation
def make_fold(prog, st):
    """a fold whose descriptor has the entries Folding gives it"""
    it, ci, ys, data, tgt = fold_rows(prog)
    F = fold_arrays()
    if not ys or ys[0][1] is None:
        return None
    cont = content_keys(ys, data, tgt)
    # entries that vary between folds or carry the content
    d0, d1 = ys[0][1], ys[-1][1]
    keys = {}
    need = []
    for k in d0:
        if isinstance(k, str):
            t = T("arg", "desc", k)
            keys[k] = vany(t)
            if k in ("repeat_idx", "fold_idx", "split_idx"):
                keys[k] = AV("num", t)
    for k in cont:
        need.append(("content of the fold", T("arg", "desc", k)))
    if "repeat_idx" in keys and "fold_idx" in keys:
        desc = dict_arg(st, keys, (), ("new", "desc"))
        return F, desc, need, bool(cont)
    return None


def unit_job(prog, job):
    cls, method, damaged, reset, as_file = job
    obs = []
    it, st, ci, obj = start(prog, cls)
    install(it)
    mf = make_fold(prog, st)
    where = where_of(ci, method)
    tag = f"{cls}.{method}, {'damaged' if damaged else 'intact'} file, reset={reset}" + \
        (", input file" if as_file else "")
    if mf is None:
        return [Ob(R_NAME, tag, UNK, where, "fold descriptor not resolved")], stats(it)
    F, desc, need, has_content = mf
    if not has_content:
        need = [("content of the fold", T("arg", "desc", "<content>"))]
    dumps, checks, loads = [], [], []
    osp, ssp = spec("os"), spec("scaler")
    given = dict_arg(st, {"p": vany(T("arg", "given p"))}, (vany(T("arg", "given rest")),),
                     ("new", "given"))
    if cls == "SamplingJob":
        fd = dict_arg(st, {**F, "fold_descriptor": desc}, (), ("new", "fold"))
        kw = {"folding": vstr(T("arg", "foldfile")) if as_file else fd,
              "oversampler": osp.data[1], "oversampler_params": given, "scaler": ssp}
        need = need + [("oversampler", osp.data[1].term),
                       ("oversampler parameters", T("arg", "given p")),
                       ("oversampler parameters (others)", T("arg", "given rest")),
                       ("scaler", ssp.data[1].term), ("scaler module", ssp.data[0].term),
                       ("scaler parameters", ssp.data[2].term)]
    else:
        osd = dict_arg(st, {"class_name": vstr(T("arg", "os", "class"))},
                       (vany(T("arg", "osparams")),), ("new", "osd"))
        fd = dict_arg(st, {**F, "fold_descriptor": desc, "oversampler": osd,
                           "scaler": vstr(T("arg", "sc")), "error": vany(T("arg", "err")),
                           "warning": vany(T("arg", "warn")),
                           "runtime": vnum(T("arg", "rt"))}, (), ("new", "fold"))
        c = spec("c1")
        kw = {"oversampling": vstr(T("arg", "osfile")) if as_file else fd,
              "classifiers": it.mk_list([c], st, DUMMY)}
        need = need + [("oversampler", T("arg", "os", "class")),
                       ("oversampler parameters", T("arg", "osparams")),
                       ("scaler", T("arg", "sc")), ("classifier", c.data[1].term),
                       ("classifier module", c.data[0].term),
                       ("classifier parameters", c.data[2].term),
                       ("failure of the sampling", T("arg", "err"))]

    def load(it, fi, args, kwargs, rest, st, node):
        loads.append((it.strip(getarg(args, kwargs, 0, "filename")),
                      getarg(args, kwargs, 1, "serialization"),
                      getarg(args, kwargs, 2, "array_to_list_map"), st.copy()))
        return fd

    def dump(it, fi, args, kwargs, rest, st, node):
        dumps.append((it.strip(getarg(args, kwargs, 0, "obj")),
                      it.strip(getarg(args, kwargs, 1, "filename")),
                      getarg(args, kwargs, 2, "serialization"),
                      getarg(args, kwargs, 3, "array_to_list_map"), st.copy()))
        return NONE

    def check(it, fi, args, kwargs, rest, st, node):
        checks.append((it.strip(getarg(args, kwargs, 0, "filename")),
                       getarg(args, kwargs, 1, "serialization"), st.copy()))
        return vconst(damaged)
    it.func_override["load_dict"] = load
    it.func_override["dump_dict"] = dump
    it.func_override["check_if_damaged"] = check
    construct(it, st, ci, obj, {**kw, "cache_path": vstr(T("arg", "cache_path")),
                                "serialization": vstr(T("arg", "ser")),
                                "reset": vconst(reset)})
    alts = invoke(it, st, ci, obj, method)
    ret = []
    for s, v in alts:
        for x in (v.data if v.kind == "union" else [v]):
            x = it.strip(x)
            h = it.list_h(x, s) if x.kind == "list" else None
            if h is not None and h.items is not None:
                ret += [it.strip(y).term for y in h.items]
            else:
                ret.append(x.term)
    names = {d[1].term for d in dumps} | {c[0].term for c in checks}
    if not names:
        obs.append(Ob(R_REUSE, tag, UNK, where, "no cached file found"))
        return obs, stats(it)
    bad = unk = ""
    if (damaged or reset) and not dumps:
        bad = "the result is not recomputed although " + \
            ("the file is damaged" if damaged else "a reset is requested")
    elif not damaged and not reset and dumps:
        bad = "an intact cached result is not used"
    elif not checks and not reset:
        unk = "the file is not checked"
    elif len(names) > 1:
        unk = "several file names"
    elif any(t not in names for t in ret):
        wrong = [t for t in ret if t not in names]
        bad = f"returns {show(wrong[0], 3)} instead of the name of the cached file" \
            if wrong[0].op in ("const", "arg") else ""
        unk = "" if bad else f"returns {show(wrong[0], 3)}"
    obs.append(Ob(R_REUSE, tag, BAD if bad else UNK if unk else OK, where, bad or unk))
    for d in dumps[:1]:
        coverage(obs, R_NAME, tag, where, need + [("cache path", T("arg", "cache_path"))], d[1],
                 d[4])
        key_list(obs, tag, where, it, d)
        ext_of(obs, tag, where, it, d)
    if not dumps:
        coverage(obs, R_NAME, tag, where, need + [("cache path", T("arg", "cache_path"))],
                 checks[0][0], checks[0][2])
    for fn, ser, keys, s in loads:
        items = None
        if keys is not None:
            items, _, _ = it.iter_info(it.strip(keys), s, DUMMY)
        got = {x.value for x in items or () if x.is_const}
        miss = [k for k in ARR if k not in got]
        bad = f"{miss} of the input file are not converted to arrays" if miss and \
            (keys is None or items is not None) else ""
        unk = keys is not None and items is None
        sv = it.strip(ser) if ser is not None else None
        if not bad and sv is not None and sv.term.op == "arg" and \
                sv.term is T("arg", "ser") and False:
            bad = ""
        obs.append(Ob(R_TRIP, f"{tag}: input", BAD if bad else UNK if unk else OK, where, bad))
    return obs, stats(it)


# ------------------------------------------------------------------ serialization
SCEN = [("missing file", "open", FileNotFoundError, None),
        ("truncated json", "load", json.JSONDecodeError, "json"),
        ("json cut inside a character", "load", UnicodeDecodeError, "json"),
        ("empty pickle", "load", EOFError, "pickle"),
        ("truncated pickle", "load", pickle.UnpicklingError, "pickle"),
        ("intact file", None, None, None)]


def unit_damaged(prog, job):
    ser, (what, at, exc, only) = job
    it, st, fi, where = free_run(prog, "check_if_damaged")
    it.only_forced = True

    def rz(*a):
        raise PyRaise(exc)
    if at == "open":
        it.ext_override["builtins.open"] = rz
    elif at == "load":
        for n in ("json.load", "json.loads", "pickle.load", "pickle.loads"):
            it.ext_override[n] = rz
    for n in ("os.path.exists", "os.path.isfile"):
        it.ext_override[n] = lambda *a: vconst(at != "open")
    key = f"{what}, {ser}"
    want = exc is not None
    try:
        alts = it.call_func(fi, [vstr(T("arg", "fn")), vconst(ser)], {}, [], st, DUMMY)
    except PyRaise as e:
        return [Ob(R_DAM, key, BAD, where, f"{e.exc.__name__} is not handled")], stats(it)
    vals = [it.strip(v) for s, v in alts]
    if not vals or not all(v.is_const for v in vals):
        return [Ob(R_DAM, key, UNK, where, f"{[show(v.term, 3) for v in vals]}")], stats(it)
    bad = [v.value for v in vals if bool(v.value) != want]
    return [Ob(R_DAM, key, BAD if bad else OK, where,
               f"reported as {'intact' if want else 'damaged'}" if bad else "")], stats(it)


KEEP = {"tolist", "copy", "astype"}


def unit_trip(prog, job):
    ser, by_suffix = job
    obs = []
    it, st, fi, where = free_run(prog, "dump_dict")
    it.only_forced = True
    opened, wrote = [], []

    def op(it, name, args, kwargs, rest, st, node):
        opened.append((it.strip(args[0]).term, it.strip(getarg(args, kwargs, 1, "mode"))
                       if getarg(args, kwargs, 1, "mode") is not None else vconst("r")))
        return vany(T("file", it.strip(args[0]).term))

    def writer(kind):
        def f(it, name, args, kwargs, rest, st, node):
            v = it.strip(args[0])
            e = {}
            for k, x in ((entries(v, st) or {}) if v.kind == "dict" else {}).items():
                x = it.strip(x)
                h = st.heap.get(x.data) if x.kind == "list" else None
                e[k] = x if h is None or h.ver is None or h.items is not None else \
                    vany(h.ver)
            wrote.append((kind, e if v.kind == "dict" else None, v.term))
            return vstr(T("text", kind))
        return f
    it.ext_override["builtins.open"] = op
    for n in ("json.dump", "json.dumps", "pickle.dump", "pickle.dumps"):
        it.ext_override[n] = writer(n.split(".")[0])
    x = AV("arr", T("arg", "x"), frozenset([("arg", "x")]), nd=2, ln=T("len", T("arg", "x")))
    o = vany(T("arg", "o"))
    d = dict_arg(st, {"x": x, "o": o}, (), ("new", "d"))
    fn = vconst("a.b." + ser) if by_suffix else vstr(T("arg", "fn"))
    keys = it.mk_list([vconst("x")], st, DUMMY, "keys")
    args = [d, fn] + ([NONE] if by_suffix else [vconst(ser)]) + [keys]
    it.call_func(fi, args, {}, [], st, DUMMY)
    key = f"{ser}" + (" by suffix" if by_suffix else "")
    if len(wrote) != 1 or not opened:
        obs.append(Ob(R_TRIP, f"dump {key}", UNK, where, f"{len(wrote)} writes found"))
    else:
        kind, e, t = wrote[0]
        bad = unk = ""
        if kind != ser:
            bad = f"written with {kind}"
        elif opened[-1][0] is not fn.term:
            bad = f"written to {show(opened[-1][0])}" if opened[-1][0].op == "const" else ""
            unk = "other file"
        elif not (opened[-1][1].is_const and set(opened[-1][1].value) & set("wx")):
            unk = "mode of the file"
        elif e is None or set(e) != {"x", "o"}:
            bad = f"only the entries {sorted(map(str, e))} are written" if e is not None and \
                not {"x", "o"} <= set(e) else ""
            unk = "entries"
        else:
            if e["o"].term is not o.term:
                bad = f"o written as {show(e['o'].term)}"
            r = lossless(e["x"].term, x.term)
            if r is False:
                bad = f"x written as {show(e['x'].term)}"
            elif r is None:
                unk = f"x written as {show(e['x'].term)}"
        obs.append(Ob(R_TRIP, f"dump {key}", BAD if bad else UNK if unk else OK, where,
                      bad or unk))
    # reading
    it, st, fi, where = free_run(prog, "load_dict")
    it.only_forced = True
    read = []
    opened.clear()

    def reader(kind):
        def f(it, name, args, kwargs, rest, st, node):
            read.append(kind)
            return dict_arg(st, {"x": vany(T("arg", "x")), "o": o}, (), ("new", "stored"))
        return f
    it.ext_override["builtins.open"] = op
    for n in ("json.load", "json.loads", "pickle.load", "pickle.loads"):
        it.ext_override[n] = reader(n.split(".")[0])
    keys = it.mk_list([vconst("x")], st, DUMMY, "keys")
    alts = it.call_func(fi, [fn] + ([NONE] if by_suffix else [vconst(ser)]) + [keys], {}, [], st,
                        DUMMY)
    bad = unk = ""
    if len(read) != 1 or len(alts) != 1:
        unk = f"{len(read)} reads found"
    else:
        s, v = alts[0]
        v = it.strip(v)
        e = entries(v, s)
        if read[0] != ser:
            bad = f"read with {read[0]}"
        elif e is None:
            unk = "result not resolved"
        elif "x" not in e or "o" not in e:
            bad = "entries are lost"
        elif e["o"].term is not o.term:
            bad = f"o read as {show(e['o'].term)}"
        elif ser == "json" and it.strip(e["x"]).kind == "list":
            bad = "x is not converted to an array"
        else:
            r = lossless(e["x"].term, T("arg", "x"))
            if r is False:
                bad = f"x read as {show(e['x'].term)}"
            elif r is None:
                unk = f"x read as {show(e['x'].term)}"
            elif ser == "json" and it.strip(e["x"]).kind != "arr":
                bad = "x is not converted to an array"
    obs.append(Ob(R_TRIP, f"load {key}", BAD if bad else UNK if unk else OK, where, bad or unk))
    return obs, stats(it)


def lossless(t, x):
    """True: a conversion of x keeping its values; False: one that does not; None: unclear"""
    n = 0
    while t is not x:
        n += 1
        if n > 8 or not isinstance(t, Term) or not t.args:
            return None
        name = t.args[0] if isinstance(t.args[0], str) else t.op
        if name in ("int", "round", "rint", "trunc", "floor", "sort", "argsort", "unique",
                    "flatten", "ravel"):
            return False
        flat = [y for y in t.args if isinstance(y, Term)]
        if t.op in ("cast", "astype") or name == "astype":
            txt = show(t, 2)
            if any(is_const(y) and "int" in str(const_value(y)) for y in flat) or \
                    any(isinstance(y, str) and y.startswith("int") for y in t.args):
                return False
        c = [y for y in flat if x in leaves(y) or y is x]
        if len(c) != 1:
            return None
        t = c[0]
    return True


# ----------------------------------------------------------------------- clean-up
def prefixes(prog):
    """constant prefixes of the names of the cached files, by kind"""
    out = {}
    for cls, m in (("SamplingJob", "do_oversampling"), ("EvaluationJob", "do_evaluation")):
        it, st, ci, obj = start(prog, cls)
        install(it)
        mf = make_fold(prog, st)
        if mf is None:
            return None
        F, desc, need, _ = mf
        fd = dict_arg(st, {**F, "fold_descriptor": desc, "oversampler": dict_arg(
            st, {"class_name": vstr(T("arg", "os"))}, (), ("new", "osd")),
            "scaler": vstr(T("arg", "sc")), "error": NONE, "warning": NONE,
            "runtime": vnum(T("arg", "rt"))}, (), ("new", "fold"))
        names = []

        def dump(it, fi, args, kwargs, rest, st, node):
            names.append(it.strip(getarg(args, kwargs, 1, "filename")).term)
            return NONE
        it.func_override["load_dict"] = lambda *a: fd
        it.func_override["dump_dict"] = dump
        it.func_override["check_if_damaged"] = lambda *a: vconst(True)
        osp = spec("os")
        kw = {"folding": fd, "oversampler": osp.data[1], "oversampler_params": osp.data[2]} \
            if cls == "SamplingJob" else \
            {"oversampling": fd, "classifiers": it.mk_list([spec("c")], st, DUMMY)}
        construct(it, st, ci, obj, {**kw, "cache_path": vstr(T("arg", "cache_path"))})
        invoke(it, st, ci, obj, m)
        out[cls] = names
    it, st, ci, obj, data, tgt = run_folding(prog, 1, 2, cached=True)
    names = []

    def dump(it, fi, args, kwargs, rest, st, node):
        names.append(it.strip(getarg(args, kwargs, 1, "filename")).term)
        return NONE
    it.func_override["dump_dict"] = dump
    invoke(it, st, ci, obj, "cache_foldings")
    out["Folding"] = names
    res = {}
    for k, ts in out.items():
        ps = {base_prefix(t) for t in ts}
        if len(ps) != 1 or None in ps:
            return None
        res[k] = ps.pop()
    return res


def base_prefix(t):
    """leading constant text of the last path component"""
    if is_const(t):
        return str(const_value(t)).rsplit("/", 1)[-1]
    if t.op == "call" and t.args and t.args[0] == "os.path.join":
        parts = [x for x in t.args[1:] if isinstance(x, Term)]
        return base_prefix(parts[-1]) if parts else None
    if t.op == "fstr" and t.args:
        x = t.args[0]
        if isinstance(x, str):
            return x
        return str(const_value(x)) if is_const(x) else None
    return None


def unit_clean(prog, mode):
    it, st, fi, where = free_run(prog, "do_clean_up")
    removed, globs = [], []
    obs = []
    pre = prefixes(prog)
    key = f"clean_up={mode!r}"

    def globf(it, name, args, kwargs, rest, st, node):
        t = it.strip(args[0]).term
        globs.append(t)
        return it.mk_list([vstr(T("globfile", t))], st, node, f"glob{t.uid}")

    def rm(it, name, args, kwargs, rest, st, node):
        removed.append((name, it.strip(args[0]).term))
        return NONE
    it.ext_override["glob.glob"] = globf
    it.ext_override["glob.iglob"] = globf
    for n in ("os.remove", "os.unlink", "shutil.rmtree", "os.rmdir", "os.removedirs"):
        it.ext_override[n] = rm
    it.call_func(fi, [vstr(T("arg", "cache_path")), vconst(mode)], {}, [], st, DUMMY)
    if pre is None:
        return [Ob(R_CLEAN, key, UNK, where, "names of the cached files not resolved")], \
            stats(it)
    hit = set()
    for name, t in removed:
        if "rmtree" in name or "rmdir" in name or "removedirs" in name:
            obs.append(Ob(R_CLEAN, key, BAD, where, f"{name}({show(t)}) removes the results"))
            continue
        if t.op != "globfile":
            obs.append(Ob(R_CLEAN, f"{key} {show(t, 2)}", UNK, where,
                          f"removes {show(t, 3)}"))
            continue
        pat = base_prefix(t.args[0])
        if pat is None:
            obs.append(Ob(R_CLEAN, key, UNK, where, f"pattern {show(t.args[0])}"))
            continue
        hit |= {k for k, p in pre.items()
                if fnmatch.fnmatch(p + "0001_0001_0123456789abcdef.json", pat)}
    allowed = {"oversamplings": {"SamplingJob"}, "all": {"SamplingJob", "Folding"}}.get(
        mode, set())
    wrong = sorted(hit - allowed)
    obs.append(Ob(R_CLEAN, f"{key} removed kinds", BAD if wrong else OK, where,
                  f"removes the files of {wrong}" if wrong else f"{sorted(hit)}"))
    return obs, stats(it)


def unit(prog, job):
    kind, arg = job
    return {"descriptor": unit_descriptor, "files": unit_files, "job": unit_job,
            "damaged": unit_damaged, "trip": unit_trip, "clean": unit_clean}[kind](prog, arg)


def main(tier):
    c = Check("C20", tier)
    jobs = [("descriptor", x) for x in ((1, 2), (2, 3), (3, 2))]
    jobs += [("files", (a, b, m)) for a, b in ((2, 3), (1, 2)) for m in (True, False)]
    if tier != "quick":
        jobs += [("descriptor", x) for x in ((2, 10), (5, 5))]
        jobs += [("files", (a, b, m)) for a, b in ((3, 10), (10, 2)) for m in (True, False)]
    for cls, ms in (("SamplingJob", ("do_oversampling", "execute", "timeout")),
                    ("EvaluationJob", ("do_evaluation",))):
        for m in ms:
            for dam in (False, True):
                for r in (False, True):
                    for f in (False, True):
                        jobs.append(("job", (cls, m, dam, r, f)))
    jobs += [("damaged", (ser, s)) for ser in ("json", "pickle") for s in SCEN
             if s[3] in (None, ser)]
    jobs += [("trip", (s, b)) for s in ("json", "pickle") for b in (False, True)]
    jobs += [("clean", m) for m in (None, "none", "oversamplings", "all")]
    c.run_units(unit, jobs)
    c.explanation = (
        "The caching code is abstractly executed with symbolic folds, oversamplers, scalers and "
        "classifiers. The file name a result is stored under must depend (through operations "
        "that keep distinct values distinct) on everything the result depends on; the fold "
        "descriptor must depend on the content of the fold; for each combination of "
        "damaged/intact and reset/no reset the job must recompute or reuse; the exceptions of "
        "missing, empty and truncated files are injected into the abstract execution of "
        "check_if_damaged; what is written is what is read back; the list of fold files is "
        "that of the requested folding; clean-up patterns are matched against the names.")
    c.assumptions = ["hash functions have no collisions",
                     "the sampling and the classifier are deterministic given their parameters"]
    return c.finish({R_NAME: 60, R_FOLD: 6, R_REUSE: 16, R_DAM: 6, R_TRIP: 20, R_FILES: 4,
                     R_CLEAN: 3})
