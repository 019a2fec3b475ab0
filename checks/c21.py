"""C21: the process pool returns the result of each job at its place, in bounded time."""
from queue import Empty, Full
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.interp import PyRaise
from sa.terms import T, Term, const, is_const, const_value, leaves, show
from sa.values import AV, HExt, HList, NONE, EMPTY, vany, vconst, vnum, vstr, vtuple
from sa.drive import DUMMY
from checks.evalmodel import start, construct, invoke, newobj, getarg, made_state, free_run

R_PLACE = "result-of-each-job-at-its-place"
R_LOCK = "shared-state-under-the-lock"
R_REL = "locks-released-on-every-path"
R_RES = "result-or-fallback-of-the-job"
R_HANG = "no-unbounded-wait"
R_PUT = "result-sent-once"

LOCKS = ("threading.Lock", "threading.RLock", "threading.Semaphore", "multiprocessing.Lock",
         "multiprocessing.RLock", "multiprocessing.Semaphore", "threading.BoundedSemaphore")


class Hang(PyRaise):
    """the abstract environment cannot make progress"""

    def __init__(self, what):
        PyRaise.__init__(self, _Hang)
        self.what = what


class _Hang(BaseException):
    pass


class Env:
    """typestate of the synchronisation objects in one scenario"""

    def __init__(self, it, scenario=None, timeout=None):
        self.it = it
        self.sc = dict(scenario) if scenario else scenario
        self.dead_polls = 0
        self.now = 100.0
        self.unknown = []
        self.trace = []
        self.n_lock = 0
        self.finish = None     # simulated time at which the process has put its result
        self.got = False
        self.killed = False
        self.started = None
        it.unroll_while = 4000
        it.only_forced = True
        for n in LOCKS:
            it.ext_override[n] = self.mk_lock
        for n in ("threading.Thread",):
            it.ext_override[n] = self.mk_thread
        for n in ("multiprocessing.Process", "multiprocessing.context.Process"):
            it.ext_override[n] = self.mk("process")
        for n in ("multiprocessing.Queue", "multiprocessing.SimpleQueue", "queue.Queue",
                  "multiprocessing.JoinableQueue"):
            it.ext_override[n] = self.mk("queue")
        for n in ("time.monotonic", "time.time", "time.perf_counter"):
            it.ext_override[n] = lambda *a: vconst(self.now)
        it.ext_override["time.sleep"] = self.sleep
        for m in ("acquire", "release", "start", "join", "is_alive", "kill", "terminate", "get",
                  "put", "get_nowait", "put_nowait", "empty", "close", "join_thread",
                  "cancel_join_thread", "locked"):
            it.func_override["any." + m] = self.method(m)
        it.on_with = self.with_

    # -- objects
    def mk(self, kind):
        def f(it, name, args, kwargs, rest, st, node):
            v = newobj(it, T(kind), st, node)
            st.heap[v.data[1]] = HExt("made", T("new", T(kind), it.site(node)))
            return v
        return f

    def mk_lock(self, it, name, args, kwargs, rest, st, node):
        v = newobj(it, T("lock"), st, node)
        st.heap[v.data[1]] = HExt("made", T("new", T("lock", "free"), it.site(node)))
        return v

    def mk_thread(self, it, name, args, kwargs, rest, st, node):
        v = newobj(it, T("thread"), st, node)
        st.heap[v.data[1]] = HExt("made", T("new", T("thread", "new"), it.site(node)))
        self.threads = getattr(self, "threads", {})
        self.threads[v.data[1]] = (getarg(args, kwargs, 1, "target"),
                                   getarg(args, kwargs, 3, "args"),
                                   getarg(args, kwargs, 4, "kwargs"))
        return v

    def sleep(self, it, name, args, kwargs, rest, st, node):
        a = it.strip(args[0])
        self.now += float(a.value) if a.is_const else 0.1
        return NONE

    def kind(self, st, b):
        s = made_state(st, b)
        return s.args[0].op if s is not None and s.op == "new" else None

    def held(self, st, loc):
        h = st.heap.get(loc)
        return h is not None and h.state.args[0].args[:1] == ("held",)

    def set_lock(self, st, b, held):
        s = made_state(st, b)
        st.heap[b.data[1]] = HExt("made", T("new", T("lock", "held" if held else "free"),
                                            s.args[1]))

    def with_(self, it, v, st, entering):
        v = it.strip(v)
        if self.kind(st, v) == "lock":
            self.lock_op(it, v, st, entering)

    def lock_op(self, it, b, st, acquire):
        held = self.held(st, b.data[1])
        if acquire and held:
            raise Hang("a lock is acquired that nobody releases")
        if not acquire and not held:
            self.trace.append(("release-free", b.data[1]))
        self.set_lock(st, b, acquire)

    # -- methods
    def method(self, name):
        def f(it, b, args, kwargs, rest, st, node):
            k = self.kind(st, b)
            if k is None:
                return None
            r = self.op(k, name, it, b, args, kwargs, st, node)
            if r is None:
                self.unknown.append(f"{k}.{name}")
                return vany(T("unknown", k, name))
            return r
        return f

    def op(self, k, name, it, b, args, kwargs, st, node):
        if k == "lock":
            if name == "acquire":
                if args or kwargs:
                    return None
                self.lock_op(it, b, st, True)
                return vconst(True)
            if name == "release":
                self.lock_op(it, b, st, False)
                return NONE
            if name == "locked":
                return vconst(self.held(st, b.data[1]))
            return None
        if k == "thread":
            if name == "start":
                t, a, kw = self.threads[b.data[1]]
                pos, named = [], {}
                if a is not None:
                    items, _, _ = it.iter_info(it.strip(a), st, node)
                    if items is None:
                        return None
                    pos = list(items)
                if kw is not None:
                    h = st.heap.get(it.strip(kw).data)
                    if h is None:
                        return None
                    named = dict(h.keys)
                if t is None:
                    return None
                alts = it.call(it.strip(t), pos, named, [], st, node)
                it.merge_alts(alts, st)
                return NONE
            if name == "join":
                return NONE
            if name == "is_alive":
                return vconst(False)
            return None
        if k == "process":
            return self.process(name, it, args, kwargs)
        if k == "queue":
            return self.queue(name, it, args, kwargs)
        return None

    def tmo(self, it, v):
        if v is None:
            return None
        v = it.strip(v)
        if v.kind == "none" or v.is_const and v.value is None:
            return None
        return float(v.value) if v.is_const and isinstance(v.value, (int, float)) else "?"

    # scenario: what the process does
    #  finish:  seconds after the start at which the result is put into the queue (None: never)
    #  exit:    seconds after the start at which the process ends by itself (None: never);
    #           "read": as soon as the result has been read
    def t(self):
        return self.now - self.started if self.started is not None else 0

    def alive(self):
        if self.started is None or self.killed:
            return False
        e = self.sc["exit"]
        if e == "read":
            return not self.got
        return e is None or self.t() < e - 1e-6

    def ready(self):
        f = self.sc["finish"]
        if f == "read":
            return False
        return not self.got and not (self.killed and f is None) and self.started is not None \
            and f is not None and self.t() >= f

    def process(self, name, it, args, kwargs):
        if name == "start":
            if self.sc.get("fails"):
                raise PyRaise(OSError)
            self.started = self.now
            return NONE
        if name == "is_alive":
            a = self.alive()
            # time passes between two looks at the process
            self.now += 0.001
            return vconst(a)
        if name in ("kill", "terminate"):
            self.killed = True
            return NONE
        if name == "close":
            return NONE
        if name == "join":
            t = self.tmo(it, getarg(args, kwargs, 0, "timeout"))
            if t == "?":
                return None
            if self.sc["finish"] == "read":
                self.sc["finish"] = self.sc["exit"] = self.t() + 0.01
            e = self.sc["exit"]
            if not self.alive():
                return NONE
            if e in (None, "read"):
                if t is None:
                    raise Hang("the process is joined before its result is read"
                               if e == "read" else "a process that never ends is joined")
                self.now += max(t, 0)
                return NONE
            left = e - self.t()
            self.now += left if t is None else min(left, max(t, 0))
            return NONE
        return None

    def queue(self, name, it, args, kwargs):
        if name in ("close", "join_thread", "cancel_join_thread"):
            return NONE
        if name == "empty":
            return vconst(not self.ready())
        if name in ("get", "get_nowait"):
            block = getarg(args, kwargs, 0, "block") if name == "get" else vconst(False)
            blk = True if block is None else it.strip(block).value if block.is_const else None
            if blk is None:
                return None
            t = self.tmo(it, getarg(args, kwargs, 1, "timeout")) if name == "get" else None
            if t == "?":
                return None
            if self.sc["finish"] == "read" and blk and t is None:
                self.sc["finish"] = self.sc["exit"] = self.t()
            if self.ready():
                self.got = True
                return vany(T("value"))
            f = self.sc["finish"]
            wait = None if f in (None, "read") or self.got or self.killed else f - self.t()
            if not blk:
                self.now += 0.001
                self.empty()
            if t is None:
                if wait is None:
                    raise Hang("waits for a result that never comes")
                self.now += wait
                self.got = True
                return vany(T("value"))
            if wait is not None and wait <= t:
                self.now += max(wait, 0)
                self.got = True
                return vany(T("value"))
            self.now += t
            self.empty()
        return None

    def empty(self):
        if self.sc["finish"] == "read":
            # the result arrives right after the first unsuccessful look
            self.sc["finish"] = self.sc["exit"] = self.t()
        if not self.alive():
            self.dead_polls += 1
            if self.dead_polls > 200:
                raise Hang("waits for the result of a process that has ended")
        raise PyRaise(Empty)


def stats(it):
    return {"functions": set(f"{p}:{q}" for p, q in it.funcs), "calls_inlined": it.n_calls,
            "unmodelled_constructs": set(it.gaps)}


def jobobj(it, st, n, log):
    """a job: execute and timeout are recorded"""
    loc = ("new", f"job{n}")
    st.heap[loc] = HExt("made", T("new", T("job", n), "j"))
    return AV("any", T("job", n), frozenset([loc]), ("made", loc))


def job_methods(it, env, log, fails=False):
    def ex(it, b, args, kwargs, rest, st, node):
        s = made_state(st, b)
        if s is None or s.args[0].op != "job":
            return None
        log.append(("execute", s.args[0]))
        if fails:
            raise PyRaise(ValueError)
        return vany(T("value", s.args[0]))

    def to(it, b, args, kwargs, rest, st, node):
        s = made_state(st, b)
        if s is None or s.args[0].op != "job":
            return None
        log.append(("timeout", s.args[0], env.killed if env else None))
        return vany(T("fallback", s.args[0]))
    it.func_override["any.execute"] = ex
    it.func_override["any.timeout"] = to


SCEN = {
    "quick result": dict(finish=0.2, exit=0.3),
    "immediate result": dict(finish=0.0, exit=0.0),
    "result larger than the pipe": dict(finish=0.2, exit="read"),
    "late result": dict(finish=2.7, exit=2.75),
    "result after the first look": dict(finish="read", exit=None),
    "large result late": dict(finish=2.6, exit="read"),
    "failed job": dict(finish=None, exit=0.4),
    "process killed at once": dict(finish=None, exit=0.0),
    "too long": dict(finish=None, exit=None),
    "much too long, ends later": dict(finish=60.0, exit=60.0),
    "start fails": dict(finish=None, exit=None, fails=True),
}


def unit_manager(prog, job):
    name, timeout = job
    obs = []
    it, st, fi, where = free_run(prog, "process_manager")
    sc = SCEN[name]
    env = Env(it, sc)
    log = []
    job_methods(it, env, log)
    start_lock = newobj(it, T("lock"), st, DUMMY)
    st.heap[start_lock.data[1]] = HExt("made", T("new", T("lock", "held"), "s"))
    a = jobobj(it, st, 1, log)
    results = it.mk_list([vany(T("other", 0)), NONE, vany(T("other", 2))], st, DUMMY, "results")
    key = f"{name}, timeout={timeout}"
    names = [x.arg for x in fi.node.args.args + fi.node.args.kwonlyargs]
    if not {"job", "idx", "results", "process_start_lock"} <= set(names):
        return [Ob(R_RES, key, UNK, where, "signature")], stats(it)
    raised = None
    try:
        alts = it.call_func(fi, [], {"job": a, "idx": vconst(1), "results": results,
                                     "process_start_lock": start_lock,
                                     "timeout": vconst(timeout)}, [], st, DUMMY)
        s = alts[0][0] if len(alts) == 1 else None
    except Hang as h:
        obs.append(Ob(R_HANG, key, BAD if not env.unknown else UNK, where, h.what))
        return obs, stats(it)
    except PyRaise as r:
        raised, s = r.exc, st
    if s is None or env.unknown:
        obs.append(Ob(R_HANG, key, UNK, where, f"not resolved: {env.unknown[:3]}"))
        return obs, stats(it)
    if raised is not None and not sc.get("fails"):
        obs.append(Ob(R_RES, key, BAD, where, f"{raised.__name__} escapes, the result is lost"))
        return obs, stats(it)
    free = not env.held(s, start_lock.data[1])
    twice = any(x[0] == "release-free" for x in env.trace)
    obs.append(Ob(R_REL, key, BAD if not free or twice else OK, where,
                  "the lock the pool waits for is not released" if not free else
                  "the lock the pool waits for is released twice" if twice else ""))
    if sc.get("fails"):
        return obs, stats(it)
    h = s.heap.get(results.data)
    items = h.items if isinstance(h, HList) else None
    got = it.strip(items[1]).term if items is not None and len(items) == 3 else None
    want = T("fallback", T("job", 1))
    limit = timeout if timeout and timeout > 0 else None
    sc = env.sc
    if sc["finish"] is not None and (limit is None or sc["finish"] < limit):
        want = T("value")
    # bounded time and the process is gone
    used = env.now - (env.started if env.started is not None else env.now)
    bound = limit if limit is not None else (sc["exit"] if isinstance(sc["exit"], float) else
                                             sc["finish"] or 0)
    slack = 2 * limit + 2.0 if limit is not None else bound + 6.0
    bad = ""
    if used > slack:
        bad = f"returns after {used:.1f} s with a time limit of {limit} s"
    elif env.alive() and sc["exit"] is None:
        bad = "the process is left running"
    obs.append(Ob(R_HANG, key, BAD if bad else OK, where, bad))
    bad = unk = ""
    if got is None:
        unk = "results not resolved"
    elif got is not want:
        bad = f"the result is {show(got)} instead of {show(want)}"
        if not (got.op in ("value", "fallback", "const", "other")):
            unk, bad = bad, ""
    elif it.strip(items[0]).term is not T("other", 0) or \
            it.strip(items[2]).term is not T("other", 2):
        bad = "the result of another job is overwritten"
    if not bad and want.op == "fallback" and limit is not None and env.killed is False and \
            sc["exit"] is None:
        bad = "a timed out process is not ended"
    if not bad and any(x[0] == "timeout" and x[2] is False for x in log) and \
            sc["exit"] is None:
        bad = "the fallback runs while the process is still running"
    if not bad and sum(x[0] == "timeout" for x in log) > 1:
        bad = "the fallback of the job is executed twice"
    obs.append(Ob(R_RES, key, BAD if bad else UNK if unk else OK, where, bad or unk))
    return obs, stats(it)


def unit_pool(prog, job):
    n_jobs, n, how = job
    obs = []
    it, st, ci, obj = start(prog, "ThreadTimeoutProcessPool")
    it.phase = "call"
    env = Env(it, dict(finish=0.1, exit=0.2))
    log = []
    job_methods(it, env, log)
    order, oob = [], []

    def manager(it, fi, args, kwargs, rest, st, node):
        names = [x.arg for x in fi.node.args.args + fi.node.args.kwonlyargs]
        b = dict(zip(names, args))
        b.update(kwargs)
        j, i = it.strip(b["job"]), it.strip(b["idx"])
        res = it.strip(b["results"])
        lk = it.strip(b["process_start_lock"])
        if env.kind(st, lk) == "lock":
            env.lock_op(it, lk, st, False)
        order.append((j.term, i.value if i.is_const else None,
                      it.strip(b["timeout"]).term if "timeout" in b else None))
        rl = it.list_h(res, st) if res.kind == "list" else None
        if i.is_const and isinstance(i.value, int) and rl is not None and \
                rl.items is not None and not -len(rl.items) <= i.value < len(rl.items):
            oob.append(i.value)
        elif i.is_const and isinstance(i.value, int):
            it.set_item(res, i, vany(T("value", j.term)), st, node)
        else:
            env.unknown.append("index")
        return NONE
    it.func_override["process_manager"] = manager
    acc = []

    def attr(it, b, a, st, writing, node):
        if a in ("idx",) and any(f.fi is not None and f.fi.name == "pooling_thread"
                                 for f, _ in it.stack):
            h = st.heap.get(b.data)
            locks = [x for x in h.attrs.values() if env.kind(st, it.strip(x)) == "lock"]
            if locks:
                acc.append((node, writing, any(env.held(st, it.strip(x).data[1])
                                               for x in locks)))
    it.on_obj_attr = attr
    where = f"{ci.module.path}:{ci.node.lineno} in {ci.name}.{how}"
    key = f"{n} jobs on {n_jobs} workers, {how}"
    construct(it, st, ci, obj, {"n_jobs": vconst(n_jobs), "timeout": vnum(T("arg", "timeout"))})
    it.phase = "call"
    try:
        if how == "execute":
            jobs = [jobobj(it, st, i, log) for i in range(n)]
            jl = it.mk_list(jobs, st, DUMMY, "jobs")
            alts = invoke(it, st, ci, obj, "execute", [jl])
        else:
            jl = it.mk_list([vany(T("task", i)) for i in range(n)], st, DUMMY, "tasks")
            alts = invoke(it, st, ci, obj, "apply", [vany(T("arg", "fun")), jl])
    except Hang as h:
        return [Ob(R_HANG, key, BAD if not env.unknown else UNK, where, h.what)], stats(it)
    except PyRaise as r:
        return [Ob(R_PLACE, key, UNK, where, f"{r.exc.__name__}")], stats(it)
    if len(alts) != 1 or env.unknown:
        return [Ob(R_PLACE, key, UNK, where, f"not resolved {env.unknown[:2]}")], stats(it)
    s, v = alts[0]
    v = it.strip(v)
    h = it.list_h(v, s) if v.kind == "list" else None
    items = h.items if h is not None else None
    bad = unk = ""
    if items is None:
        unk = "results not resolved"
    else:
        got = [it.strip(x).term for x in items]
        if oob:
            bad = f"result index {oob[0]} of {n} jobs"
        elif len(got) != n:
            bad = f"{len(got)} results of {n} jobs"
        for i, t in enumerate(got):
            if how == "execute":
                want = T("value", T("job", i))
                if t is not want and not bad:
                    bad = f"result {i} is {show(t)}"
                    if t.op not in ("value", "const"):
                        bad, unk = "", f"result {i} is {show(t)}"
            else:
                task = None
                for jt, idx, _ in order:
                    if t is T("value", jt):
                        task = jt
                if task is None and not bad:
                    bad = f"result {i} is {show(t)}" if t.op == "const" else ""
                    unk = "" if bad else f"result {i} is {show(t)}"
        if len(order) != n and not bad and not unk:
            bad = f"{len(order)} executions of {n} jobs"
        if [x[1] for x in order] != list(range(n)) and not bad and not unk and \
                sorted(str(x[1]) for x in order) != sorted(map(str, range(n))):
            bad = f"indices {[x[1] for x in order]}"
        tm = [x for x in order if x[2] is None or T("arg", "timeout") not in leaves(x[2])]
        if tm and not bad and not unk:
            bad = "the time limit of the pool is not handed over"
    obs.append(Ob(R_PLACE, key, BAD if bad else UNK if unk else OK, where, bad or unk))
    if how == "execute" and n:
        free = [x for x in acc if not x[2]]
        w = f"{ci.module.path}:{free[0][0].lineno} in pooling_thread" if free else where
        obs.append(Ob(R_LOCK, key, BAD if free else OK if acc else UNK, w,
                      "the index of the next job is used without holding the lock" if free
                      else f"{len(acc)} accesses"))
        hs = [x for x in s.heap[obj.data].attrs.values() if env.kind(s, it.strip(x)) == "lock"]
        held = [x for x in hs if env.held(s, it.strip(x).data[1])]
        obs.append(Ob(R_REL, key, BAD if held else OK if hs else UNK, where,
                      "the lock of the pool is kept at the end" if held else ""))
    return obs, stats(it)


def unit_wrapper(prog, job):
    """apply: the i-th job runs the function on the i-th task"""
    obs = []
    it, st, ci, obj = start(prog, "FunctionWrapperJob")
    construct(it, st, ci, obj, {"function": vany(T("arg", "fun")), "task": vany(T("arg", "tk"))})
    calls = []

    def ucall(it, fn, args, kwargs, rest, st, node):
        if fn.term is T("arg", "fun"):
            calls.append([it.strip(a).term for a in args])
            return [(st, vany(T("applied", *[it.strip(a).term for a in args])))]
        return None
    it.ucall_hook = ucall
    vals = [it.strip(v).term for s, v in invoke(it, st, ci, obj, "execute")]
    f = ci.find("execute")
    where = f"{f[1].module.path}:{f[1].node.lineno} in FunctionWrapperJob.execute"
    ok = vals == [T("applied", T("arg", "tk"))]
    bad = not ok and len(vals) == 1 and vals[0].op in ("applied", "const", "arg")
    obs.append(Ob(R_RES, "function applied to the task", OK if ok else BAD if bad else UNK,
                  where, "" if ok else f"returns {[show(v) for v in vals]}"))
    vals = [it.strip(v) for s, v in invoke(it, st, ci, obj, "timeout")]
    ok = len(vals) == 1 and vals[0].kind == "none"
    obs.append(Ob(R_RES, "timed out task gives None", OK if ok else
                  BAD if len(vals) == 1 and (vals[0].is_const or vals[0].term.op == "arg")
                  else UNK, where, ""))
    return obs, stats(it)


def unit_put(prog, fails):
    obs = []
    it, st, fi, where = free_run(prog, "execute_job_object")
    env = Env(it, dict(finish=0, exit=0))
    log, puts = [], []
    job_methods(it, env, log, fails)
    old = env.queue

    def queue(name, it, args, kwargs):
        if name in ("put", "put_nowait"):
            v = getarg(args, kwargs, 0, "obj", "item")
            puts.append(it.strip(v).term if v is not None else None)
            return NONE
        return old(name, it, args, kwargs)
    env.queue = queue
    a = jobobj(it, st, 1, log)
    q = newobj(it, T("queue"), st, DUMMY)
    st.heap[q.data[1]] = HExt("made", T("new", T("queue"), "q"))
    loc = ("new", "qlock")
    st.heap[loc] = HExt("made", T("new", T("lock", "free"), "l"))
    lk = AV("any", T("qlock"), frozenset([loc]), ("made", loc))
    key = "job fails" if fails else "job succeeds"
    s = st
    try:
        alts = it.call_func(fi, [a, q, lk], {}, [], st, DUMMY)
        s = alts[0][0]
    except Hang as h:
        return [Ob(R_PUT, key, BAD if not env.unknown else UNK, where, h.what)], stats(it)
    except PyRaise:
        pass
    if env.unknown:
        return [Ob(R_PUT, key, UNK, where, f"{env.unknown[:3]}")], stats(it)
    bad = ""
    if env.held(s, loc):
        bad = "the lock of the queue is kept"
    if not fails:
        if len(puts) != 1:
            bad = f"{len(puts)} results are sent"
        elif puts[0] is not T("value", T("job", 1)):
            bad = f"{show(puts[0])} is sent"
        elif sum(x[0] == "execute" for x in log) != 1:
            bad = "the job is executed more than once"
    obs.append(Ob(R_PUT, key, BAD if bad else OK, where, bad))
    return obs, stats(it)


def unit_default(prog, has):
    """queue_get_default: the item when there is one, the fallback of the job otherwise"""
    it, st, fi, where = free_run(prog, "queue_get_default")
    env = Env(it, dict(finish=0.0 if has else None, exit=0.0))
    env.started = env.now
    log = []
    job_methods(it, env, log)
    a = jobobj(it, st, 1, log)
    q = newobj(it, T("queue"), st, DUMMY)
    st.heap[q.data[1]] = HExt("made", T("new", T("queue"), "q"))
    key = "item available" if has else "no item"
    try:
        alts = it.call_func(fi, [q, a], {}, [], st, DUMMY)
    except Hang as h:
        return [Ob(R_HANG, f"queue_get_default, {key}", BAD, where, h.what)], stats(it)
    except PyRaise as r:
        return [Ob(R_RES, f"queue_get_default, {key}", BAD, where,
                   f"{r.exc.__name__} escapes")], stats(it)
    vals = [it.strip(v).term for s, v in alts]
    want = T("value") if has else T("fallback", T("job", 1))
    ok = vals == [want]
    return [Ob(R_RES, f"queue_get_default, {key}", OK if ok else UNK if env.unknown or
               len(vals) != 1 else BAD, where, f"returns {[show(v) for v in vals]}")], stats(it)


def unit(prog, job):
    kind, arg = job
    return {"manager": unit_manager, "pool": unit_pool, "wrapper": unit_wrapper,
            "put": unit_put, "default": unit_default}[kind](prog, arg)


def main(tier):
    c = Check("C21", tier)
    jobs = []
    for n in SCEN:
        for t in (5, -1, None):
            if SCEN[n]["finish"] is None and SCEN[n]["exit"] is None and not SCEN[n].get("fails") \
                    and t != 5:
                continue       # a job without end and without time limit
            jobs.append(("manager", (n, t)))
    for nj in (1, 2, 3):
        for n in (0, 1, 2, 5):
            for how in ("execute", "apply"):
                jobs.append(("pool", (nj, n, how)))
    if tier != "quick":
        jobs += [("pool", (nj, n, "execute")) for nj in (1, 4, 8) for n in (3, 7, 20)]
        jobs += [("manager", (n, t)) for n in SCEN for t in (1.5, 30, 4)
                 if SCEN[n]["finish"] == "read" or not (SCEN[n]["finish"] or 0) > t]
    jobs += [("wrapper", 0), ("put", False), ("put", True), ("default", True),
             ("default", False)]
    c.run_units(unit, jobs)
    c.explanation = (
        "The pool is abstractly executed with locks, threads, processes and queues replaced by "
        "typestate models with a simulated clock. For every scenario of a process (quick, late, "
        "larger than the pipe so that the process ends only after its result is read, failing, "
        "killed, endless, not startable) and every kind of time limit the manager must store "
        "the result or the fallback of its job at the index of the job, release the lock the "
        "pool waits for, not wait without bound and not leave the process running; the pool "
        "must hand every job with its index to exactly one manager and touch its shared index "
        "only under its lock.")
    c.assumptions = ["threads of the pool are interleaved only at lock operations (the accesses "
                     "to shared state are shown to be under the lock)",
                     "a process ends at the latest when its queue has been read"]
    return c.finish({R_PLACE: 8, R_LOCK: 4, R_REL: 8, R_RES: 8, R_HANG: 8, R_PUT: 2})
