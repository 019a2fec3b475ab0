"""C04: no entry point changes process-wide state."""
import ast
from sa.framework import Check, Ob, OK, BAD, UNK
from sa.interp import Interp, Frame
from sa.loader import FuncInfo
from sa.values import State
from sa.drive import DUMMY
from sa.units import all_units, run_unit, unit_stats, Unit

R_RNG = "no-global-reseed"
R_DRAW = "global-rng-not-advanced"
R_ENV = "no-environment-change"
R_WARN = "warning-filters-restored"
R_LOG = "logger-untouched"
R_GLOB = "no-module-or-class-variable-write"
R_IMP = "import-has-no-side-effect"

GLOBAL_SET = {
    "numpy.random.seed": R_RNG, "numpy.random.set_state": R_RNG, "random.seed": R_RNG,
    "random.setstate": R_RNG, "tensorflow.random.set_seed": R_RNG,
    "numpy.seterr": R_ENV, "numpy.seterrcall": R_ENV, "numpy.set_printoptions": R_ENV,
    "numpy.setbufsize": R_ENV, "os.putenv": R_ENV, "os.unsetenv": R_ENV, "os.chdir": R_ENV,
    "os.environ.update": R_ENV, "os.environ.setdefault": R_ENV, "os.environ.pop": R_ENV,
    "os.environ.clear": R_ENV, "os.umask": R_ENV, "os.nice": R_ENV, "locale.setlocale": R_ENV,
    "sys.setrecursionlimit": R_ENV, "sys.settrace": R_ENV, "gc.disable": R_ENV,
    "gc.enable": R_ENV, "gc.set_threshold": R_ENV, "signal.signal": R_ENV,
    "pandas.set_option": R_ENV, "sklearn.set_config": R_ENV, "socket.setdefaulttimeout": R_ENV,
    "multiprocessing.set_start_method": R_ENV,
    "tensorflow.config.threading.set_inter_op_parallelism_threads": R_ENV,
    "tensorflow.config.threading.set_intra_op_parallelism_threads": R_ENV,
    "tensorflow.config.set_soft_device_placement": R_ENV,
    "logging.disable": R_LOG, "logging.basicConfig": R_LOG,
    "logging.setLoggerClass": R_LOG, "logging.captureWarnings": R_LOG,
}
LOG_METHODS = {"setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter"}
WARN = {"warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings"}
NP_DET = {"RandomState", "default_rng", "Generator", "SeedSequence", "PCG64", "MT19937",
          "get_state", "seed", "set_state"}


def effects(events, seeded):
    """(rule, what, event, message) for every process-wide effect"""
    for e in events:
        if e.kind == "extcall":
            name, obj, args, kwargs, rest = e.data
            last = name.rsplit(".", 1)[-1]
            r = GLOBAL_SET.get(name)
            if r:
                yield r, name, e, f"{name} changes process-wide state"
            elif name in WARN:
                yield "warn", name, e, ""
            elif name.startswith("logging.") and last in LOG_METHODS:
                yield R_LOG, last, e, f"logger.{last} changes the shared logger"
            elif seeded and name.startswith("numpy.random."):
                fn = name[len("numpy.random."):]
                if "." not in fn and fn not in NP_DET:
                    yield R_DRAW, name, e, f"{name} advances the process-wide generator"
            elif seeded and name.startswith("random.") and last not in ("Random", "SystemRandom",
                                                                       "getstate"):
                yield R_DRAW, name, e, f"{name} advances the process-wide generator"
        elif e.kind == "modwrite":
            m, attr = e.data
            yield R_ENV, f"{m}.{attr}", e, f"assigns attribute {attr} of module {m}"
        elif e.kind == "gwrite":
            yield R_GLOB, f"global {e.data}", e, f"writes module variable {e.data}"
        elif e.kind == "clswrite":
            yield R_GLOB, f"class attribute {e.data}", e, f"writes class attribute {e.data}"
        elif e.kind == "write":
            locs, how = e.data
            for l in sorted(locs, key=str):
                if l[0] in ("modglobal", "clsattr"):
                    yield R_GLOB, f"{l}", e, f"{how} on shared {l}"
                if l[0] == "extmod":
                    yield R_ENV, f"{l[1]}", e, f"{how} on {l[1]}"
        elif e.kind == "anycall":
            pass


def unit(prog, un):
    u = run_unit(prog, un)
    obs, st = [], unit_stats(u)
    n = 0
    hit = set()
    for rule, what, e, msg in effects(u.it.events, True):
        n += 1
        if rule == "warn":
            if not in_catch(prog, e):
                obs.append(Ob(R_WARN, f"{un.name} {what}", BAD, e.where(),
                              f"{what} outside warnings.catch_warnings() (reached from {un})"))
            continue
        obs.append(Ob(rule, f"{un.name} {what}", BAD, e.where(), msg + f" (reached from {un})"))
    if not obs:
        obs.append(Ob(R_GLOB, str(un), UNK if u.it.budget_hit else OK, "",
                      f"{st['effects_logged']} effects, none process-wide"))
    return obs, st


_catch = {}


def in_catch(prog, e):
    """the call (or a call on the chain leading to it) lies inside
    `with warnings.catch_warnings()`"""
    frames = list(e.chain)
    # positions: (path, func, line-of-call-in-caller); the innermost call line is e.line
    pts = [(e.file, e.line)]
    for i in range(len(frames) - 1, 0, -1):
        pts.append((frames[i - 1][0], frames[i][2]))
    for path, line in pts:
        for a, b in catch_ranges(prog, path):
            if a <= line <= b:
                return True
    return False


def catch_ranges(prog, path):
    if path in _catch:
        return _catch[path]
    r = []
    for m in prog.modules.values():
        if m.path == path:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.With):
                    for i in n.items:
                        if "catch_warnings" in ast.unparse(i.context_expr):
                            r.append((n.body[0].lineno, n.end_lineno))
    _catch[path] = r
    return r


def import_unit(prog, modname):
    """abstractly execute the module body (what happens on import)"""
    m = prog.modules[modname]
    it = Interp(prog, budget_s=60)
    st = State()
    body = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef,
                                                         ast.Import, ast.ImportFrom))]
    fn = ast.parse("def __module__(): pass").body[0]
    fn.body = body or [ast.Pass()]
    fi = FuncInfo(fn, m, None)
    it.phase = "import"
    it.call_func(fi, [], {}, [], st, DUMMY)
    obs = []
    for rule, what, e, msg in effects(it.events, True):
        if rule in (R_GLOB,):
            continue
        if what.startswith("logging") or rule == R_LOG:
            continue      # configuring the library's own logger at import
        obs.append(Ob(R_IMP, f"{modname} {what}", BAD, e.where(), msg + " at import time"))
    if not obs:
        obs.append(Ob(R_IMP, modname, OK, m.path, f"{len(body)} top-level statements"))
    return obs, {"modules_imported": 1}


def dispatch(prog, x):
    return import_unit(prog, x) if isinstance(x, str) else unit(prog, x)


def main(tier):
    c = Check("C04", tier)
    c.run_units(dispatch, all_units(c.prog) + sorted(c.prog.modules))
    c.explanation = (
        "Effect analysis: every public entry point (callees inlined) and every module body is "
        "abstractly executed; calls and stores that change the interpreter's process-wide state "
        "(global generators, environment, warning filters outside catch_warnings, loggers, "
        "module/class variables) are violations.")
    return c.finish({R_IMP: 100, R_GLOB: 80})
