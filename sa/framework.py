"""Check framework: obligations, verdicts, evidence, known findings."""
import json
import os
import sys
import time
import traceback
import multiprocessing

from .loader import Program

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PACKAGE = "smote_variants"
# development runs on scratch copies keep their evidence apart
OUTDIR = os.environ.get("VERIF_SCRATCH", VERIF)

OK, BAD, UNK = "ok", "bad", "unknown"


class Ob:
    """one obligation: a rule instantiated at one construct"""
    __slots__ = ("rule", "key", "verdict", "where", "msg")

    def __init__(self, rule, key, verdict, where="", msg=""):
        self.rule = rule
        self.key = key
        self.verdict = verdict
        self.where = where
        self.msg = msg

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


def load_program():
    return Program(REPO, PACKAGE)


_prog = None
_fn = None


def _work(item):
    try:
        obs, stats = _fn(_prog, item)
        return item, obs, stats, None
    except Exception:   # noqa: BLE001 - analysis failure of one unit
        return item, [], {}, traceback.format_exc()


def pmap(prog, fn, items, workers=8):
    """fn(prog, item) -> (obligations, stats) evaluated in forked workers"""
    global _prog, _fn
    _prog, _fn = prog, fn
    items = list(items)
    if len(items) <= 1:
        return [_work(i) for i in items]
    ctx = multiprocessing.get_context("fork")
    # one fresh process per unit: results do not depend on which units ran before
    with ctx.Pool(workers, maxtasksperchild=1) as pool:
        return pool.map(_work, items, chunksize=1)


class Check:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obs = []
        self.stats = {}
        self.errors = []
        self.assumptions = []
        self.explanation = ""
        self.prog = load_program()

    def add(self, rule, key, verdict, where="", msg=""):
        self.obs.append(Ob(rule, key, verdict, where, msg))

    def run_units(self, fn, items, workers=8):
        for item, obs, stats, err in pmap(self.prog, fn, items, workers):
            if err is not None:
                self.errors.append((str(item), err))
                self.add("analysis", f"unit {item}", UNK, "", err.strip().splitlines()[-1])
                continue
            for o in obs:
                self.obs.append(o)
            for k, v in stats.items():
                if isinstance(v, (int, float)):
                    self.stats[k] = self.stats.get(k, 0) + v
                elif isinstance(v, (set, list)):
                    self.stats.setdefault(k, set()).update(v)

    def finish(self, floors=None, seed=None):
        """floors: {rule: minimum number of instances}"""
        pid = self.pid
        kf = load_known(pid)
        merged = {}
        order = {OK: 0, UNK: 1, BAD: 2}
        for o in self.obs:
            k = (o.rule, o.key)
            if k not in merged or order[o.verdict] > order[merged[k].verdict]:
                merged[k] = o
        obs = list(merged.values())
        bad = [o for o in obs if o.verdict == BAD]
        known, viol = [], []
        for o in bad:
            hit = next((f for f in kf if f["rule"] == o.rule and f["key"] == o.key), None)
            (known if hit else viol).append((o, hit))
        counts = {}
        for o in obs:
            c = counts.setdefault(o.rule, {OK: 0, BAD: 0, UNK: 0})
            c[o.verdict] += 1
        broken = []
        for rule, n in (floors or {}).items():
            c = counts.get(rule, {OK: 0, BAD: 0, UNK: 0})
            tot = c[OK] + c[BAD] + c[UNK]
            if tot < n:
                broken.append(f"rule {rule}: {tot} instances found, at least {n} expected")
        for o, hit in known:
            print(f"KNOWN-FINDING: property={pid} {o.rule} {o.key}: {hit['what']}")
        rc = 0
        vdir = os.path.join(OUTDIR, "replay", pid)
        if os.path.isdir(vdir):
            for f in os.listdir(vdir):
                if f.endswith(".json"):
                    os.remove(os.path.join(vdir, f))
        if viol:
            os.makedirs(vdir, exist_ok=True)
        for i, (o, _) in enumerate(viol):
            path = os.path.join(vdir, f"{i:03d}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, **o.as_dict(),
                           "replay": f"python3 {VERIF}/run.py {pid}"}, f, indent=1)
            print(f"  {o.where}: [{o.rule}] {o.key}: {o.msg}")
            print(f"VIOLATION property={pid} replay={path}")
            rc = 1
        stats = {}
        for k, v in self.stats.items():
            stats[k] = len(v) if isinstance(v, (set, list)) else v
        n_ok = sum(c[OK] for c in counts.values())
        cov = {
            "explanation": self.explanation,
            "modules_parsed": len(self.prog.modules),
            "functions_in_repo": self.prog.n_functions,
            "obligations": len(obs),
            "discharged": n_ok,
            "undecided": sum(c[UNK] for c in counts.values()),
            "known_findings": len(known),
            "by_rule": counts,
            "analysed": stats,
            "undecided_list": [f"{o.rule} {o.key}: {o.msg}"[:200] for o in obs
                               if o.verdict == UNK][:60],
            "samples": [f"{o.rule} {o.key} -> {o.verdict} {o.where} {o.msg}"[:240]
                        for o in obs[:12]],
        }
        ev = {"property": pid, "tier": self.tier,
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(viol)}
        os.makedirs(os.path.join(OUTDIR, "evidence"), exist_ok=True)
        with open(os.path.join(OUTDIR, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=False)
        print(f"{pid}: {len(obs)} obligations, {n_ok} discharged, "
              f"{cov['undecided']} undecided, {len(known)} known, {len(viol)} violations, "
              f"{ev['wall_s']} s")
        if rc == 0 and broken:
            for b in broken:
                print(f"ANALYSIS-BROKEN property={pid} {b}")
            rc = 2
        return rc


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        d = json.load(f)
    return [f for f in d.get("findings", []) if f["property"] == pid]
