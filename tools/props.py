"""The properties, in one place: writes properties.jsonl and MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, state=state))


prop("C01", "Sampling never modifies the data the caller passes in",
     "Whatever the sampler, filter, wrapper or metric function and however it is configured, the "
     "feature matrix and the label vector the caller hands over have the same contents after the "
     "call as before it, on every path including early exits.",
     ["inputs", "configurations"],
     "every dataset, every public entry point that takes data, every parameter setting",
     "tests compare outputs; none compares the inputs before and after, and an in-place write that "
     "only happens on a rare branch or for one parameter value is never sampled",
     ["smote_variants/oversampling", "smote_variants/base", "smote_variants/noise_removal",
      "smote_variants/undersampling", "smote_variants/multiclassoversampling",
      "smote_variants/classifiers"],
     ["sample", "sampling_algorithm", "remove_noise", "fit", "predict", "calculate_all_scores"],
     "interprocedural alias and effect analysis (abstract interpretation)",
     "Every public data-taking entry point is abstractly executed with callees inlined; no write may "
     "reach memory aliased with an input array. Undecided writes (unknown aliasing) stay quiet.")

prop("C02", "Results never share memory with the caller's arrays",
     "The feature matrix and label vector a sampler or noise filter returns are freshly allocated on "
     "every path: writing to them later cannot change the arrays the caller passed in, and vice "
     "versa.",
     ["inputs", "configurations", "histories"],
     "every dataset and parameter setting, including the paths on which no sample is generated",
     "tests look at values, not at buffer identity, and the early-return paths return equal values "
     "either way",
     ["smote_variants/oversampling", "smote_variants/base/_oversampling.py",
      "smote_variants/noise_removal", "smote_variants/undersampling"],
     ["sample", "return_copies", "remove_noise"],
     "interprocedural may-alias analysis of returned values",
     "The abstract result of each entry point is inspected for may-alias with the inputs on every "
     "return path.")

prop("C03", "An integer seed makes sampling reproducible",
     "When a sampler, filter or wrapper is constructed with an integer random state, everything random "
     "in its run is derived from that integer: two fresh objects with the same parameters and seed "
     "applied to the same data return identical results, regardless of what was run before and of the "
     "state of any process-wide generator.",
     ["inputs", "configurations", "histories"],
     "every dataset, parameter setting and preceding history of the process",
     "the reproducibility tests run one small dataset with default parameters: an unseeded draw on "
     "another branch, in a metric-learning option or in a fallback path is never reached",
     ["smote_variants/oversampling", "smote_variants/base", "smote_variants/noise_removal",
      "smote_variants/classifiers"],
     ["set_random_state", "random_state", "SMOTE(...)", "KMeans", "PCA", "MetricTensor"],
     "taint analysis of randomness sources",
     "Every random draw, stochastic estimator construction, clock/hash/id read reachable from a seeded "
     "object must take its generator or seed from the configured one.")

prop("C04", "Sampling leaves no trace in the process's global state",
     "Importing the package and calling any of its samplers, filters, wrappers, metrics or evaluation "
     "functions does not change process-wide state the caller can observe: global random generators are "
     "not reseeded, environment variables, warning filters, logger levels and numpy/pandas settings are "
     "as they were, and no module-level or class-level variable of the package changes.",
     ["inputs", "configurations", "histories"],
     "every entry point, dataset and parameter setting",
     "no test inspects global state, and the effect shows only in unrelated code that runs later",
     ["smote_variants"],
     ["np.random.seed", "warnings.simplefilter", "os.environ", "logger.setLevel", "global"],
     "interprocedural effect analysis",
     "All effects reachable from each entry point and each module body are collected; any write to "
     "process-wide state is reported.")

prop("C05", "Reported parameters rebuild an equal object",
     "For every configurable class, the dictionary of parameters it reports contains every constructor "
     "parameter with exactly the value the user gave (or the documented default that replaces a missing "
     "value), so that constructing a new object from the reported dictionary gives an identically "
     "configured object. Samplers also report their own class name.",
     ["inputs", "configurations"],
     "every class and every admissible parameter value",
     "tests only check that the dictionary is non-empty or round-trip the default parameters, for which "
     "an omitted parameter is invisible",
     ["smote_variants/oversampling", "smote_variants/base", "smote_variants/noise_removal",
      "smote_variants/classifiers", "smote_variants/evaluation", "smote_variants/undersampling"],
     ["get_params", "__init__"],
     "value-numbering dataflow through constructor and get_params",
     "With every constructor argument symbolic, each reported value must be the argument's own value "
     "number.")

NA = []


def na(pid, reason):
    NA.append((pid, reason))


def write():
    from tools import props_more
    props_more.add(prop, na)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"],
                 "mechanism": [{"name": m, "where": p["files"][0]} if isinstance(m, str)
                               else {"name": m[0], "where": m[1]} for m in p["mech"]]}
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []
    nas = dict(NA)
    for p in P:
        if p["pid"] in nas:
            continue
        checks.append({"property": p["pid"],
                       "quick_cmd": f"python3 run.py {p['pid']}",
                       "thorough_cmd": f"python3 run.py {p['pid']} --tier thorough",
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa checks run.py",
         "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in NA]}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    import sys
    sys.path.insert(0, VERIF)
    from tools import props as me
    me.write()
