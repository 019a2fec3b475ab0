"""rewrites the "fixed" list of known_findings.json from the fix: commits of /repo"""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("Selected_SMOTE selects one", "C30"), ("SMMO takes", "C10"), ("V_SYNTH reads", "C26"), ("G_SMOTE takes a row", "C26"), ("NEATER labels", "C10"),
       ("SSO fits its", "C10"), ("SYMPROD takes", "C26"), ("SDSMOTE counts", "C26"), ("the clones of the neurons", "C28"),
       ("MI_weighted and ITML_mi learn", "C31"), ("the ITML_mi metric", "C31"), ("the gmean metric", "C31"),
       ("GASMOTE's crossover", "C28"), ("CE_SMOTE matches only", "C29"), ("CCR takes the distance", "C29"),
       ("TRIM_SMOTE never counts", "C29"), ("TRIM_SMOTE looks for", "C29"), ("SOI_CJ writes the merged", "C29"),
       ("IPADE_ID drops the extended", "C27"), ("SMOTE_PSOBAT forgets the local", "C27"),
       ("LSML", "C03"), ("PCA with the randomized", "C03"), ("E_SMOTE draws", "C03"),
       ("SMOTEWB falls back", "C03"), ("SMOTE_AMSR returns the caller", "C02"),
       ("importing the datasets", "C04"), ("cached evaluation leaves the logger", "C04"),
       ("get_params of six", "C05"), ("MLPClassifierWrapper", "C05"), ("SamplingJob.get_params", "C05"),
       ("ADASYN ignores", "C05"), ("SMOTE_AMSR.get_params", "C05"),
       ("OversamplingDrivenUndersampling.get_params", "C05"), ("MOT2LD", "C06"), ("SOI_CJ.sample", "C06"),
       ("SMOTE_PSOBAT never updates", "C27"), ("SN_SMOTE ", "C27"), ("NRAS uses the samples identified", "C27"), ("never uses the nearest neighbour", "C26"), ("SMOTE_PSOBAT keeps", "C07"), ("test part of a sampled fold", "C19"), ("mutable descriptor", "C19"),
       ("Folding uses class labels", "C19"), ("truncated pickle", "C20"), ("dump_dict replaces", "C01"),
       ("after the scaler changed", "C20"), ("pool deadlocks", "C21"), ("multiclass oversampling overshoots", "C16"),
       ("predicts on untransformed", "C23"), ("p_top20", "C22"), ("mcc overflows", "C22"), ("scores to the dict of the caller", "C01"), ("folds of an earlier folding", "C20"), ("of other folds are reused", "C20"), ("timed out oversampling are reported", "C19"),
       ("pool loses", "C21"), ("cannot predict with a multiclass", "C23"), ("dummy classifier predicts", "C23"), ("model selection picks", "C24"), ("undersampling requires", "C17"), ("CNNTomekLinks and OneSidedSelection", "C17"),
       ("KernelADASYN returns distorted", "C08"),
       ("cov_min metric", "C10"), ("ClosestNeighborsInClasses needs", "C10"), ("DSRBF trains", "C10"),
       ("ISOMAP_Hybrid counts", "C10"), ("SL_graph_SMOTE sums", "C10"), ("ADG works only", "C10"),
       ("SMOTE_IPF votes", "C10"), ("NDO_sampling may", "C15"),
       ("accept negative proportions", "C11"), ("missing from the metric learning", "C13"),
       ("multiclass oversampling loses", "C16"), ("IPADE_ID returns the scaled", "C18"),
       ("E_SMOTE transforms new data", "C18"), ("ISOMAP_Hybrid transforms new", "C18"),
       ("learns the metric of scaled", "C18"), ("SUNDO compares normalized", "C18"),
       ("radius_neighbors ignores", "C14"), ("SUNDO removes both", "C26")]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for l in reversed(log.splitlines()):
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        pid = [p for k, p in MAP if k in s]
        assert len(pid) == 1, (s, pid)
        out.append(f"fixed: property={pid[0]} {h} {s[4:].strip()}")
p = os.path.join(V, "known_findings.json")
d = json.load(open(p))
d["fixed"] = out
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
