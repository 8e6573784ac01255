#!/usr/bin/env python3
"""Writes ../MANIFEST.json from ../properties.jsonl and the table of claimed checks."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = "Held on the executions the run produced (counts in the evidence file); trusts the monitor's own oracle and the Rust toolchain. "
T = {  # property -> (technique, level_note)
 "P01": ("runtime monitoring: offline comparison of loaded samples with generated files", NOTE + "Oracle: the generated table; every access path compared cell by cell."),
 "P02": ("runtime monitoring: offline comparison of loaded samples with generated files", NOTE + "Oracle: the generated entries."),
 "P03": ("runtime monitoring: reference-model monitor over random samples and weightings", NOTE + "Oracle: direct evaluation of the definition, dense and sparse."),
 "P04": ("runtime monitoring: conservation / exactly-once checker over tagged rows", NOTE + "Every row of every part carries a unique id and is matched with its original."),
 "P05": ("runtime monitoring: assertions on every weighting at the booster/learner boundary", NOTE + "Spy learner records each call; adversarial, random and real learners."),
 "P06": ("runtime monitoring: online trace-specification checker (reweighting law) over recorded rounds", NOTE + "Next weights recomputed from the observed ones."),
 "P07": ("runtime monitoring: online trace-specification checker (reweighting law) over recorded rounds", NOTE + "Next weights recomputed from the observed ones."),
 "P08": ("runtime monitoring: online trace-specification checker over recorded rounds", NOTE + "The coefficients are inferred from the trace and the returned vote."),
 "P09": ("runtime monitoring: online trace-specification checker over recorded rounds", NOTE + "Raw weights recomputed from the margins; final margins checked."),
 "P10": ("runtime monitoring: assertions on every weighting at the booster/learner boundary", NOTE + "Solver accuracy 1e-6 is allowed."),
 "P11": ("runtime monitoring: final vote judged against a certified optimum over the learner's pool", NOTE + "Reference LP re-evaluated exactly, so a certified lower bound on the optimum."),
 "P12": ("runtime monitoring: final vote judged against a certified optimum over the learner's pool", NOTE + "Reference LP re-evaluated exactly, so a certified lower bound on the optimum."),
 "P27": ("runtime monitoring: every weighting compared with an independently computed entropic optimum", NOTE + "References are exactly feasible; closed form for C-ERLPBoost and MLPBoost, exponential-cone solution otherwise; slack 2e-3 (ERLPBoost), 1e-2 (SoftBoost, TotalBoost)."),
 "P13": ("runtime monitoring: reference-model monitor over recorded rounds", NOTE + "Coefficients are inferred from the predictions shown to the learner; the best reachable loss is computed exactly."),
 "P15": ("runtime monitoring: node-by-node judge of the trees produced, against all bin-boundary splits", NOTE + "Trees are read through their serialised form; score slack 1e-9."),
 "P16": ("runtime monitoring: node-by-node judge of the trees produced, against all bin-boundary splits", NOTE + "Trees are read through their serialised form; score slack 1e-9 relative."),
 "P17": ("runtime monitoring: reference-model monitor over training and far-away rows", NOTE + "Reference in log domain; ties within 1e-6 may go either way."),
 "P18": ("runtime monitoring: training steps compared with numerical gradients; recorded training schedules replayed; poisoned zero-weight examples", NOTE + "Reference network written independently; needs cfg(vp_hooks) to set parameters and make one step."),
 "P14": ("runtime monitoring: reference-model monitor over recorded rounds", NOTE + "The separated pairs are recomputed from the recorded hypotheses."),
 "P24": ("runtime monitoring: offline checker over recorded runs and returned votes", NOTE + "Vote, confidence and prediction checked against the recorded hypotheses."),
 "P19": ("runtime monitoring: reference-model monitor of the learner's family; round counter over LPBoost runs", NOTE + "The family is enumerated from the documentation; tolerance at least 3e-4 * 2n in the stalling runs."),
 "P20": ("runtime monitoring: reference-model monitor over votes, members and reloaded models", NOTE + "Votes recombined from their members; stored models compared prediction by prediction."),
 "P21": ("runtime monitoring: offline checker over log files, against a recorded unlogged run; injected delays", NOTE + "Naps are injected into the learner, and the clock the code reads is moved on by seconds to weeks, to make the time column and the time limit observable."),
 "P22": ("runtime monitoring: reference-model monitor over random votes", NOTE + "Definitions evaluated directly."),
 "P23": ("runtime monitoring: traces of repeated runs compared bit by bit, and across worker thread counts", NOTE + "Answers are replayed across thread counts; ties decided by rounding are kept out."),
 "P26": ("runtime monitoring: fault injection of invalid labels and parameters; refusal observed at the booster/learner boundary", NOTE + "Refused means a panic or error before the learner is first asked; boundary values to the last bit."),
 "P28": ("runtime monitoring: drawings read back by an independent DOT parser and compared with the tree; injected write failures", NOTE + "Trees are read through their serialised form; numbers compared within the two drawn decimals."),
 "P29": ("runtime monitoring: model-based monitor over random sequences of edits", NOTE + "Oracle: a plain table edited alongside; every access path compared after every step."),
 "P30": ("runtime monitoring: descriptions compared with the parameters set and the rounds observed", NOTE + "Setters are called in random order, some repeatedly; bounds recomputed from the documentation."),
 "P31": ("runtime monitoring: online trace-specification checker (step law) over the combination observed after every round", NOTE + "Steps are recomputed from the observed combinations; a line search is judged by the slope of the smoothed objective around the point it chose (1e-6)."),
 "P32": ("runtime monitoring: online checker of certificates over the trace of rounds (weighting, edge, combination), against a reference LP", NOTE + "The reference solver brackets every optimum (duality gap <= 1e-6, else inconclusive); gaps within 1e-6 (SoftBoost, TotalBoost 1e-5) of the limit may go either way; runs are watched for 45 rounds."),
 "P25": ("sanitizers: ThreadSanitizer and AddressSanitizer (instrumented std) over the workloads of every property and over concurrent use of shared samples and learners", NOTE + "A deliberate race and a deliberate use after free must be reported first; reports inside the work-stealing deque are suppressed."),
}
if os.path.exists(os.path.join(root, "tools", "manifest_extra.json")):
    T.update({k: (v[0], NOTE + v[1]) for k, v in json.load(open(os.path.join(root, "tools", "manifest_extra.json"))).items()})
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                           evidence_file=f"evidence/{i}.json", technique=T[i][0], level="exploration", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check yet: under construction.")))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("hook:")]
m = dict(version=1, setup_cmd="./check.sh setup",
         hooks=dict(guard="cfg(vp_hooks)", enable='RUSTC_WRAPPER=tools/rustc-wrap.sh adds --cfg vp_hooks (set by check.sh)', source_commits=hooks),
         checks=checks, not_applicable=na,
         notes="See DESIGN.md. All checks build the library from /repo's working tree and run the monitors in harness/.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
