"""writes DESIGN.md from tools/DESIGN.in.md, properties.jsonl, evidence/ and seeded/ (not run by any check)"""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(here, f)).read()
NOTES = {
    "P01": "Both gates are executed symbolically with arrays of any length, any integer domain labels and all five flags as free booleans; postconditions state the exact acceptance condition and that accepted data come back unchanged. Nothing bounded stands in.",
    "P02": "Postconditions over compaction functions (order-preserving positions of a mask): every part holds exactly its positions, in order; the loop over the domains present is a comprehension summary over `unique`. Several arrays at once up to four.",
    "P03": "Merge = scatter by the source mask; the postcondition is stated per output row. Mask filling by label type (integer, floating, NaN). Odd counts, sizes and missing sides must raise.",
    "P04": "The selector's `fit`, the masking and the removal of masked samples are verified against the recorded call of a stub estimator whose parameters (routing requests) vary over scenarios; the loop over estimator parameters is concrete. Pipelines as a whole are bounded.",
    "P05": "Routing functions with per-domain outputs as uninterpreted functions: postcondition `output[i] = f_domain(i)(x_i)`; number of domains symbolic for predict (loop invariant), listed for fit.",
    "P06": "`_wrap_with_selector(s)` and parameter access under contract on symbolic step lists of stated length (loops over steps unrolled: 1 to 3 steps, labelled in the scenario names); clone and make_da_pipeline bounded.",
    "P07": "`_iter_indices` of two splitters and leave-one-domain-out for all sizes and domain counts (generator loops with invariants on what is yielded). The stratified splitter is bounded (scikit-learn's own stratification is inside it).",
    "P08": "Drawn index sets are arbitrary distinct indices (assumed contract of `choice`/`resample`/`train_test_split`); alignment is then proved for all sizes. The shares per domain and stratum, where scikit-learn computes them, are bounded.",
    "P09": "pack/pack_lodo/select_domain with arrays of any length; the number of domains and roles is listed in the scenario (1 to 3), labels of any type. add/merge bookkeeping is bounded.",
    "P10": "`compute_weights` and `fit` of each adapter against its formula; density estimators, classifiers and kernels are arbitrary functions of the row (assumed contract: row-wise).",
    "P11": "qp_solve and the Frank-Wolfe loop (invariants: iterate in the polytope, value is the objective at the iterate), `_weights_optimization` of KMM, KLIEP and MMDTarS against their constraint sets. Optimality within tolerance is bounded.",
    "P12": "fit hands exactly the source samples, labels and target samples to the transport estimator; transform is proved per row for any mask. POT's transports are arbitrary functions of the row after fit; the MMD-LS fixed point is bounded.",
    "P13": "Matrices are opaque operators with the ring laws (dv MatPoly), so `(x - mu) C_s^-1/2 C_t^1/2` is an identity of operator words; covariance and mean of exactly the samples of the side. Numerical values of the roots are bounded.",
    "P14": "transform per row as a linear map of the row; TCA's fit poses the documented eigenproblem. The TJM and TSL optimisations are bounded (TJM's early stop is a known finding).",
    "P15": "Label propagation, JCPOT's target labelling and JDOT (cost matrices, alternation) against the recorded calls of POT's solvers; iterations by invariant. POT's plans are arbitrary couplings.",
    "P16": "One step of DASVM (candidate selection) for all samples and margins, the fit loop by invariant over index masks; known finding: at most one point per class and step.",
    "P17": "Cut-offs and the interpolation at step t for all sizes; the plan is arbitrary. The complete fit is bounded.",
    "P18": "Each `_score` against its formula with symbolic predictions; MixVal's and circular validation's nested fits are recorded stubs. Sorting-dependent parts and end-to-end values bounded.",
    "P19": "Generators with symbolic sizes; the random generator yields arbitrary arrays of the shape asked for, so the design (centres, labels, shifts) is what is proved; laws of the noise are bounded (statistical checks are left out, only exact relations are checked).",
    "P20": "DeepDADataset operations on symbolic arrays incl. dictionaries and merges; samplers' `__iter__` with loop invariants (all sizes, batch sizes and draws); data loaders' options by record.",
    "P21": "Criterion, module and net methods with symbolic batches (masks, weights, labels) and recorded calls; the factories hand every option on (token objects). Whole training runs are bounded.",
    "P23": "Constructors and factories run on opaque hyperparameters whose truth value raises; identity postconditions; two calls per factory for sharing; the fit/refit/copy/seed half is bounded.",
    "P22": "Losses as formulas over symbolic batches (sums are extensional uninterpreted functions, linear in the summand), modules and callbacks by record and per-entry postconditions.",
}
props = [json.loads(x) for x in rd("properties.jsonl").splitlines() if x.strip()]
out = []
for p in props:
    e = json.loads(rd(f"evidence/{p['id']}.json"))
    c = e["coverage"]
    fs = c.get("functions_under_contract") or []
    mods = {}
    for f in fs:
        a, b = f.split(":")
        mods.setdefault(a.replace("skada.", "", 1), []).append(b)
    scn = [s for s in c.get("scenarios", [])] if isinstance(c.get("scenarios"), list) else []
    out.append(f"### {p['id']} {p['title']}\n\n{NOTES[p['id']]}\n\n*Under contract* ({c['obligations']} obligations, {e['wall_s']} s): " + "; ".join(f"`{m}`: {', '.join(v)}" for m, v in sorted(mods.items())) + ".\n")
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
CAUGHT = json.loads(rd("tools/caught.json"))
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')[:160]} | {CAUGHT.get(i, 'own check, failing input replayed')} |")
t = rd("tools/DESIGN.in.md").replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(here, "DESIGN.md"), "w").write(t)
