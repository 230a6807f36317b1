"""Cases per property: `harness params` with the bounds they stand for."""
ASSUMPTIONS = [
    "LLVM IR of the release profile (opt-level 1, debug assertions and overflow checks on) as produced by rustc stable, executed by the engine in /verif/engine; memory never runs out; for P01, P02, P04, P09, P11, P13, P14 and P24 a part of the cases is decided again on the IR without debug assertions and overflow checks, which is what ships",
    "NaN payload bits are not distinguished; the random seeds of std hash maps are fixed; single thread",
    "exp/ln/expm1/ln1p/tanh/pow in libm follow their mathematical contract (monotone, stated ranges) where they meet symbolic values, and are computed where values are concrete",
]
CHECKS = {}
def check(pid, quick, thorough, bounds, outside="", **kw):
    CHECKS[pid] = dict(quick=quick, thorough=thorough, bounds=bounds, outside=outside, **kw)
def also(pid, quick, thorough, bounds):
    c = CHECKS[pid]
    c["quick"], c["thorough"], c["bounds"] = c["quick"] + quick, c["thorough"] + thorough, c["bounds"] + "; " + bounds
def lines(pid, tier):
    """thorough runs the quick cases too"""
    c = CHECKS[pid]
    ls = list(c["quick"])
    if tier == "thorough": ls += [l for l in c["thorough"] if l not in ls]
    out = []
    for i, l in enumerate(ls):
        w = l.split()
        if len(w) == 1: w.append("-")
        out.append(" ".join([f"{pid}.{i:03d}"] + w))
    return out

# every n-th quick case of these properties is decided again on the IR without debug assertions and overflow checks
SHIP = {"P01": 2, "P02": 6, "P04": 1, "P09": 3, "P11": 4, "P13": 3, "P14": 8, "P24": 2}
def ship_lines(pid, tier):
    n = SHIP.get(pid)
    if not n: return []
    return [l.replace(f"{pid}.", f"{pid}.s", 1) for l in lines(pid, "quick")[::n]]

def restored(stacks, ops):
    return [f"restored {s},{o},{r},{1 if o == 0 else 0}" for s in stacks for o in ops for r in (0, 1)]
check("P01",
    restored(range(14), (0, 1, 2)) + ["append_remove 0,4,2", "append_remove 1,4,2", "append_remove 1,3,3 conc=20000"],
    ["append_remove 0,4,3 conc=20000", "append_remove 1,4,3 conc=20000"],
    "14 stacks (all nine reductions, nested up to five deep) x {predict, learn, predict_then_learn} x {new, recycled} objects; three namespaces each absent, empty, one or two features; shared features absent, empty, partly filled, filled; two actions; values in [-8,8] (predict) or fixed (learn, label symbolic in [-100,100]); container append/remove: up to three namespaces, two features each, any 32-bit index and finite value",
    "more than three namespaces or two features per namespace, more than two actions; stacks not in the table")

def inter(whichs, shapes, sizes, bits, modes):
    return [f"interactions {w},{s},{a},{b},{c},{bt},{m}" for w in whichs for s in shapes for (a, b, c) in sizes for bt in bits for m in modes]
check("P12",
    inter((0, 1, 2), range(10), ((2, 2, 1), (1, 3, 2), (3, 1, 9)), (5,), (0, 1)) + inter((0, 2), (3, 8, 9), ((2, 2, 1), (0, 2, 1), (9, 2, 2)), (18, 28), (0, 1)) + ["visit_agree 2,2", "visit_agree 0,2"],
    inter((0, 1, 2), range(10), ((3, 3, 2), (2, 3, 3), (9, 3, 2), (0, 2, 2)), (5, 24), (0, 1)) + ["visit_agree 3,2", "visit_agree 3,3"],
    "ten interaction shapes (none, a*b, a*a, three pairs, a*b*c, a*b*b, a*a*b, a*a*a, mixed) over three namespaces of up to 3 features each (or missing), each with every 32-bit index below 2^bits and with every finite value, bits in {5,18,28}, constant feature on and off, for prediction, state reads and updates",
    "more than 3 features per namespace; 29 or more bits")
ALL = range(14)
def learned(fmt, stacks, wilds_full, wilds_pred, steps, wilds_step, tiny, huge):
    m = fmt + 1
    return ([f"reload {s},{steps},0,{fmt}" for s in stacks] + [f"reload_learned {s},{fmt},{r},{k}" for s in (0, 1, 2, 4, 5, 7, 8, 9) for r in range(5) for k in (0, 1)] + [f"reload_any {s},{fmt},{w},0" for s in stacks for w in wilds_full] +
            [f"reload_any {s},{fmt},{w},1" for s in stacks for w in wilds_pred] + [f"step_any {s},{m},0,{w},1" for s in stacks for w in tiny] + [f"step_any {s},{m},1,{w},2" for s in stacks for w in huge] + [f"step_any {s},{m},{k},{w}" for s in stacks for k in (0, 1) for w in wilds_step])
_b = "tables of up to 70000 features, several submodels and states, with two weights at any of up to ten places holding any non-zero finite floats; models with 2^10 and 2^14 (thorough: 2^16) features; 14 stacks; (a) every history of {0} learned examples (three examples each, concrete labels and weights) followed by saving, loading, predicting four examples, learning two more, saving again; (b) an arbitrary learned state: every stored float in [0.25,4] (label range [-4,0] to [0,4]) and one of them any finite float at a time, saved and loaded, exported states and predictions compared; (c) one learned example from scratch with every label of one of five ranges ([1e-12,1e-8] to [1e4,1e12], both signs), saved, loaded, compared; (d) one further learning step with any label in [1,3] from a state with any one stored float in [0.25,4], [1e-30,1e-7] or [1e5,1e20]"
_big = "conc=20000 paths=20000"
for pid, f in (("P02", 0), ("P03", 1)):
    big = [f"table_roundtrip {x},{f} {_big}" for x in ("300,1,6", "70000,1,1", "5,3,3", "16384,1,6", "1000,2,6")] + [f"reload_big {f},{x} {_big}" for x in ("14,0", "14,2", "10,0")]
    more = [f"table_roundtrip {x},{f} {_big}" for x in ("65536,1,6", "5000,4,4", "16385,2,6")] + [f"reload_big {f},{x} {_big}" for x in ("16,0", "16,2", "12,1")]
    check(pid, learned(f, ALL, (0, 3, 7, 8, 13, 20, 27), (5, 11, 17), 2, (2, 9), (6, 7, 9, 10), (7,)) + big, learned(f, ALL, range(45), range(4, 30), 3, range(45), range(30), range(30)) + more, _b.format("2 (thorough: 3)"), "symbolic steps with numBits above 5; non-finite weights; models with more than about ten non-zero features")
check("P04", [f"twin_ops {s},2,0" for s in ALL] + [f"step_any {s},0,{k},{w}" for s in ALL for k in (0, 1) for w in (0, 2, 5, 9, 12)],
    [f"twin_ops {s},3,0" for s in ALL] + [f"step_any {s},0,{k},{w}" for s in ALL for k in (0, 1) for w in range(45)],
    "14 stacks; every sequence of 2 (thorough: 3) operations from {predict twice, learn, predict_then_learn} on two examples each, against a twin that only learns, then four predictions, two more learned examples and four predictions; one step from an arbitrary state (any one stored float in [0.25,4], label in [1,3]) compared with predict followed by learn; exported state compared before and after predict", "longer sequences; values outside the ranges")
check("P05", [f"greedy {n},{e},{r}" for n in (1, 2, 3) for e in (0, 5, 30, 100, 1000) for r in (3,)] + ["greedy 4,1000,3", "greedy 5,30,3", "greedy 2,1000,4", "greedy 3,20,4"],
    ["greedy 5,1000,3 secs=300", "greedy 6,20,3 secs=300"],
    "1..5 actions (thorough: 6) whose predicted costs are any floats in [-1e30,1e30] (with exact zeros up to 3 actions); epsilon any float in [0,1] (1..4 actions) or {0,0.05,0.3,1}", "more than 6 actions; NaN or infinite costs")
check("P06", [f"softmax {c} fms=150 secs=60" for c in ("1,100,20,2,0", "1,100,0,3,0", "2,100,0,0,0", "2,100,0,1,0", "2,100,0,2,0", "2,300,0,2,0", "2,0,0,3,0", "3,0,0,3,0", "3,0,30,3,0", "3,100,0,0,0", "3,100,0,1,0", "3,100,0,2,0", "3,50,0,2,0", "4,100,0,1,8", "2,100,0,4,0", "2,100,20,4,0", "2,100,20,0,0", "2,100,20,2,0", "2,300,100,2,0", "3,50,50,0,5")],
    [f"softmax {c} fms=300 secs=250" for c in ("4,100,0,2,0", "4,50,0,0,1", "2,100,20,1,0", "2,50,5,2,0", "2,100,60,2,0", "3,100,20,2,3", "3,100,20,0,6", "5,100,0,2,24")],
    "1..4 actions; predicted costs any floats in [1,11], [-11,-1] or [-10,10] (with more than two unknown costs without exact zeros) (in [-1e30,1e30] with lambda 0), some cases with one or two of the costs fixed; lambda in {0,0.5,1,3}; uniform epsilon in {0,0.2,0.3,0.5,1} (with more than two unknown costs only 0)", "other lambdas; costs far enough apart that exp underflows; more than 4 actions")
check("P07", [f"squarecb {c} fms=150 secs=60" for c in ("1,3,1000,50,20,2,0", "2,0,1000,50,20,2,0", "2,3,1000,50,20,2,0", "2,3,1000,50,20,0,0", "2,3,1000,50,0,1,0", "2,3,1000,50,100,1,0", "2,1,500,50,90,2,0", "3,3,1000,50,0,2,0", "3,1,1000,50,0,0,0", "3,2,400,25,0,1,0", "4,2,400,25,0,1,8", "5,2,400,25,30,1,15", "3,2,400,25,30,1,5", "3,0,1000,50,0,2,0", "3,0,1000,50,30,2,0", "5,1,1000,50,0,2,14", "2,3,1000,50,0,4,0", "2,3,1000,50,30,4,0")],
    [f"squarecb {c} fms=150 secs=250" for c in ("4,3,1000,50,0,2,0", "4,5,300,75,0,0,1", "3,3,1000,50,20,0,4", "3,3,1000,50,20,2,1", "3,3,1000,50,5,2,2", "6,4,1000,50,20,2,31")],
    "1..5 actions; predicted costs any floats in [1,11], [-11,-1] or [-10,10] (with more than two unknown costs without exact zeros), some cases with some costs fixed; 0..3 learned examples; gamma scale {4,5,10}, exponent {0.25,0.5}; uniform epsilon {0,0.2,0.3,0.9,1}", "other gammas; more than 6 actions; longer histories")
check("P13", [f"cb_scores {r},{i},{t},{n},{l}" for r in range(5) for i in (0, 1) for (t, n, l) in ((0, 2, 2), (0, 1, 1), (1, 2, 1))] + [f"cb_scores {r},{i},0,3,2" for r, i in ((0, 0), (2, 1))],
    [f"cb_scores {r},{i},0,3,{l} conc=20000 paths=20000" for r in range(5) for i in (0, 1) for l in (1, 2, 3)],
    "1..3 actions; shared features absent, one or two features, every action one of three shapes (empty, one or two features, colliding with the shared ones or not), values any floats in [-8,8]; five regressors (with and without constant feature, interactions, elementwise interaction, debug wrapper), mtr and ips, learned 1..2 (thorough: 3) examples; compared with the base learner holding the same weights, with single-action examples and with reversed action order", "more than 3 actions; weights other than those learned from the fixed history")
check("P14", [f"cb_learn {r},{i},{t},1,{rg & 1},{rg},{k}" for r in range(5) for i in (0, 1) for rg in range(5) for k in range(1, 7) for t in ((0, 1) if r == 0 and rg == 0 else (0,)) if (r, i, k) != (2, 1, 1) or rg in (0, 3)] + [f"cb_learn {r},{i},0,3,0,10,{k}" for r in range(5) for i in (0, 1) for k in range(1, 7)] + [f"cb_learn {r},0,0,2,0,0,{k}" for r in (0, 1, 4) for k in (1, 3, 5, 6)],
    [f"cb_learn {r},{i},0,2,{rg & 1},{rg},{k} secs=120" for r in range(5) for i in (0, 1) for rg in range(4) for k in range(1, 7)] + [f"cb_learn 2,1,0,1,{rg & 1},{rg},1 secs=280" for rg in range(5)] + [f"cb_learn {r},{i},0,4,0,10,0 paths=20000" for r in range(5) for i in (0, 1)],
    "one learned example with any cost in one of five ranges ([1e-6,1e6], both signs, zero), every chosen action, probability in {1, 1/2, 1/4, 1/1024}; histories of three (thorough: four) examples in every order with fixed costs; two examples with symbolic second cost (mtr, thorough: ips); five regressors; after it the scores of four examples are those of a twin regressor driven with the documented regression examples", "probabilities that are not powers of two (rounding); longer histories")
check("P24", [f"wrapped {s},{st},{ns},{m},{p}" for s in ALL for (st, ns, m, p) in ((2, 0, 1, 0), (2, 0, 2, 0), (1, 1, 7, 0), (1, 1, 4, 0), (1, 0, 7, 1))] + [f"binary {r},{st}" for r in range(5) for st in (1, 2)],
    [f"wrapped {s},3,0,{m},0 paths=20000" for s in ALL for m in range(1, 8)] + [f"binary {r},3 paths=20000" for r in range(5)],
    "14 stacks with a debug wrapper around the outermost, second or third reduction or all of them, every sequence of 2 (thorough: 3) operations out of learn and predict_then_learn on three examples, one step with any label (cost) in [1,3]; printing switched on for concrete examples; binary: five regressors, every sequence of two (thorough: three) operations with both labels, compared with a twin regressor on features with any values in [-8,8]", "wrappers below the third level")
_c = []
for c in range(6):
    _c += [f"coin_state {c},{n},{k},0" for n in (1, 2) for k in (0, 1, 2)] + [f"coin_state {c},2,1,1"]
    _c += [f"coin_history {c},1,{v},{l},1,0,0" for v in range(6) for l in range(5) if l == 0 or c not in (1, 2, 5)]
    _c += [f"coin_history {c},{x}" for x in ("0,0,0,0,0,0", "1,0,0,1,1,0", "1,0,0,1,2,0", "1,0,0,1,3,0", "2,0,0,1,0,0", "1,0,0,1,0,1")]
check("P10", _c, [f"coin_history {c},2,{v},{l},1,{w},0 secs=120" for c in range(6) for v in (0, 2, 3) for l in (0, 1, 2) for w in (0, 2) if l == 0 or c not in (1, 2, 5)] + [f"coin_history {c},3,0,0,1,0,0 secs=120" for c in range(6)],
    "six learner configurations (squared and logistic loss, identity and logistic link, other parameters); any weights (finite, within [-4,4], huge), any label range within [-100,100], one or two features with any finite values; after histories of up to two (thorough: three) learned examples whose last label, value and importance weight are any floats of the stated ranges (up to 3e38, 1e30 and 1e6)", "longer histories with several symbolic steps; more than two features")
check("P20", [f"loss_squared {m},{r}" for m in range(4) for r in range(4) if (m, r) != (2, 3)] + [f"loss_logistic {k},{q},{r}" for k in range(148) for q, r in ((0, 0), (1, 0), (0, 1), (1, 1))] + [f"loss_logistic {k},{q},2" for k in range(0, 148) for q in (2, 3)],
    [f"loss_logistic {k},{q},{r}" for k in range(148) for q in range(4) for r in range(3)],
    "squared loss: all predictions and label ranges within [-1e6,1e6] (also [-1,1] to [-1e15,1e15]), label inside the range; logistic loss: all predictions in [-50,50] cut into 148 intervals and bracketed by reference values (1e-5) at the ends of each, labels at the ends of and inside the label range, three label ranges", "the approximation inside LogisticLoss::get_update (unused by any reduction); predictions beyond 50 for logistic loss")
check("P21", [f"metric_values {m},{n},{r}" for m in (0, 1) for n in (1, 2, 3) for r in (0, 1, 2)] + ["metric_counts 1", "metric_counts 2 conc=20000 paths=20000"], [f"metric_values {m},{n},{r}" for m in (0, 1) for n in (4, 5) for r in (0, 1)],
    "sequences of up to 3 (thorough: 5) points with any labels, predictions, costs and probabilities of the stated ranges, both orders of the action probabilities, value read or not read in between; counts: every combination of two examples of three kinds with up to two features per namespace, owned and borrowed", "longer sequences")
check("P09", [f"slots {f},{m},{s}" for f in (1, 2, 3, 4, 7, 16, 32, 1024, 65536, 262144) for m in (1, 2, 3, 4) for s in (1, 2, 3, 6, 8)] + [f"slot_values {x} conc=20000" for x in ("1,1,1", "2,1,6", "4,1,6", "3,2,2", "4,2,3", "2,3,2", "2,4,1", "5,1,1")] + [f"masked {b}" for b in range(1, 32)] + [f"separate {b},0" for b in (1, 2, 3, 4)] + ["separate 3,3", "separate 3,4"],
    [f"slots {f},{m},{s}" for f in (5, 6, 8, 100, 4096, 1048576) for m in (1, 2, 5, 8) for s in (1, 4, 5, 6)] + [f"slot_values {x} conc=20000" for x in ("8,1,6", "4,3,3", "16,1,6")] + ["separate 5,0 conc=20000"],
    "tables of 1..262144 features, 1..4 submodels, 1..8 states: any two feature indices; two writes at any slots of tables up to 5x2x6; every 32-bit hash and every size of 2^1..2^31 slots; learners of 2..16 slots with any label in [1,3]", "2^32 slots (not supported by the library); slots chosen inside parsers (P15..P17)")
check("P22", ["type_check -"] + [f"nesting {k},2,1" for k in range(8)] + [f"nesting {k},3,0 paths=20000 conc=20000" for k in (3, 5, 7)], [f"nesting {k},3,1 paths=20000 conc=20000" for k in range(1, 8)],
    "every chain of reductions of depth up to 4 over the eight reductions, mtr and ips; accepted stacks of depth up to 3 (thorough: 4) predict and learn two examples with any values and labels of fixed ranges; the compatibility check for every pair of type descriptions", "deeper stacks; labels that do not match the declared type")
check("P23", [f"default_fields {k}" for k in range(8)] + ["default_globals -", "global_effect 5,7", "global_effect 6,3", "global_effect 8,7"] + [f"refusals {k},{w}" for k in range(8) for w in (0, 2, 3, 4, 5, 6)] + ["refusals 0,7"] + [f"kept_values {k}" for k in range(8)] + [f"yaml {k}" for k in range(4)] + ["regularised 0", "regularised 1"],
    [f"refusals {k},1 paths=20000" for k in (0, 4, 5, 6)],
    "every subset of fields of every reduction written with its default or omitted, compared by exported state and behaviour on a symbolic label; every unknown 5-letter (thorough: 6-letter) key; every field misspelt in four ways and ill-typed in four ways; unknown names at two levels; ill-typed or missing globals; any float in [0.001,0.999] for every numeric field kept; seed, size, constant feature and interactions against a learner given the generated features by hand; four documents in JSON and YAML", "effects of alpha, beta (P11), epsilon, lambda, gamma (P05..P07), cbType (P14), loss and link (P10, P20) are decided there; longer unknown keys")
_e = [f"elementwise {b},{k},{n},{s},{t},{f}" for b, s in ((4, 0), (4, 5), (6, 0)) for k in (0, 1) for n in range(5) for t, f in ((1, 0), (2, 0), (3, 0), (2, 9)) if (b, s) != (6, 0) or t == 3]
check("P25", _e, [f"elementwise {b},{k},{n},{s},4,0 conc=20000" for b, s in ((4, 0), (5, 3), (18, 0)) for k in (0, 1) for n in (0, 2, 3)],
    "every pair of sets of offsets below 1..3 (thorough: 4) in the two namespaces, each missing or equal or the default one, any values in [0.5,4], table sizes where indices wrap and where they do not, two hash seeds, originals kept and hidden; the predictions and the learning of the wrapped regressor equal those of the regressor given the pairs by hand", "features listed out of offset order (documented as dense vectors)")
check("P11", [f"coin_rule {n},{s},{w},{r}" for n in (1, 2) for s in (1, 2, 3) for w in range(5) for r in range(4) if (w, r) != (2, 1) and (w, s, n) != (3, 3, 2)] + [f"coin_rule 3,{s},0,{r}" for s in (1, 2) for r in range(4)] + [f"coin_rule {n},{s},{w},{r},{z}" for n, s, z in ((2, 2, 1), (3, 2, 1), (2, 3, 1), (1, 2, 2), (2, 3, 2)) for w in (0, 1, 2) for r in (0, 2) if (w, r) != (2, 1)],
    [f"coin_rule {n},{s},{w},{r} secs=280" for n in (2, 3) for s in (3, 4) for w in range(5) for r in range(4) if (w, r) != (2, 1)],
    "one to three features, histories of one to three (thorough: four) examples with the last label, value or importance weight, or alpha or beta, any float of one of four ranges (magnitudes 1/8 to 100, both signs), optionally after an example with only zero values or with disjoint features; afterwards the weight of every feature and one combined prediction equal an independent implementation of the published update up to 1e-4", "longer histories; logistic loss (P20 decides its derivative)")
import itertools
def order(p):
    d = 0
    for i in reversed(p): d = d * 8 + i + 1
    return d
def minprob(ns, zs, es, ms, orders, opt): return [f"min_prob {n},{z},{e},{m},{o} {opt}" for n in ns for z in zs for e in es for m in ms if m < (1 << n) - 1 for o in orders]
P3 = [order(p) for p in itertools.permutations(range(3))]
P4 = [order(p) for p in itertools.permutations(range(4))]
check("P08", ["min_prob_refuse -"] + minprob((1,), (0, 1), (300, 5000, 0, 999, 1000), (0,), (0,), "secs=60 fms=150") + minprob((2,), (0, 1), (300, 5000, 10, 0, 999, 1000), (0, 1, 2), (0,), "secs=60 fms=150") +
    minprob((3,), (0, 1), (300, 5000, 999), (1, 2, 3, 4), (0,), "secs=60 fms=150") + minprob((4,), (0,), (300,), (3, 6, 9), (0,), "secs=60 fms=150") + minprob((3,), (0, 1), (300,), (0,), (P3[1], P3[3]), "secs=60 fms=150") + minprob((3,), (0, 1), (1000,), (0,), (0,), "secs=60 fms=150"),
    minprob((3,), (0, 1), (300, 10, 999, 5000), (0,), P3, "secs=150 fms=150") + minprob((4,), (0,), (300, 50), (1, 4), (0,), "secs=250 fms=150") + minprob((4,), (0,), (300,), (0,), P4[::5], "secs=250 fms=150"),
    "1..3 probabilities (4 with at least two zeros), each any float in [1e-6,1] or zero, summing to 1 within 1e-6, in any order; epsilon any float in [0,1] or {0,0.01,0.3,0.999,1}; zero-valued elements counted or not; refusal of out-of-range epsilons and of an empty list", "more than 4 elements; probabilities below 1e-6 other than zero")

_c = "conc=20000 paths=20000"
check("P15", [f"vw_line 1,1,4,7,{f},{s},18 {_c}" for f, s in ((6, 0), (9, 7), (13, 0))] + [f"vw_line 1,1,{h},3,{f},0,18 {_c}" for f, h in ((0, 3), (1, 3), (2, 1), (3, 1), (4, 1), (5, 1), (7, 1), (8, 3), (10, 4), (11, 4), (12, 4))] + [f"vw_line {x} {_c}" for x in ("1,2,2,4,9,0,18", "1,2,3,3,9,0,30", "2,1,3,3,9,5,6", "2,1,2,2,6,5,6", "2,1,3,4,9,0,28", "3,1,2,2,6,0,18", "1,0,4,3,6,0,18")] + [f"vw_cb {x} {_c}" for x in ("1,1,6,0,18", "2,1,9,0,18", "2,0,0,5,8", "1,1,2,0,18", "1,1,14,0,18")] + [f"vw_line 1,1,{h},3,{f},0,18 {_c}" for f, h in ((14, 2), (15, 1), (16, 4))],
    [f"vw_line 1,1,4,7,{f},0,18 {_c}" for f in (0, 1, 2, 3, 8)] + [f"vw_line {x} {_c}" for x in ("1,2,3,3,6,0,30", "2,1,3,3,6,5,6", "1,2,4,7,6,0,18", "2,1,4,4,6,0,28", "2,2,2,3,6,0,18", "1,3,1,4,6,0,18")] + [f"vw_cb {x} {_c}" for x in ("3,1,9,0,18", "3,0,2,0,18", "2,2,9,0,18", "2,1,6,0,18")],
    "lines of up to three namespaces (named, default, numeric-looking, with value, repeated, empty) with up to two features each of seven kinds (named, positional, named with value, string values, numeric name, long name), seven label forms (none, value, weight, tags), four kinds of blanks, three line ends; every digit of every number free in fourteen number forms (signs, fractions, exponents, the float extremes); three seeds, 6 to 30 bits; multi-line examples of one or two (thorough: three) actions with and without shared line, every chosen action, blank lines around", "other names (hashing is computed on concrete names); malformed lines; labels with free text")
check("P16", [f"json_simple {x} {_c}" for x in ("1,9,4,6,0,18", "1,9,4,6,5,6", "2,4,2,6,3,5")] + [f"json_simple 1,{k},1,{f},0,18 {_c}" for f, k in ((0, 6), (1, 2), (3, 2), (4, 2), (5, 2), (7, 2), (8, 2), (9, 6), (10, 6), (11, 6), (12, 6), (13, 6), (14, 6), (15, 6), (16, 6), (17, 6))] + [f"json_cb {x} {_c}" for x in ("1,3,14,3,8", "1,2,17,3,8", "2,3,9,0,18", "1,5,6,3,8", "1,2,0,3,8")] + ["json_escaped_key 2"],
    [f"json_simple {x} {_c}" for x in ("1,2,1,2,0,18", "1,9,4,0,0,18", "2,4,4,6,0,28")] + [f"json_cb {x} {_c}" for x in ("2,3,6,0,18", "2,4,6,0,18", "3,2,6,0,18", "1,9,9,3,8")],
    "objects of one or two namespaces of four names (also the default ones and a non-ASCII one), each of nine kinds (absent, numbers, mixed object, booleans, strings with escapes, single elements, empty object, empty list), seven label forms before or after the features; contextual-bandit objects of one or two (thorough: three) actions, shared features present, absent or null, labels present, absent or null with every action; every digit free in eighteen number forms (fractions, exponents, signs, integers beyond 32 and 64 bits); four seeds, 5 to 28 bits", "other names; malformed objects")
check("P17", [f"ds_line {x} {_c}" for x in ("1,1,10,1,6,0,18", "1,0,10,1,2,0,18", "2,1,1,10,6,0,18", "1,2,5,1,6,7,6", "3,0,2,2,6,0,28", "1,0,1,10,0,3,5", "2,0,3,4,6,0,18")] + [f"ds_line 1,0,2,1,{f},0,18 {_c}" for f in (1, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17)] + ["json_escaped_key 3"],
    [f"ds_line {x} {_c}" for x in ("1,2,10,1,6,0,18", "2,1,5,5,6,0,18", "2,0,10,4,6,0,18", "3,1,2,5,9,3,6")],
    "decision logs of one to three actions; shared and action contexts with one of ten kinds of keys (number, list of numbers with null, nested object, array of objects, string, booleans, ignored keys, empty list and object, escaped string) nested up to depth two, every label (each action or none); every digit free in eighteen number forms (fractions, exponents, signs, integers beyond 32 and 64 bits); five seed and size combinations", "several free keys side by side in one object; other orders of the label fields; malformed logs")
check("P18", [f"chunking {w},{n},{k},0 {_c}" for w in range(4) for n, k in ((5, 9), (5, 1), (6, 9))] + [f"chunking {w},{n},{k},1 {_c}" for w in range(4) for n, k in ((8, 9), (8, 3))],
    [f"chunking {w},{n},{k},0 {_c}" for w in range(4) for n, k in ((7, 9), (7, 2))] + [f"chunking {w},{n},{k},1 {_c}" for w in range(4) for n, k in ((10, 16), (9, 4))],
    "every input of up to 6 (thorough: 7) ASCII bytes, and of up to 8 (thorough: 10) of newline, blank and another character, read in pieces of 1, 3 or all bytes, into a buffer with stale content, by all four ways of reading (VW lines, VW multi-line examples, JSON, DSJSON)", "longer inputs; non-ASCII bytes; read errors")
check("P19", [f"recycled {w},6,{b} {_c}" for w in range(5) for b in (1, 2)] + [f"second_life {x} conc=60000 paths=60000" for x in ("1,1,1", "1,2,0", "2,1,0")],
    [f"second_life {x} conc=200000 paths=200000" for x in ("2,2,0", "1,2,1", "2,1,1", "3,1,0")],
    "one or two examples parsed and returned to the pool, then another one, compared with the same example from a new pool: five texts (four for DSJSON) per parser in all combinations, one or two actions, every three-digit value; objects built through the public interface: every sequence of one or two (thorough: three) of seven operations on up to three namespaces before being returned, one or two after, any values in [0.5,4], with and without a model predicting", "several threads sharing a pool; longer histories")
check("P26", [f"names_line {x} {_c}" for x in ("1,2,3,6,0,18", "2,1,4,4,3,6", "1,2,2,7,5,28", "1,1,4,7,5,28")] + [f"names_cb {x} {_c}" for x in ("2,1,0,18,2", "1,2,5,8,4")] + [f"names_interacted {x} {_c}" for x in ("2,18,0", "2,28,5", "3,5,0")] + ["names_table 2 " + _c],
    [f"names_line {x} {_c}" for x in ("2,2,3,4,0,18", "3,1,3,4,0,18", "1,3,2,6,0,18")] + [f"names_cb {x} {_c}" for x in ("3,1,7,18,2", "2,2,0,30,1")] + [f"names_interacted {x} {_c}" for x in ("3,8,3", "2,31,1")] + ["names_table 3 " + _c],
    "lines of one or two (thorough: three) namespaces with one or two features of the kinds of P15, labels, tags, blanks, tabs and line ends in several arrangements; one or two actions with and without shared line; two- and three-term interactions of four namespaces with every pair (triple) of 32-bit positions; every sequence of two (thorough: three) insertions of four features under two indices", "JSON and DSJSON (extraction of names is not implemented for them); other names")

# larger inputs of which a few values are unknown
also("P01", [f"wide_restored {k},{o},5,6,9" for k in range(14) for o in (0, 1)] + ["wide_restored 0,0,6,8,1", "wide_restored 8,2,5,6,9"], [f"wide_restored {k},2,6,9,12" for k in range(14)],
    "14 stacks with examples of up to six namespaces of up to nine features and up to twelve actions, one value at one of three places unknown")
also("P12", [f"interactions {w},{x},18,1" for w in (0, 1, 2) for x in ("2,6,0,0", "7,5,0,0", "2,12,0,0", "4,4,5,4", "3,8,8,8", "5,4,5,1", "8,3,5,4")], [f"interactions {w},{x},18,1" for w in (0, 1, 2) for x in ("7,9,0,0", "2,20,0,0", "6,7,5,0", "9,8,6,0")],
    "up to twelve (thorough: twenty) features per namespace with any values at fixed indices")
also("P13", [f"wide_scores {r},{i},{n},{x}" for r, i, n, x in ((0, 0, 9, "7,1,2"), (2, 1, 6, "9,1,2"), (4, 1, 12, "3,0,2"), (1, 0, 17, "5,1,1"), (3, 0, 5, "6,1,2"))], [f"wide_scores {r},{i},{n},{x}" for r in range(5) for i in (0, 1) for n, x in ((20, "6,1,2"), (7, "9,1,3"))],
    "up to 17 (thorough: 20) actions of up to nine features in five namespaces, one value of one action and one shared value unknown")
also("P14", [f"wide_learn {r},{i},{x}" for r, i, x in ((0, 0, "9,7,1,3,0"), (3, 1, "6,5,1,1,0"), (0, 0, "6,3,1,2,1"), (1, 1, "7,4,0,2,0"), (4, 0, "12,3,1,3,0"), (2, 0, "6,5,1,2,0"))], [f"wide_learn {r},{i},{x}" for r in range(5) for i in (0, 1) for x in ("8,5,1,4,0", "6,3,0,2,1")],
    "up to twelve actions of up to seven features, any of four actions chosen, up to three examples of different numbers of actions")
also("P15", ["long_vw 0,12,12 conc=20000", "long_vw 1,12,6 conc=20000", "long_vw 0,3,40 conc=20000"], ["long_vw 1,30,9 conc=20000", "long_vw 0,40,5 conc=20000"], "lines of up to twelve segments, up to 40 features per segment and up to twelve actions, with one free number at one of nine places")
also("P16", ["long_json 0,9,14,0 conc=20000", "long_json 1,4,6,12 conc=20000", "long_json 0,3,40,0 conc=20000"], ["long_json 1,7,9,20 conc=20000"], "objects of up to nine namespaces of up to 40 features and up to twelve actions, with one free number at one of nine places")
also("P17", ["long_ds 12,6,4,2 conc=20000", "long_ds 3,14,6,0 conc=20000", "long_ds 2,1,1,0 conc=20000"], ["long_ds 20,9,5,3 conc=20000"], "logs of up to twelve actions, contexts of up to 14 keys nested up to six deep, four orders of the top-level fields")
also("P18", [f"long_chunking {x}" for x in ("0,30,60,7", "1,60,40,64", "2,20,300,128", "3,20,30,1", "1,25,9,4096")], [f"long_chunking {w},{x}" for w in range(4) for x in ("100,70,64", "40,1000,512")],
    "inputs of up to 60 (thorough: 100) lines of up to 300 (thorough: 1000) bytes read 1 to 4096 bytes at a time, with either line end and unknown bytes inside")
also("P19", ["wide_recycled 6,9,9", "wide_recycled 5,3,1", "wide_recycled 2,40,3"], ["wide_recycled 6,90,20"], "three objects holding up to six namespaces of up to 40 features returned and handed out again")
also("P05", ["greedy 12,1000,3,4094", "greedy 9,30,3,382"], ["greedy 15,1000,3,32511"], "up to twelve (thorough: 15) actions with one or two unknown costs")
also("P06", ["softmax 10,100,0,2,991", "softmax 14,100,0,0,8191"], ["softmax 15,50,0,2,32639"], "up to 14 actions with one unknown cost and no uniform mixture")
also("P07", ["squarecb 10,3,1000,50,0,2,991", "squarecb 12,3,1000,50,0,2,2047", "squarecb 7,3,1000,50,20,0,63"], ["squarecb 15,3,1000,50,0,2,32639"], "up to twelve actions with one unknown cost")
also("P11", ["coin_rule 8,1,0,0", "coin_rule 10,1,1,0", "coin_rule 5,2,0,0", "coin_rule 6,2,2,0"], [], "up to ten features in two namespaces after one example, up to six after two")
# counters and sizes beyond one byte
for _p, _w in (("P02", 0), ("P03", 1)):
    also(_p, [f"long_history {s},{_w},{n} {_big}" for s in ALL for n in (20, 300)] + [f"reload_wide {_w},300,{k} {_big}" for k in (0, 2)], [f"reload_wide {_w},900,{k} {_big}" for k in (0, 2)], "14 stacks after 20 and 300 learned examples; models with 300 (thorough: 900) features")
also("P04", [f"long_history {s},2,{n} {_big}" for s in ALL for n in (20, 300)], [], "14 stacks after histories of 20 and 300 examples, learned by different calls")
also("P21", [f"metric_long {m},{n}" for m in (0, 1, 2) for n in (7, 300)], ["metric_long 2,2000"], "sequences of 300 points, one unknown; up to six actions in any rotation")
also("P14", ["wide_learn 0,0,5,1,0,300,0", "wide_learn 1,1,5,1,0,300,0", "wide_learn 0,0,3,1,1,40,1"], [], "300 examples")
also("P07", ["squarecb 2,300,1000,50,0,2,0 fms=150"], [], "300 learned examples")
also("P13", ["wide_scores 0,0,300,1,1,1"], [], "300 actions")
also("P01", ["wide_restored 0,0,6,50,1"], [], "300 features")
also("P12", [f"interactions {w},2,40,0,0,18,1" for w in (0, 1, 2)], [], "40 features with themselves")
also("P05", ["greedy 15,1000,3,32511"], [], "15 actions")
also("P15", ["long_vw 0,1,1100 conc=20000", "long_vw 1,300,1 conc=20000"], [], "a segment of 1100 features; 300 actions")
also("P16", ["long_json 0,1,300,0 conc=20000", "long_json 1,1,1,300 conc=20000"], [], "a list of 300 numbers; 300 actions")
also("P17", ["long_ds 2,140,1,0 conc=20000", "long_ds 300,1,0,0 conc=20000"], [], "lists of 280 numbers; 300 actions")
also("P18", ["long_chunking 0,300,5,64"], [], "300 lines")
also("P08", [f"min_prob_wide {n},{z},{e},{s} secs=60 fms=150" for n, s in ((5, 3), (6, 6), (8, 7), (8, 19)) for z in (0, 1) for e in (300, 50, 900, 999, 1000)] + [f"min_prob_wide 12,{z},{e},62 secs=60 fms=150" for z in (0, 1) for e in (900, 999, 1000)],
    [f"min_prob_wide 12,{z},{e},{s} secs=250 fms=150" for z in (0, 1) for e in (300, 50) for s in (62, 11)], "5, 6, 8 and 12 elements, half of the mass fixed (with zeros), the other half divided between two elements in any way")
# examples without weight still count as seen
also("P10", [f"coin_history {c},2,0,{l},1,{w},0 secs=120" for c in (0, 1, 3) for l in (0, 1) for w in (4, 5) if l == 0 or c != 1], [], "histories with examples of weight zero")
also("P11", [f"coin_rule {n},{s},{w},0,{z}" for n in (1, 2) for s in (2, 3) for w in (0, 1) for z in (3, 4)], [], "histories with examples of weight zero")
