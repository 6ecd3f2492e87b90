"""Plots show the model's own numbers: spec/Plots.tla judges the data of the returned figures."""
import math, random
import torch
from core import num, nums, guarded
import modelkit as mk, evalkit as ek, scales

SPEC = "PlotsTrace"
MC = [{"module": "PlotsMC", "cfg": "PlotsMC.cfg", "thorough": "PlotsMCdeep.cfg"}]
ASSUMPTIONS = ["figures are judged by the data of their traces, not by their look",
               "the grid is laid out on the reported scale when every scale can be inverted and training scores exist; elsewhere on the original scale"]
CASE_TIMEOUT = 60
WHATS = ["entropy", "log_likelihood", "log_likelihood", "expected_sum_score", "information", "probabilities", "probabilities", "derivative"]


def mk_stage(rng, n, kind):
    s = lambda lo, hi: rng.choice([0.5, 0.75, 1.5, 2.0])
    diag = lambda f: [[f(u) if u == v else 0.0 for v in range(n)] for u in range(n)]
    off = [rng.choice([0, 0.5, -1.0, 0.3]) for _ in range(n)]
    k = {"kind": kind, "b": off, "floor": None, "inv": kind in ("stretch", "reverse", "mix")}
    if kind in ("stretch", "oneway", "floor"):
        k["A"] = diag(lambda u: s(0, 0))
    elif kind == "reverse":
        k["A"], k["b"] = diag(lambda u: -1.0), [0.0] * n
    elif kind == "backward":
        k["A"] = diag(lambda u: -s(0, 0))
    else:
        k["A"] = [[(s(0, 0) if u == v else rng.choice([0, 0.5, -0.5]) if v > u else 0.0) for v in range(n)] for u in range(n)]
    if kind == "floor":
        k["floor"] = [rng.choice([-0.6, 0.1, 0.4]) for _ in range(n)]
    return k


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 12
    out = []
    for i, s in enumerate(rng.sample(scenarios, min(90 * k, len(scenarios)))):
        n = s["n"]
        what = WHATS[i % len(WHATS)]
        out.append({"src": "spec", "op": "plot", "n": n, "vars": s["vars"], "stages": [mk_stage(rng, n, q) for q in s["stages"]], "trained": s["trained"], "rescale": s["rescale"],
                    "ranged": [s["ranged"]] * len(s["vars"]), "fixed": s["fixed"], "what": what, "steps": rng.choice([3, 4, 6]) if len(s["vars"]) == 1 else rng.choice([2, 3]), "seed": rng.randrange(10 ** 6)})
    for i in range(90 * k):
        n = rng.choice([1, 1, 2, 2, 3])
        vs = rng.sample(range(1, n + 1), rng.choice([1, 1, 2]) if n > 1 else 1)
        kinds = [rng.choice(["stretch", "reverse", "mix", "oneway", "backward"]) for _ in range(rng.choice([0, 1, 1, 2]))] + (["floor"] if rng.random() < 0.15 else [])
        out.append({"src": "random", "op": "plot", "n": n, "vars": vs, "stages": [mk_stage(rng, n, q) for q in kinds], "trained": rng.random() < 0.7, "rescale": rng.random() < 0.75,
                    "ranged": [rng.random() < 0.5 for _ in vs], "fixed": rng.random() < 0.5 and len(vs) < n, "what": WHATS[i % len(WHATS)], "steps": rng.choice([3, 5, 9]) if len(vs) == 1 else rng.choice([2, 3, 4]), "seed": rng.randrange(10 ** 6)})
    for op, m in (("scale_curves", 20), ("relationships", 20), ("distribution", 30), ("history", 12), ("group_fit", 15)):
        for _ in range(m * k):
            n = 1 if op == "group_fit" else rng.choice([1, 2, 3])
            kinds = [rng.choice(["stretch", "reverse", "mix", "oneway", "backward"]) for _ in range(rng.choice([1, 1, 2]) if op == "scale_curves" else rng.choice([0, 1, 2]))]
            out.append({"src": "random", "op": op, "n": n, "stages": [mk_stage(rng, n, q) for q in kinds], "trained": rng.random() < 0.6, "seed": rng.randrange(10 ** 6)})
    return out


def setup(case, rng, rec):
    import stubs
    from irtorch.rescale import Reverse
    n = case["n"]
    J = rng.choice([1, 2, 3])
    cats = [rng.choice([2, 2, 3, 4]) for _ in range(J)]
    q = lambda a, b: round(rng.uniform(a, b) * 16) / 16
    W = [[[q(-1.5, 1.5) if k else 0.0 for _ in range(n)] for k in range(m)] for m in cats]
    D = [[q(-1, 1) if k else 0.0 for k in range(m)] for m in cats]
    key = [rng.randrange(m) for m in cats] if rng.random() < 0.3 else None
    if rng.random() < 0.5:      # rising items
        W = [[[abs(w) + 0.25 * k if k else 0.0 for w in row] for k, row in enumerate(item)] for item in W]
        W = [[[sum(item[c][v] for c in range(k + 1)) for v in range(n)] for k in range(len(item))] for item in W]
        key = None
    model = stubs.Linear(W, D, n, key)
    train = [[q(-2.5, 2.5) for _ in range(n)] for _ in range(rng.choice([3, 5, 7]))] if case["trained"] else None
    data = torch.tensor([[float(rng.randrange(m)) for m in cats] for _ in range(len(train) if train else 6)])
    model.algorithm = ek.Trained(data, None if train is None else torch.tensor(train))
    for s in case["stages"]:
        sc = Reverse([True] * n) if s["kind"] == "reverse" else stubs.Affine(s["A"], s["b"]) if s["inv"] else stubs.OneWay(s["A"], s["b"], s["floor"])
        model.add_scale_transformation(sc)
    rec({"op": "model", "lv": n, "key": key or [], "W": nums(W), "D": nums(D), "train": nums(train or []),
         "ss": [{"A": nums(s["A"]), "b": nums(s["b"]), "floor": nums(s["floor"] or []), "inv": s["inv"]} for s in case["stages"]]})
    return model, cats, key, data, q


def rows(fig, kind):
    return [t for t in fig.data if t.type == kind]


def run(case, rec):
    rng = random.Random(case["seed"])
    globals()["do_" + case["op"]](case, rec, rng)


def do_plot(case, rec, rng):
    model, cats, key, data, q = setup(case, rng, rec)
    n, J, vs, what = case["n"], len(cats), case["vars"], case["what"]
    floor = any(s["floor"] for s in case["stages"])
    if floor and what in ("information", "derivative") and case["rescale"]:
        what = "entropy"
    if what == "derivative" and len(vs) == 2:
        what = "probabilities"
    item = rng.randint(1, J)
    items = sorted(rng.sample(range(1, J + 1), rng.randint(1, J))) if rng.random() < 0.6 else None
    ranges = [[a, a + rng.choice([1.0, 2.5, 4.0])] if g else [] for g, a in ((g, q(-2, 0)) for g in case["ranged"])]
    fixed = [q(-1, 1) for _ in range(n - len(vs))] if case["fixed"] else []
    kw = {"latent_variables": tuple(vs), "steps": case["steps"], "rescale": case["rescale"]}
    if ranges[0]:
        kw["theta_range"] = tuple(ranges[0])
    if len(vs) == 2 and ranges[1]:
        kw["second_theta_range"] = tuple(ranges[1])
    if fixed:
        kw["fixed_thetas"] = torch.tensor(fixed)
    ev = {"op": "curve" if len(vs) == 1 else "surface", "what": what, "vars": vs, "ranges": nums(ranges), "steps": case["steps"], "fixed": nums(fixed), "rescale": case["rescale"], "item": item, "items": items or list(range(1, J + 1)),
          "allitems": list(range(1, J + 1)), "data": [], "cos": [], "against": "theta", "line": "0", "names": [], "scorenames": [str(c) for c in range(12)], "optionnames": [f"Option {c + 1}" for c in range(12)]}
    P = model.plot
    if what == "entropy":
        call = lambda: P.item_entropy(item, **kw)
    elif what == "log_likelihood":
        row = [(-1 if rng.random() < 0.2 else rng.randrange(m)) for m in cats]
        x, _ = mk.as_data([row])
        ev["data"] = row
        score = len(vs) == 1 and items is None and rng.random() < 0.5
        if score:
            ev["against"] = "score"
        call = lambda: P.log_likelihood(x, items=items, expected_sum_score=score, **kw)
    elif what == "expected_sum_score":
        call = lambda: P.expected_sum_score(items=items, **kw)
    elif what == "information":
        deg = [rng.choice([0, 30, 45, 60, 90]) for _ in range(n)] if n > 1 else None
        ev["cos"] = nums([math.cos(math.radians(d)) for d in deg]) if deg else []
        call = lambda: P.information(items=items, degrees=deg, **kw)
    else:
        call = lambda: P.item_probabilities(item, plot_derivative=what == "derivative", grayscale=rng.random() < 0.3, **kw)

    def get():
        fig = call()
        if len(vs) == 1:
            lines = rows(fig, "scatter")
            line = [s for s in (fig.layout.shapes or []) if s.type == "line"]
            return {"x": nums(lines[0].x), "series": [nums(t.y) for t in lines], "names": [str(t.name) for t in lines] if what in ("probabilities", "derivative") else [],
                    "line": num(line[0].x0) if line else "0"}
        surf = rows(fig, "surface")
        return {"x": nums(surf[0].x), "y": nums(surf[0].y), "z": [nums(t.z) for t in surf]}
    guarded(rec, ev, get)


def do_scale_curves(case, rec, rng):
    model, cats, key, data, q = setup(case, rng, rec)
    n = case["n"]
    var = rng.randint(1, n)
    rg = [q(-2, 0), q(0.5, 2)] if rng.random() < 0.5 else []
    fixed = [q(-1, 1) for _ in range(n - 1)] if n > 1 and rng.random() < 0.5 else []

    def get():
        fig = model.plot.scale_transformations(var, input_theta_range=tuple(rg) if rg else None, steps=5, fixed_thetas=torch.tensor(fixed) if fixed else None)
        return {"x": [nums(t.x) for t in fig.data], "series": [nums(t.y) for t in fig.data]}
    guarded(rec, {"op": "scale_curves", "what": "scale", "var": var, "range": nums(rg), "steps": 5, "fixed": nums(fixed)}, get)


def do_relationships(case, rec, rng):
    model, cats, key, data, q = setup(case, rng, rec)
    n = case["n"]
    given = rng.random() < 0.3
    m = torch.tensor([[q(-1, 1) for _ in range(n)] for _ in cats])
    th = torch.tensor([[q(-2, 2) for _ in range(n)] for _ in range(4)])
    own = case["trained"] and rng.random() < 0.5
    kw = {"relationships": m.clone()} if given else {} if own else {"theta": th.clone()}

    def get():
        fig = model.plot.item_latent_variable_relationships(**kw)
        return {"z": nums(fig.data[0].z), "rows": [str(y) for y in fig.data[0].y]}
    guarded(rec, {"op": "relationships", "what": "relationships", "given": given, "matrix": nums(m), "theta": [] if own else nums(th), "itemnames": [f"Item {j + 1}" for j in range(len(cats))]}, get)


def do_distribution(case, rec, rng):
    n = case["n"]
    N = rng.choice([5, 8, 13, 16, 31])
    model, cats, key, data, q = setup({**case, "trained": False}, rng, rec)
    two = n > 1 and rng.random() < 0.7
    vs = rng.sample(range(1, n + 1), 2 if two else 1)
    th = torch.tensor([[rng.uniform(-2, 2) for _ in range(n)] for _ in range(N)])
    scored = rng.random() < 0.4
    rescale = rng.random() < 0.6
    x, _ = mk.as_data([[rng.randrange(m) for m in cats] for _ in range(N)])
    bins = rng.choice([0, 2, 3])
    drawn = th
    if scored:
        # scores of a population: the plot scores it the way the model does
        model.algorithm = ek.Trained(x, th.clone())
        model.latent_scores = lambda data=None, rescale=True, **k: (model.transform_theta(th.clone()) if rescale and model.scale else th.clone()) if torch.equal(data, x) and k == {"theta_estimation": "MAP"} else None
        drawn = model.latent_scores(data=x, rescale=rescale, theta_estimation="MAP")
        kw = {"rescale": rescale, "theta_estimation": "MAP"}
        if rng.random() < 0.5:
            kw["population_data"] = x.clone()
    else:
        kw = {"scores_to_plot": th.clone()}
    if two:
        k = bins or int(math.log2(N)) + 1
        for v in vs:       # scores at a bin edge may be counted on either side
            c = drawn[:, v - 1].double()
            pos = (c - c.min()) / (c.max() - c.min()) * k
            inner = (pos > 1e-3) & (pos < k - 1e-3)
            if (((pos - pos.round()).abs() < 1e-3) & inner).any():
                return
        guarded(rec, {"op": "density", "what": "density", "rows": nums(drawn[:, [v - 1 for v in vs]]), "bins": bins},
                lambda: (lambda t: {"x": nums(t.x), "y": nums(t.y), "z": nums(t.z)})(model.plot.latent_score_distribution(latent_variables=tuple(vs), contour_plot_bins=bins or None, **kw).data[0]))
    else:
        guarded(rec, {"op": "values", "what": "values", "rows": nums(drawn), "var": vs[0]},
                lambda: {"drawn": [nums(t.x) for t in model.plot.latent_score_distribution(latent_variables=tuple(vs), **kw).data]})


def do_history(case, rec, rng):
    model, cats, key, data, q = setup(case, rng, rec)
    tr = [rng.uniform(0, 9) for _ in range(rng.randint(1, 7))]
    va = [rng.uniform(0, 9) for _ in tr] if rng.random() < 0.6 else []
    if rng.random() < 0.2 and va:
        tr = []
    model.algorithm.training_history = {"train_loss": tr} if rng.random() < 0.3 and not va else {"train_loss": tr, "validation_loss": va}
    want = [s for s in (tr, va) if s]
    names = [nm for s, nm in ((tr, "Training"), (va, "Validation")) if s]

    def get():
        fig = model.plot.training_history()
        return {"x": [[int(v) for v in t.x] for t in fig.data], "y": [nums(t.y) for t in fig.data], "names": [str(t.name) for t in fig.data]}
    guarded(rec, {"op": "history", "what": "history", "want": nums(want), "wantnames": names}, get)


def do_group_fit(case, rec, rng):
    model, cats, key, data, q = setup(case, rng, rec)
    N, G = rng.choice([8, 12]), rng.choice([2, 3, 4])
    x = torch.tensor([[float(rng.randrange(m)) for m in cats] for _ in range(N)])
    th = torch.tensor([[rng.uniform(-2, 2)] for _ in range(N)])
    item = rng.randint(1, len(cats))
    rescale = rng.random() < 0.5

    def get():
        d, m, at = model.evaluate.latent_group_probabilities(data=x.clone(), theta=th.clone(), rescale=rescale, latent_variable=1, groups=G)
        fig = model.plot.item_probabilities(item, plot_group_fit=True, group_fit_groups=G, group_fit_data=x.clone(), group_fit_population_theta=th.clone(), rescale=rescale, steps=4)
        dd, mm = [t for t in fig.data if t.name == "Data"], [t for t in fig.data if t.name == "Model"]
        own = cats[item - 1]
        return {"wantdata": [nums(d[:, item - 1, c]) for c in range(own)], "wantmodel": [nums(m[:, item - 1, c]) for c in range(own)], "wantat": nums(at.reshape(-1)),
                "data": [nums(t.y) for t in dd], "model": [nums(t.y) for t in mm], "at": [nums(t.x) for t in dd + mm]}
    guarded(rec, {"op": "group_fit", "what": "group_fit"}, get)
