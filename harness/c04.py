"""Latent scores under stacked scale transformations: spec/Rescale.tla."""
import random
import torch
from core import num, nums, guarded, seed_all
import modelkit as mk, evalkit as ek, queries as qs, scales as sc

SPEC = "RescaleTrace"
MC = [{"module": "RescaleMC", "cfg": "RescaleMC.cfg", "thorough": "RescaleMCdeep.cfg"}]
ASSUMPTIONS = ["gradients on the transformed scale are judged where the composed Jacobian is well conditioned (singular values in 0.05..50)",
               "spline scales return scores to 1/200 (32-bit arithmetic), others to 1/5000",
               "standard errors of maximum-likelihood scores are judged at scores within +-4"]
SMOOTH = ["2pl", "gpc", "nom", "gr", "3pl", "nn", "poly", "nested", "bspline"]
EST = ["2pl", "gpc", "nom", "gr", "3pl"]


def mk_one(rng, ops, lv, src):
    c = mk.mk_case(rng, rng.choice(SMOOTH if rng.random() < 0.5 else EST), lvs=(lv,), J=rng.choice([2, 3, 4]))
    return {"src": src, "op": "stack", "mcase": c, "ops": ops, "seed": rng.randrange(10 ** 6), "n": rng.choice([2, 4]),
            "method": rng.choice(["ML", "ML", "MAP", "EAP", "NN"]) if c["model"] in EST else "EAP", "enc": rng.choice(["ae", "vae"])}


KNOWN = {"reverse1": {"kind": "reverse", "flags": [True, False]}, "reverse2": {"kind": "reverse", "flags": [False, True]},
         "turn": {"kind": "rotate", "matrix": [[0, 1], [-1, 0]], "ortho": True}, "shear": {"kind": "affine", "A": [[1, 1], [0, 1]], "b": [0, 0]},
         "shift": {"kind": "affine", "A": [[1, 0], [0, 1]], "b": [1, -2]}}


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    quick = tier == "quick"
    seen = {}
    for s in scenarios:
        seen.setdefault(tuple(s), s)
    pool = list(seen.values())
    for s in rng.sample(pool, min(len(pool), 40 if quick else 500)):
        ops = [{"do": "detach"} if o == "detach" else dict(KNOWN[o], do="add") for o in s]
        out.append(mk_one(rng, ops, 2, "spec"))
    for i in range(80 if quick else 800):
        lv = rng.choice([1, 1, 1, 2, 2, 3])
        kinds = ["affine", "reverse", "rotate", "flow"] + (["link", "bit", "rank", "flow", "link"] if lv == 1 else ["flow", "rotate_fit"])
        if i % 8 == 0:
            kinds = [k for k in kinds if k != "rotate_fit"] + ["rank", "bit"]
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            if ops and rng.random() < 0.12:
                ops.append({"do": "detach"})
            ops.append(dict(sc.mk_scale(rng, lv, kinds), do="add"))
        c = mk_one(rng, ops, lv, "random")
        if c["mcase"]["lv"] != lv:        # a model class with one latent variable only
            c["mcase"] = mk.mk_case(rng, "gpc", lvs=(lv,), J=3)
        out.append(c)
    return out


def plain_queries(model, lv, data, theta, n):
    g = torch.no_grad
    q = {"probs": lambda: nums(model.item_probabilities(theta.clone())),
         "expected": lambda: nums(model.expected_scores(theta.clone()).detach()),
         "prob_grads": lambda: nums(model.probability_gradients(theta.clone(), rescale=False).flatten(1).detach()),
         "score_grads": lambda: nums(model.expected_item_score_gradients(theta.clone(), rescale=False).flatten(1).detach()),
         "info": lambda: nums(model.information(theta.clone(), rescale=False).flatten(1)),
         "difficulty": lambda: nums(model.population_difficulty(theta.clone())),
         "discrimination": lambda: nums(model.population_discrimination(theta.clone(), rescale=False))}
    dq = {**qs.data_queries(model, lv, observed_items=True), **qs.group_queries(model, lv, n)}
    for k in ("ll_sum", "eval_ll_sum_item", "residuals_none", "accuracy_item", "fit_item", "group_probs_1", "group_resid_1_True"):
        if k in dq:
            q[k] = lambda k=k: dq[k][2](data.clone(), theta.clone())
    q["accuracy_estimated"] = lambda: [num(model.evaluate.accuracy(data=data.clone(), theta_estimation="EAP"))]
    return q


def run(case, rec):
    import stubs
    rng = random.Random(case["seed"])
    c, lv, n = case["mcase"], case["mcase"]["lv"], case["n"]
    method = case["method"]
    x = mk.mk_data(rng, 10, c["cats"], 0.1)
    for j, m in enumerate(c["cats"]):
        x[j][j] = m - 1
    full = torch.tensor(x).float()
    full[full == -1] = float("nan")
    model = ek.make(c, rng)
    train_theta = torch.tensor([[rng.uniform(-2, 2) for _ in range(lv)] for _ in range(12)])
    if method == "NN":
        from irtorch.estimation_algorithms import AE, VAE
        a = {"ae": AE, "vae": VAE}[case["enc"]]()
        model.fit(full, a, max_epochs=2, hidden_layers_encoder=[4], device="cpu")
    else:
        model.algorithm = ek.Trained(full, train_theta)
    seed_all(case["seed"])
    data = full[:n].clone()
    theta = torch.tensor([[rng.uniform(-2, 2) for _ in range(lv)] for _ in range(n)])
    rec({"op": "model"})
    pq = plain_queries(model, lv, data, theta, n)
    if not ek.fit_domain(model, theta, x[:n]):
        pq.pop("fit_item", None)
    if ek.near_tie(model, theta):
        pq.pop("accuracy_item", None)
    pq.pop("accuracy_estimated") if c["model"] not in EST else None

    def score(se=False, rescale=True):
        kw = {"eap_theta_integration_points": (15, 7, 5)[lv - 1]} if method == "EAP" else {}
        seed_all(5)
        with torch.no_grad():
            return model.latent_scores(data.clone(), standard_errors=se, theta_estimation=method, rescale=rescale, **kw)
    pq["scores"] = lambda: nums(score(rescale=False))
    base = {}
    for k, f in pq.items():
        e = guarded(rec, {"op": "base", "q": k}, lambda: {"v": f()})
        if not e["err"]:
            base[k] = f
    scales, infos = [], []
    for o in case["ops"] + [{"do": "detach"}]:
        if o["do"] == "detach":
            guarded(rec, {"op": "detach"}, lambda: model.detach_scale_transformations() or {})
            scales, infos = [], []
        else:
            ev = {"op": "add"}

            def add():
                s, info = sc.build(o, model, lv)
                model.add_scale_transformation(s)
                scales.append(s)
                infos.append(info)
                return {"scale": {"kind": info["kind"], "A": info["A"], "b": info["b"]}}
            if guarded(rec, ev, add)["err"]:
                return
        ask(case, rec, rng, model, c, lv, data, theta, scales, infos, method, score)
        for k in rng.sample(sorted(base), min(len(base), 4)) if o["do"] != "detach" else base:
            guarded(rec, {"op": "plain", "q": k}, lambda: {"v": base[k]()})


def ask(case, rec, rng, model, c, lv, data, theta, scales, infos, method, score):
    exact = all(i["exact"] for i in infos)
    inv = all(i["inv"] for i in infos)
    jac = all(i["jac"] for i in infos)

    def do_map():
        with torch.no_grad():
            out = model.transform_theta(theta.clone())
            back = model.inverse_transform_theta(out.clone()) if inv else None
        return {"theta": nums(theta), "stages": [nums(s) for s in sc.stages(scales, theta)], "out": nums(out),
                "back": nums(back) if inv else [], "backtol": "1/5000" if exact else "1/200"}
    guarded(rec, {"op": "map"}, do_map)
    want_se = method in ("ML", "NN")
    orig = score(rescale=False)
    ev = {"op": "scores", "se": "none", "method": method}

    def do_scores():
        r = {"orig": nums(orig), "resc": nums(score()), "stages": [nums(s) for s in sc.stages(scales, orig)]}
        if want_se and jac:
            js = sc.jacobians(scales, orig)
            if len(sc.conditioned(js, orig, 1e-4)) < len(orig):
                return r
            ok = [i for i in sc.conditioned(js, orig) if orig[i].abs().max() < 4]
            (_, seo), (_, ser) = score(True, False), score(True, True)
            inf = lambda resc: model.information(orig.clone(), item=False, rescale=resc)
            fin = [i for i in ok if seo[i].isfinite().all() and seo[i].max() < 100]
            if method == "NN" and hasattr(model.algorithm, "latent_mean_se"):
                r.update(se="delta", seo=nums(seo[fin]), ser=nums(ser[fin]), J=sc.per_row(js, fin))
            else:
                r.update(se="information", ser=nums(ser[fin]), info=nums(inf(False)[fin]), infor=nums(inf(True)[fin]), J=sc.per_row(js, fin))
        return r
    guarded(rec, ev, do_scores)
    if not jac:
        return
    js = sc.jacobians(scales, theta)
    guarded(rec, {"op": "jacobian"}, lambda: {"J": sc.per_row(js, range(len(theta))), "out": nums(model.theta_transform_jacobian(theta.clone()).detach())})
    ok = sc.conditioned(js, theta)
    if not ok:
        return
    t = theta[ok]
    J = sc.per_row(js, ok)

    def vecs(x):
        return nums(x.detach().reshape(x.shape[0], -1, lv))
    guarded(rec, {"op": "gradient", "q": "probability_gradients"}, lambda: {
        "J": J, "orig": vecs(model.probability_gradients(t.clone(), rescale=False)), "resc": vecs(model.probability_gradients(t.clone()))})
    by = rng.random() < 0.5
    e = guarded(rec, {"op": "gradient", "q": "expected_item_score_gradients"}, lambda: {
        "J": J, "orig": vecs(model.expected_item_score_gradients(t.clone(), by, rescale=False)), "resc": vecs(model.expected_item_score_gradients(t.clone(), by))})
    guarded(rec, {"op": "average"}, lambda: {"resc": vecs(model.expected_item_score_gradients(t.clone(), True)), "out": nums(model.population_discrimination(t.clone()).detach())})
    deg = [rng.uniform(0, 90) for _ in range(lv)]
    item = rng.random() < 0.6

    def info():
        f = lambda **k: model.information(t.clone(), item=item, **k)
        wrap = (lambda x: nums(x)) if item else (lambda x: [[y] for y in nums(x)])
        d = wrap(f(degrees=deg)) if lv > 1 else []
        return {"J": J, "orig": wrap(f(rescale=False)), "resc": wrap(f()), "deg": d, "cos": nums(torch.tensor(deg).float().deg2rad().cos())}
    guarded(rec, {"op": "information"}, info)
