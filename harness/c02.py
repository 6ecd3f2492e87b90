"""Missing responses never contribute: spec/Missing.tla."""
import random
import torch
from core import num, nums, guarded
import modelkit as mk, evalkit as ek, queries as qs

SPEC = "MissingTrace"
MC = [{"module": "MissingMC", "cfg": "MissingMC.cfg", "thorough": "MissingMCdeep.cfg"}]
ASSUMPTIONS = ["recoding and leaving out are compared on the same fitted parameters and random seed",
               "optimized scores are compared to 0.002, everything else to 0.00002",
               "pairwise statistics are asked only where every item pair has at least two common respondents"]
FITMODELS = ["2pl", "gpc", "nom", "gr", "3pl"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    quick = tier == "quick"
    reduced = [s for s in scenarios if len(s["rows"]) < len(s["x"]) or len(s["items"]) < len(s["x"][0])]
    recoded = [s for s in scenarios if s not in reduced]
    for grp, k in ((reduced, 45), (recoded, 25)):
        for s in rng.sample(grp, min(len(grp), k if quick else 8 * k)):
            if not s["rows"] or not s["items"]:
                continue
            out.append({"src": "spec", "op": "ask", "mcase": ek.mk_model_case(rng, s["x"]), "x": s["x"], "seed": rng.randrange(10 ** 6),
                        "variants": [{"minus": [[a - 1 for a in c] for c in s["minus"]], "rows": [a - 1 for a in s["rows"]], "items": [a - 1 for a in s["items"]]}]})
    for _ in range(50 if quick else 500):
        c = ek.mk_model_case(rng)
        n, J = rng.choice([3, 5, 8]), len(c["cats"])
        x = mk.mk_data(rng, n, c["cats"], rng.choice([0.15, 0.4, 0.6]))
        if rng.random() < 0.3:
            x[rng.randrange(n)] = [-1] * J
        if rng.random() < 0.2 and J > 1:
            j = rng.randrange(J)
            for r in x:
                r[j] = -1
        miss = [[i, j] for i in range(n) for j in range(J) if x[i][j] == -1]
        rows = [i for i in range(n) if any(v != -1 for v in x[i])]
        items = [j for j in range(J) if any(r[j] != -1 for r in x)]
        if not rows:
            continue
        v = [{"minus": miss, "rows": list(range(n)), "items": list(range(J))},
             {"minus": rng.sample(miss, len(miss) // 2), "rows": list(range(n)), "items": list(range(J))},
             {"minus": rng.sample(miss, len(miss) // 2), "rows": rows, "items": items}]
        i = rng.choice(rows)
        v.append({"minus": [], "rows": [i], "items": [j for j in range(J) if x[i][j] != -1]})
        out.append({"src": "random", "op": "ask", "mcase": c, "x": x, "seed": rng.randrange(10 ** 6), "variants": v})
    for k in range(40 if quick else 320):
        alg = ["mml", "jml", "ae", "vae"][k % 4]
        c = mk.mk_case(rng, rng.choice(FITMODELS), lvs=(1, 1, 2), J=rng.choice([2, 3, 4]))
        if alg in ("ae", "vae") and rng.random() < 0.5 and "key" not in c:
            c["model"], c["key"] = "nom", None
            c["cats"] = mk.mk_cats(rng, len(c["cats"]), lo=2, hi=4)
            c["key"] = [rng.randrange(m) for m in c["cats"]]
        n = rng.choice([6, 9, 12])
        x = mk.mk_data(rng, n, c["cats"], rng.choice([0.1, 0.3]))
        for j, m in enumerate(c["cats"]):
            x[j % n][j] = m - 1
        extra = None
        if rng.random() < 0.5:
            x.append([-1] * len(c["cats"]))
        opt = {}
        if alg in ("ae", "vae"):
            imp = rng.choice([None, "zero", "mean", "random incorrect"])
            if imp == "random incorrect" and not c.get("key"):
                imp = "zero"
            opt = {"imputation": imp, "one_hot": imp in (None, "zero", "random incorrect") and rng.random() < 0.6 or imp is None, "batch": rng.choice([None, 4])}
        if alg == "mml":
            opt = {"method": rng.choice(["gauss_hermite", "quasi_mc"])}
        if alg == "jml":
            opt = {"start": rng.random() < 0.5, "batch": rng.choice([None, 4])}
        out.append({"src": "random", "op": "fit", "alg": alg, "mcase": c, "x": x, "opt": opt, "seed": rng.randrange(10 ** 6)})
    return out


def present(x, v):
    t = torch.tensor(x).float()
    t[t == -1] = float("nan")
    for i, j in v["minus"]:
        t[i, j] = -1
    return t[v["rows"]][:, v["items"]]


def run(case, rec):
    if case["op"] == "fit":
        return run_fit(case, rec)
    import stubs
    rng = random.Random(case["seed"])
    c, x = case["mcase"], case["x"]
    n, J = len(x), len(x[0])
    model = ek.make(c, rng)
    theta = ek.mk_theta(rng, c, n)
    tr = ek.mk_theta(rng, c, 12)
    model.algorithm = ek.Trained(None, tr)
    full = {"minus": [], "rows": list(range(n)), "items": list(range(J))}
    cols = all(any(r[j] != -1 for r in x) for j in range(J))
    q = qs.data_queries(model, c["lv"], observed_items=cols, n=n if rng.random() < 0.3 and n < 4 else 0)
    if ek.near_tie(model, theta):
        q = {k: v for k, v in q.items() if "accuracy" not in k and "predict" not in k}
    if not ek.fit_domain(model, theta, x):
        q = {k: v for k, v in q.items() if not k.startswith("fit_")}
    names = list(q)
    rec({"op": "data"})
    scores = qs.score_queries(["EAP", "ML", "MAP"] if c["model"] not in ("tab", "bspline", "surprisal", "nested") else ["EAP"])
    groups = qs.group_queries(model, c["lv"], n)
    pairs = {}
    both = lambda a, b: sum(1 for r in x if r[a] != -1 and r[b] != -1)
    if J > 1 and all(both(a, b) >= 2 for a in range(J) for b in range(J)):
        pairs = qs.pair_queries(model)
    ok_pairs = set()

    def ask(name, m, v):
        d, t = present(x, v), theta[v["rows"]].clone()
        qs._seed(name)
        if name in scores:
            return scores[name][2](m, d)
        if m is model:
            f = {**q, **groups, **pairs}[name]
        else:
            f = qs.data_queries(m, c["lv"], n=1)[name]
        return f[2](d, t)
    allq = {**q, **groups, **pairs, **scores}
    for name in allq:
        if name in scores and name != "scores_EAP":
            try:       # where the likelihood has no maximum nothing is claimed
                e = {"op": "base", "q": name, "v": ask(name, model, full), "err": ""}
                if any(abs(float(eval(a))) > 4 for r in e["v"] for a in r if a not in ("nan", "inf", "-inf")):
                    continue
                rec(e)
            except Exception:
                continue
            names.append(name)
            continue
        e = guarded(rec, {"op": "base", "q": name}, lambda: {"v": ask(name, model, full)})
        if not e["err"]:
            names.append(name) if name not in names else None
        elif name in names:
            names.remove(name)
    P = ek.probs(model, theta)
    for lev, name in (("all", "ll_sum"), ("none", "ll_none"), ("respondent", "eval_ll_sum_resp")):
        def val(name=name):
            v = ask(name, model, full)
            return {"v": [r[0] for r in v] if name.endswith("resp") else v}
        guarded(rec, {"op": "loglik", "level": lev, "P": P, "x": x}, val)
    for v in case["variants"]:
        reduced = len(v["rows"]) < n or len(v["items"]) < J
        m = model if len(v["items"]) == J else stubs.SubModel(model, v["items"])
        if m is not model:
            m.algorithm = model.algorithm
        for name in names:
            if reduced and (name in groups or name in pairs or name == "scores_ML"):
                continue
            shape, cls, _ = allq[name]
            if reduced and len(v["rows"]) == 1 and shape in ("all", "item"):
                continue
            if m is not model and name == "predictions" and not cols:
                continue
            guarded(rec, {"op": "variant", "q": name, "class": cls, "shape": shape, "kind": "reduce" if reduced else "recode",
                          "rows": [a + 1 for a in v["rows"]], "items": [a + 1 for a in v["items"]]},
                    lambda: {"v": ask(name, m, v)})


def run_fit(case, rec):
    from irtorch.estimation_algorithms import AE, VAE, MML, JML
    from core import seed_all
    c, x, o, alg = case["mcase"], case["x"], case["opt"], case["alg"]
    n, J = len(x), len(c["cats"])
    keep = [i for i in range(n) if any(v != -1 for v in x[i])]
    rng0 = random.Random(case["seed"])
    miss = [[i, j] for i in range(n) for j in range(J) if x[i][j] == -1]
    rec({"op": "data"})

    def fit(v):
        seed_all(case["seed"])
        rng = random.Random(case["seed"])
        model = mk.build(c)
        mk.randomize(model, c, rng)
        a = {"ae": AE, "vae": VAE, "mml": MML, "jml": JML}[alg]()
        d = present(x, v)
        kw = {"max_epochs": 4, "learning_rate": 0.05, "device": "cpu"}
        if alg == "mml":
            kw.update(integration_method=o["method"], quadrature_points=7)
        if alg == "jml":
            start = torch.linspace(-1.5, 1.5, n).view(-1, 1).repeat(1, c["lv"])
            kw.update(batch_size=o["batch"] and len(v["rows"]) // 2 + 1, start_thetas=start[v["rows"]].clone() if o["start"] else None)
        if alg in ("ae", "vae"):
            kw.update(batch_size=o["batch"], imputation_method=o["imputation"], one_hot_encoded=o["one_hot"], hidden_layers_encoder=[4], evaluation_interval_size=1)
        if alg == "vae":
            kw.update(iw_samples=2)
        seed_all(case["seed"] + 1)
        model.fit(d, a, **kw)
        out = {"loss": [num(h) for h in a.training_history["train_loss"]],
               "params": [nums(p.detach().flatten()) for p in model.parameters()]}
        th = getattr(a, "training_theta_scores", None)
        out["train_theta"] = nums(th) if th is not None else []
        methods = ["EAP"] + (["NN"] if alg in ("ae", "vae") else [])
        for m in methods:
            seed_all(case["seed"] + 2)
            kw2 = {"eap_theta_integration_points": (15, 7, 5)[c["lv"] - 1]} if m == "EAP" else {}
            out["scores_" + m] = nums(model.latent_scores(d, theta_estimation=m, rescale=False, **kw2))
        return out
    full = {"minus": [], "rows": list(range(n)), "items": list(range(J))}
    try:
        base = fit(full)
    except Exception as ex:
        return guarded(rec, {"op": "base", "q": "fit", "alg": alg}, lambda: (_ for _ in ()).throw(ex))
    for k in base:
        rec({"op": "base", "q": k, "v": base[k]})
    shapes = {"loss": "all", "params": "all", "train_theta": "resp" if base["train_theta"] else "all", "scores_EAP": "resp", "scores_NN": "resp"}
    for minus in (miss, rng0.sample(miss, len(miss) // 2)):
        v = dict(full, minus=minus)
        try:
            got = fit(v)
        except Exception as ex:
            guarded(rec, {"op": "variant", "q": "fit", "alg": alg}, lambda: (_ for _ in ()).throw(ex))
            continue
        for k in base:
            rec({"op": "variant", "q": k, "class": "direct", "shape": shapes[k], "kind": "recode", "rows": [a + 1 for a in full["rows"]],
                 "items": [a + 1 for a in full["items"]], "v": got[k]})
    if len(keep) < n and (alg == "mml" or (alg == "jml" and o["start"] and not o["batch"])):
        v = dict(full, minus=[], rows=keep)
        got = fit(v)
        for k in base:
            if (k == "loss" and alg == "mml" and o["method"] == "quasi_mc") or (k == "scores_EAP" and alg == "jml"):
                continue        # a respondent without responses adds a constant there; a training latent score there
            rec({"op": "variant", "q": k, "class": "fit", "shape": shapes[k], "kind": "reduce", "rows": [a + 1 for a in keep],
                 "items": [a + 1 for a in full["items"]], "v": got[k]})
