"""Data preparation preserves every observed response: spec/DataPrep.tla."""
import random
import torch
from core import num, nums, guarded, seed_all
import modelkit as mk

SPEC = "DataPrepTrace"
MC = [{"module": "DataPrepMC", "cfg": "DataPrepMC.cfg", "thorough": "DataPrepMCdeep.cfg"}]
ASSUMPTIONS = ["random draws are judged by membership and by counts within six standard deviations",
               "items without any observed response have no mean and no category count"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 12
    out = []
    sc = sorted(scenarios, key=str)
    rng.shuffle(sc)
    for s in sc[:120 * (1 if tier == "quick" else 20)]:
        out.append({"src": "spec", "op": "table", "x": s["x"], "key": s["key"], "cats": [3, 2], "minus": sorted(i - 1 for i in s["minus"]), "seed": rng.randrange(10 ** 6)})
    for i in range(160 * k):
        n, J = rng.choice([1, 1, 2, 3, 6]), rng.choice([1, 1, 2, 4])
        cats = mk.mk_cats(rng, J)
        x = mk.mk_data(rng, n, cats, missing=rng.choice([0, 0.2, 0.5]))
        out.append({"src": "random", "op": "table", "x": x, "key": [rng.randrange(c) for c in cats], "cats": cats,
                    "minus": [r for r in range(n) if rng.random() < 0.4], "seed": rng.randrange(10 ** 6)})
    for i in range(14 * k):
        out.append({"src": "random", "op": "prior", "model": rng.choice(["2pl", "gpc", "nom", "gr", "poly", "nn"]), "seed": rng.randrange(10 ** 6)})
    for i in range(8 * k):
        out.append({"src": "random", "op": "draws", "cats": rng.randint(2, 6), "seed": rng.randrange(10 ** 6), "how": rng.choice(["given", "model", "internal", "data"])})
    for i in range(20 * k):
        J = rng.choice([1, 2, 4])
        cats = mk.mk_cats(rng, J)
        out.append({"src": "random", "op": "guess", "cats": cats, "n": rng.choice([1, 40, 400]), "keyed": rng.random() < 0.6, "default": rng.random() < 0.25, "seed": rng.randrange(10 ** 6)})
    for i in range(40 * k):
        out.append({"src": "random", "op": "split", "n": rng.choice([1, 2, 3, 7, 10, 50, 100]), "ratio": rng.choice([0.0, 0.1, 0.29, 0.5, 0.57, 0.7, 0.8, 0.99, 1.0]),
                    "shuffle": rng.random() < 0.6, "seed": rng.randrange(10 ** 6)})
    out.append({"src": "fixed", "op": "shipped", "seed": 0})
    return out


def tensor(case, dtype=torch.float32):
    t = torch.tensor(case["x"]).to(dtype)
    for i in range(t.shape[0]):
        if i not in case["minus"]:
            t[i][t[i] == -1] = float("nan")
    return t


def run(case, rec):
    return globals()["run_" + case["op"]](case, rec)


def run_table(case, rec):
    from irtorch import utils as U
    import irtorch._internal_utils as I
    rng = random.Random(case["seed"])
    x, cats, key = case["x"], case["cats"], case["key"]
    rec({"op": "table", "x": x, "cats": cats, "key": key})
    T = lambda: tensor(case, rng.choice([torch.float32, torch.float32, torch.float64]))
    seen = [any(r[j] != -1 for r in x) for j in range(len(cats))]
    if all(seen):
        guarded(rec, {"op": "categories", "src": "utils"}, lambda: {"v": [int(c) for c in U.get_item_categories(T())]})
        from irtorch.models import GeneralizedPartialCredit, GradedResponse, NominalResponse
        M = rng.choice([GeneralizedPartialCredit, GradedResponse, NominalResponse])
        guarded(rec, {"op": "categories", "src": M.__name__}, lambda: {"v": [int(c) for c in M(data=T()).item_categories]})

    def impute(method, given):
        kw = {}
        if method == "random incorrect":
            kw = {"mc_correct": list(key)}
            if given:
                kw["item_categories"] = list(cats)
        seed_all(case["seed"])
        y = U.impute_missing(T(), method, **kw)
        return y, kw
    inferred_ok = all(seen) and all(1 + max(r[j] for r in x) >= 2 and not (key[j] != 0 and 1 + max(r[j] for r in x) == 1) for j in range(len(cats)))
    for method, given in [("zero", True), ("mean", True), ("random incorrect", True), ("random incorrect", False)]:
        if not given and not inferred_ok:
            continue
        guarded(rec, {"op": "impute", "method": method, "given": given, "E": []}, lambda: {"y": nums(impute(method, given)[0])})
        if method == "mean" and not all(seen):
            continue

        def twice():
            y, kw = impute(method, given)
            if given:
                return {"y": nums(y), "z": nums(U.impute_missing(y, method, **kw))}
            return {"y": nums(y), "z": nums(U.impute_missing(y, "zero"))}
        guarded(rec, {"op": "again", "method": method}, twice)
    if hasattr(I, "one_hot_encode_test_data"):
        guarded(rec, {"op": "onehot"}, lambda: {"h": nums(I.one_hot_encode_test_data(T(), list(cats)))})
    if hasattr(I, "sum_score") and all(v != -1 for r in x for v in r):
        for k in ([], key):
            guarded(rec, {"op": "sumscore", "key": k}, lambda: {"v": nums(I.sum_score(T(), list(k) or None))})
    try:
        from irtorch.irt_dataset import PytorchIRTDataset as D
    except ImportError:
        return
    for method in ("none", "zero", "mean", "random incorrect"):
        for onehot in (False, True):
            if (method == "mean" and (onehot or not all(seen))):
                continue

            def ds():
                kw = {"mc_correct": list(key)} if method == "random incorrect" else {}
                d = D(T(), one_hot_encoded=onehot, item_categories=list(cats), imputation_method=None if method == "none" else method, **kw)
                rows = [d[i] for i in range(len(d))]
                return {"data": [nums(r[0]) for r in rows], "mask": [[bool(b) for b in r[1]] for r in rows], "input": [nums(r[2]) for r in rows]}
            guarded(rec, {"op": "dataset", "method": method, "onehot": onehot}, ds)


def run_prior(case, rec):
    """Imputation by the scores a model expects at the mean of its latent prior."""
    from irtorch import utils as U
    rng = random.Random(case["seed"])
    c = mk.mk_case(rng, case["model"])
    c.pop("key", None)
    model = mk.build(c)
    mk.randomize(model, c, rng)
    x = mk.mk_data(rng, rng.choice([1, 3, 5]), c["cats"], missing=0.4)
    t = dict(case, x=x, minus=[r for r in range(len(x)) if rng.random() < 0.5])
    rec({"op": "table", "x": x, "cats": c["cats"], "key": []})

    def go():
        with torch.no_grad():
            p = model.item_probabilities(torch.zeros(1, c["lv"]))[0].double()
        E = [float((p[j, :m] * torch.arange(m)).sum()) for j, m in enumerate(c["cats"])]
        return {"E": nums(E), "y": nums(U.impute_missing(tensor(t), "prior expected", model=model))}
    guarded(rec, {"op": "impute", "method": "prior expected", "given": True}, go)


def run_draws(case, rec):
    from irtorch import utils as U
    import irtorch._internal_utils as I
    rng = random.Random(case["seed"])
    m, n = case["cats"], 600
    key = rng.randrange(m)
    other = rng.randint(2, 5)
    ok = rng.randrange(other)
    x = [[-1, rng.randrange(other)] for _ in range(n)] + [[k, k % other] for k in range(max(m, other)) if k < m]
    t = torch.tensor(x).float()
    t[t == -1] = float("nan")
    rec({"op": "table", "x": [[0]], "cats": [2], "key": []})

    def go():
        how = case["how"]
        if how == "model":
            from irtorch.models import NominalResponse
            model = NominalResponse(item_categories=[m, max(other, m)], mc_correct=[key, ok])
            y = U.impute_missing(t, "random incorrect", model=model)
        elif how == "internal" and hasattr(I, "impute_missing_internal"):
            y = I.impute_missing_internal(t, "random incorrect", mc_correct=[key, ok], item_categories=[m, max(other, m)])
        elif how == "data":
            y = U.impute_missing(t, "random incorrect", mc_correct=[key, ok])
        else:
            y = U.impute_missing(t, "random incorrect", mc_correct=[key, ok], item_categories=[m, max(other, m)])
        return {"counts": [int((y[:n, 0] == k).sum()) for k in range(m)]}
    guarded(rec, {"op": "draws", "cats": m, "key": key, "n": n, "how": case["how"]}, go)


def run_guess(case, rec):
    import irtorch._internal_utils as I
    rng = random.Random(case["seed"])
    cats = case["cats"]
    key = [rng.randrange(c) for c in cats] if case["keyed"] else []
    g = [1.0 / c if case["default"] else rng.choice([0.0, 0.1, 0.25, 0.5, 0.9, 1.0 / c]) for c in cats]
    if case["default"] and not case["keyed"]:
        return
    rec({"op": "table", "x": [[0]], "cats": [2], "key": []})
    guarded(rec, {"op": "guess", "cats": cats, "key": key, "g": nums(g), "n": case["n"]},
            lambda: {"y": I.random_guessing_data(list(cats), case["n"], None if case["default"] else g, list(key) or None).int().tolist()})


def run_split(case, rec):
    from irtorch import utils as U
    n = case["n"]
    J = 3
    x = torch.arange(1, n + 1).view(-1, 1) * 10 + torch.arange(J).view(1, -1)
    x = x.float()
    rec({"op": "table", "x": [[0]], "cats": [2], "key": []})

    def go():
        a, b = U.split_data(x.clone(), train_ratio=case["ratio"], shuffle=case["shuffle"])
        ids = lambda t: [int(v) for v in (t[:, 0] / 10).round()] if t.shape[0] else []
        whole = all(bool((t == torch.tensor(ids(t)).float().view(-1, 1) * 10 + torch.arange(J)).all()) for t in (a, b) if t.shape[0])
        return {"a": ids(a), "b": ids(b), "whole": whole}
    guarded(rec, {"op": "split", "n": n, "ratio": num(case["ratio"]), "shuffle": case["shuffle"]}, go)


def run_shipped(case, rec):
    import irtorch
    rec({"op": "table", "x": [[0]], "cats": [2], "key": []})

    def go():
        x, key = irtorch.load_dataset.swedish_sat()
        b = irtorch.load_dataset.swedish_sat_binary()
        full = torch.where(x.isnan(), -1.0, x)
        return {"raw": full[:60].int().tolist(), "bin": b[:60].int().tolist(), "key": [int(k) for k in key], "top": full.max(0).values.int().tolist()}
    guarded(rec, {"op": "shipped"}, go)
