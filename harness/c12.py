"""Fit statistics of Evaluator against FitStats."""
import random
import torch
from core import num, nums, guarded
import modelkit as mk, evalkit as ek

SPEC = "FitStatsTrace"
MC = [{"module": "FitStatsMC", "cfg": "FitStatsMC.cfg", "thorough": "FitStatsMCdeep.cfg"}]
ASSUMPTIONS = ["the predicted category is unique (no two categories equally likely)", "item variances are at least 1e-4, or exactly zero together with the error"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    pool = [s["x"] for s in scenarios if any(v != -1 for r in s["x"] for v in r)]
    for x in rng.sample(pool, min(len(pool), 60 if tier == "quick" else 600)):
        out.append(mk_one(rng, ek.mk_model_case(rng, x), x, "spec"))
    for _ in range(70 if tier == "quick" else 700):
        c = ek.mk_model_case(rng)
        n = rng.choice([1, 2, 3, 5, 8])
        out.append(mk_one(rng, c, mk.mk_data(rng, n, c["cats"], rng.choice([0, 0.2, 0.5])), "random"))
    return out


def mk_one(rng, c, x, src):
    return {"src": src, "op": "stats", "mcase": c, "x": x, "coding": rng.choice(["nan", "-1", "mixed"]), "seed": rng.randrange(10 ** 6),
            "score": rng.choice(["given", "given", "given", "estimated"]), "train": rng.random() < 0.3, "scale": rng.random() < 0.4}


def encode(x, coding, rng):
    t = torch.tensor(x).float()
    m = t == -1
    if coding == "nan":
        t[m] = float("nan")
    elif coding == "mixed":
        t[m & (torch.rand(t.shape) < 0.5)] = float("nan")
    return t


def setup(case, zero=0.25):
    rng = random.Random(case["seed"])
    c, x = case["mcase"], case["x"]
    model = ek.make(c, rng, zero if case["score"] == "given" else 0.0)
    data = encode(x, case["coding"], rng)
    theta = ek.mk_theta(rng, c, len(x))
    kw = {}
    if case["scale"]:
        import stubs
        lv = c["lv"]
        model.add_scale_transformation(stubs.Affine([[2.0 if a == b else 0.5 for b in range(lv)] for a in range(lv)] if lv > 1 else [[-2.0]], [1.0] * lv))
    model.algorithm = ek.Trained(data.clone())
    if case["score"] == "estimated":
        kw = {"theta_estimation": "EAP", "eap_theta_integration_points": 9} if c["model"] == "tab" or rng.random() < 0.5 else {}
        with torch.no_grad():
            theta = model.latent_scores(data.clone(), rescale=False, **kw)
        th = None
    else:
        th = theta
    d = None if case["train"] else data
    return rng, model, d, th, theta, kw


def run(case, rec):
    rng, model, data, th, theta, kw = setup(case)
    x, key = case["x"], ek.key_of(model)
    base = {"x": nums(torch.tensor(x)), "P": ek.probs(model, theta), "key": key, "cats": [int(c) for c in model.item_categories]}
    clone = lambda: (None if data is None else data.clone(), None if th is None else th.clone())
    ev = model.evaluate

    def out(t, level):
        return nums(t) if level != "all" else [num(t)]

    AV = {"none": "none", "items": "respondent", "respondents": "item", "everything": "all"}
    for av, level in AV.items():
        d, t = clone()
        guarded(rec, dict(base, op="residuals", level=level), lambda: {"out": out(ev.residuals(data=d, theta=t, average_over=av, **kw), level)})
    if not ek.near_tie(model, theta):
        for level in ["all", "item", "respondent"]:
            d, t = clone()
            guarded(rec, dict(base, op="accuracy", level=level), lambda: {"out": out(ev.accuracy(data=d, theta=t, level=level, **kw), level)})
        if all(any(r[j] != -1 for r in x) for j in range(len(x[0]))):
            d, t = clone()
            guarded(rec, dict(base, op="predictions"), lambda: {"out": predictions(ev.predictions(data=d, theta=t, **kw))})
    for level in ["item", "respondent"] if ek.fit_domain(model, theta, x) else []:
        d, t = clone()

        def fit():
            a, b = ev.infit_outfit(data=d, theta=t, level=level, **kw)
            return {"infit": nums(a), "outfit": nums(b)}
        guarded(rec, dict(base, op="fit", level=level), fit)
    for red in ["sum", "mean"]:
        for level in ["all", "item", "respondent"]:
            d, t = clone()
            guarded(rec, dict(base, op="loglik", level=level, reduction=red), lambda: {"out": out(ev.log_likelihood(data=d, theta=t, reduction=red, level=level, **kw), level)})
    d, t = clone()
    guarded(rec, dict(base, op="loglik", level="none", reduction="none"), lambda: {"out": nums(ev.log_likelihood(data=d, theta=t, reduction="none", **kw))})


def predictions(df):
    return [[num(float(df[c].iloc[j])) for c in ["precision", "recall", "f1", "w_precision", "w_recall", "w_f1"]] for j in range(len(df))]
