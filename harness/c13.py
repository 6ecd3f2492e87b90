"""Group fit statistics of Evaluator: who is in which group and what is reported for it."""
import random
import torch
from core import num, nums, guarded
import modelkit as mk, evalkit as ek
from c12 import encode

SPEC = "FitStatsTrace"
MC = [{"module": "GroupsMC", "cfg": "GroupsMC.cfg", "thorough": "GroupsMCdeep.cfg"}]
ASSUMPTIONS = ["respondents with tied scores give the same responses and probabilities (the order within ties is open)",
               "at least as many respondents as groups; observed responses have positive probability",
               "standardized residuals are judged where the model variance is at least 1/1000"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    for s in rng.sample(scenarios, min(len(scenarios), 60 if tier == "quick" else 600)):
        out.append(mk_one(rng, s["score"], s["groups"], "spec"))
    for _ in range(60 if tier == "quick" else 600):
        n = rng.choice([1, 2, 5, 7, 10, 11, 13, 17])
        sc = rng.sample(range(60), n)
        out.append(mk_one(rng, sc, rng.randint(1, n), "random"))
    return out


def mk_one(rng, score, groups, src):
    c = ek.mk_model_case(rng)
    return {"src": src, "op": "groups", "mcase": c, "score": score, "groups": groups, "x": mk.mk_data(rng, len(score), c["cats"], rng.choice([0, 0.2, 0.4])),
            "ties": rng.random() < 0.25, "var": rng.randint(1, c["lv"]), "coding": rng.choice(["nan", "-1", "mixed"]), "seed": rng.randrange(10 ** 6),
            "scale": rng.random() < 0.5, "train": rng.random() < 0.25, "estimated": rng.random() < 0.2}


def run(case, rec):
    import stubs
    rng = random.Random(case["seed"])
    c, n, v = case["mcase"], len(case["score"]), case["var"] - 1
    model = ek.make(c, rng)
    theta = ek.mk_theta(rng, c, n)
    hi = max(case["score"] + [1])
    theta[:, v] = torch.tensor([3.6 * s / hi - 1.8 + (0.01 * s if v == 0 and c["model"] == "tab" else 0) for s in case["score"]])
    x = [list(r) for r in case["x"]]
    if case["ties"] and n > 1:
        a, b = rng.sample(range(n), 2)
        theta[b] = theta[a]
        x[b] = list(x[a])
    data = encode(x, case["coding"], rng)
    if case["scale"]:
        lv = c["lv"]
        model.add_scale_transformation(stubs.Affine([[-2.0]] if lv == 1 else [[0.5 if a == b else (-2.0 if b == 0 else 1.5) for b in range(lv)] for a in range(lv)], [1.0] * lv))
    model.algorithm = ek.Trained(data.clone())
    th, kw = theta, {}
    if case["estimated"] and c["model"] != "tab":
        est = rng.choice(["ML", "EAP"])
        with torch.no_grad():
            theta = model.latent_scores(data.clone(), rescale=False, theta_estimation=est)
        th, kw = None, {"theta_estimation": est}
    with torch.no_grad():
        trans = model.transform_theta(theta)
    P = ek.probs(model, theta)
    ids = {}
    sizes = {"x": nums(torch.tensor(x)), "P": P, "cats": [int(k) for k in model.item_categories], "groups": case["groups"]}
    args = lambda: dict(data=None if case["train"] else data.clone(), theta=None if th is None else th.clone(), groups=case["groups"], latent_variable=case["var"])
    ev = model.evaluate
    if tie_free(theta[:, v], x, P):
        guarded(rec, dict(sizes, op="group_ll", score=nums(theta[:, v])), lambda: {"out": nums(ev.group_fit_log_likelihood(**args(), **kw))})
    for rescale in [True, False]:
        score = (trans if rescale else theta)[:, v]
        if not tie_free(score, x, P):
            continue

        def probs():
            o, m, mid = ev.latent_group_probabilities(**args(), rescale=rescale, **kw)
            return {"obs": nums(o), "model": nums(m), "mid": nums(mid)}
        guarded(rec, dict(sizes, op="group_probs", score=nums(score)), probs)
        for std in [True, False]:
            def resid():
                o, mid = ev.group_fit_residuals(**args(), rescale=rescale, standardize=std, **kw)
                return {"out": nums(o), "mid": nums(mid)}
            guarded(rec, dict(sizes, op="group_resid", standardize=std, score=nums(score)), resid)


def tie_free(score, x, P):
    """No two respondents with (almost) the same score who differ in what they contribute."""
    s = [float(a) for a in score]
    for i in range(len(s)):
        for j in range(i):
            if abs(s[i] - s[j]) < 1e-6 and (s[i] != s[j] or x[i] != x[j] or P[i] != P[j]):
                return False
    return True
