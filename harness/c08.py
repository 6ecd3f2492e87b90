"""Nested logit models against spec/Models.tla (Nested)."""
import random
import torch
from core import num, nums, guarded
import modelkit as mk

SPEC = "ModelsTrace"
MC = [{"module": "ModelsMC", "cfg": "ModelsMC.cfg", "thorough": "ModelsMCdeep.cfg"},
      {"module": "NestedMC", "cfg": "NestedMC.cfg", "thorough": "NestedMCdeep.cfg"}]
ASSUMPTIONS = ["single precision results are compared with 1e-5 absolute tolerance on probabilities"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    sc = [s for s in scenarios if "key" in s]
    for s in rng.sample(sc, min(len(sc), 60 if tier == "quick" else 700)):
        for dis in ("nominal", "bspline"):
            lv = rng.choice([1, 2])
            c = mk.mk_case(rng, "nested", lvs=(lv,), J=len(s["cats"]))
            c.update(src="spec", cats=list(s["cats"]), key=list(s["key"]), seed=rng.randrange(10 ** 6), n=2)
            c["opts"]["distractors"] = dis
            if lv > 1 and rng.random() < 0.5:
                c["rel"] = mk.mk_rel(rng, len(c["cats"]), lv)
                c["correct"]["rel"] = c["rel"]
            out.append(c)
    for i in range(20 if tier == "quick" else 200):
        c = mk.mk_case(rng, "nested", rel=rng.random() < 0.5, J=rng.choice([4, 6]))
        c.update(seed=rng.randrange(10 ** 6), n=3)
        out.append(c)
    return out


def run(case, rec):
    rng = random.Random(case["seed"])
    m = mk.build(case)
    mk.randomize(m, case, rng)
    cats, key, lv, n = case["cats"], case["key"], case["lv"], case["n"]
    J = len(cats)
    theta = torch.tensor([[rng.uniform(-2, 2) for _ in range(lv)] for _ in range(n)])
    x = mk.mk_data(rng, n, cats, 0.2)
    data, mask = mk.as_data(x)

    def go():
        with torch.no_grad():
            probs = m.item_probabilities(theta)
            binary = m.correct_response_model.item_probabilities(theta)
            xll = m.log_likelihood(data, m(theta), mask, loss_reduction="none").view(n, J)
            ex = m.expected_scores(theta)
        dis, cond, extra = "unknown", [], {}
        kind = case["opts"]["distractors"]
        inc = [c - 1 for c in cats]
        sd = m.state_dict()
        if kind == "nominal" and hasattr(m, "nominal_response_model"):
            _, cond, _ = mk.family(m.nominal_response_model, {"model": "nom", "cats": inc, "lv": lv})
            dis = "nominal"
        elif kind == "bspline" and "coefficients" in sd:
            knots = case["opts"].get("knots") or [-1.7, -0.7, 0, 0.7, 1.7]
            deg = case["opts"]["degree"]
            kn = [0.0] * (deg + 1) + torch.tensor(knots).sigmoid().tolist() + [1.0] * (deg + 1)
            nb = len(kn) - deg - 1
            rel = case.get("rel") or [[True] * lv] * J
            mask_ = torch.zeros(lv, nb, J, max(inc), dtype=torch.bool)
            for j in range(J):
                for v in range(lv):
                    if rel[j][v]:
                        mask_[v, :, j, :inc[j]] = True
            if int(mask_.sum()) == sd["coefficients"].numel():
                full = torch.zeros(mask_.shape)
                full[mask_] = sd["coefficients"]
                cond = [{"raw": [[nums(full[v, :, j, k]) for v in range(lv)] for k in range(inc[j])]} for j in range(J)]
                dis, extra = "bspline", {"kn": nums(kn), "degree": deg}
        # change the correct-response model only: the conditional distractor probabilities stay
        with torch.no_grad():
            for p in m.correct_response_model.parameters():
                p.add_(0.3)
            probs2 = m.item_probabilities(theta)
            binary2 = m.correct_response_model.item_probabilities(theta)
        r = {"cats": cats, "key": key, "theta": nums(theta), "probs": nums(probs), "binary": nums(binary), "probs2": nums(probs2), "binary2": nums(binary2),
             "cond": cond, "distractors": dis, "x": nums(x), "xll": nums(xll), "expected": nums(ex)}
        r.update(extra)
        return r
    guarded(rec, {"op": "nested"}, go)
