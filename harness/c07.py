"""Mixtures of models against their parts (spec/Models.tla, Mix)."""
import random
import torch
from core import num, nums, guarded
import modelkit as mk

SPEC = "ModelsTrace"
MC = [{"module": "MixMC", "cfg": "MixMC.cfg", "thorough": "MixMCdeep.cfg"}]
ASSUMPTIONS = ["submodels score by category (keyed submodels are covered for probabilities and likelihoods only)"]
NAMES = ["1pl", "2pl", "3pl", "gpc", "gr", "nom", "poly", "nn", "bspline", "surprisal", "nested"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    picks = rng.sample(scenarios, min(len(scenarios), 50 if tier == "quick" else 500))
    for s in picks:
        out.append(mk_mix(rng, s["sizes"], src="spec"))
    for i in range(20 if tier == "quick" else 200):
        out.append(mk_mix(rng, [rng.choice([1, 2, 3, 4]) for _ in range(rng.choice([2, 3, 4]))], src="random"))
    for i in range(8 if tier == "quick" else 60):
        c = mk_mix(rng, [rng.choice([1, 2, 3]) for _ in range(rng.choice([1, 2, 3]))], src="random")
        c["op"] = "mix_rows"
        c["n"] = 1 if i % 2 else rng.choice([2, 3])
        c["single"] = len(c["parts"]) == 1 or c["n"] == 1
        out.append(c)
    return out


def mk_mix(rng, sizes, src):
    lv = rng.choice([1, 1, 2])
    parts = []
    for J in sizes:
        name = rng.choice([x for x in NAMES if lv == 1 or x != "1pl"])
        p = mk.mk_case(rng, name, rel=rng.random() < 0.3, lvs=(lv,), J=J)
        if name != "nested":
            p.pop("key", None)
        parts.append(p)
    return {"src": src, "op": "mix", "model": "mix", "lv": lv, "parts": parts, "seed": rng.randrange(10 ** 6), "n": rng.choice([1, 2, 3])}


def run(case, rec):
    rng = random.Random(case["seed"])
    m = mk.build(case)
    mk.randomize(m, case, rng)
    lv, n = case["lv"], case["n"]
    theta = torch.tensor([[rng.uniform(-1.5, 1.5) for _ in range(lv)] for _ in range(n)])
    cats = [c for p in case["parts"] for c in p["cats"]]
    x = mk.mk_data(rng, n, cats, 0.25)
    if all(v == -1 for r in x for v in r):
        x[0][0] = 0
    data, mask = mk.as_data(x)

    def rows():
        with torch.no_grad():
            ll = m.log_likelihood(data, m(theta), mask, loss_reduction="none").view(n, len(cats))
            return {"x": nums(x), "ll": nums(ll), "probs": nums(m.item_probabilities(theta))}

    def go():
        parts, off = [], 0
        subs = list(m.models)
        for p, sub in zip(case["parts"], subs):
            k = len(p["cats"])
            d, mm = data[:, off:off + k].contiguous(), mask[:, off:off + k].contiguous()
            with torch.no_grad():
                pr = sub.item_probabilities(theta)
                sums = [sub.log_likelihood(d[i:i + 1], sub(theta[i:i + 1]), mm[i:i + 1], loss_reduction="sum") if not bool(mm[i].all()) else torch.tensor(0.0) for i in range(n)]
            parts.append({"cats": p["cats"], "probs": nums(pr), "sums": [num(s) for s in sums], "grads": nums(sub.probability_gradients(theta))})
            off += k
        with torch.no_grad():
            probs = m.item_probabilities(theta)
            sums = [m.log_likelihood(data[i:i + 1], m(theta[i:i + 1]), mask[i:i + 1], loss_reduction="sum") for i in range(n)]
            tot = m.log_likelihood(data, m(theta), mask, loss_reduction="sum")
            ex = m.expected_scores(theta)
            sample = m.sample_test_data(theta.repeat(4, 1))
        return {"parts": parts, "cats": [int(c) for c in m.item_categories], "probs": nums(probs), "sums": [num(s) for s in sums], "sum": num(tot), "x": nums(x),
                "expected": nums(ex), "sample": nums(sample), "grads": nums(m.probability_gradients(theta))}
    guarded(rec, {"op": case["op"]}, rows if case["op"] == "mix_rows" else go)
