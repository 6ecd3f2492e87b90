"""Item - latent relationships against spec/Models.tla (Depend)."""
import random
import torch
from core import num, nums, guarded
import modelkit as mk

SPEC = "ModelsTrace"
MC = [{"module": "RelationsMC", "cfg": "RelationsMC.cfg", "thorough": "RelationsMCdeep.cfg"}]
ASSUMPTIONS = ["parameters are generic (no parameter of a declared pair is exactly zero)"]
NAMES = ["2pl", "3pl", "gpc", "gr", "nom", "poly", "nn", "surprisal", "nested"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    by = {}
    for s in scenarios:
        by.setdefault(len(s["rel"]) * 10 + len(s["rel"][0]), []).append(s["rel"])
    for name in NAMES:
        for k in sorted(by):
            rels = by[k]
            for rel in rng.sample(rels, min(len(rels), 7 if tier == "quick" else 60)):
                c = mk.mk_case(rng, name, lvs=(len(rel[0]),), J=len(rel))
                c["rel"] = rel
                if name == "nested":
                    c["correct"] = {"model": rng.choice(["2pl", "3pl"]), "rel": rel}
                    if all(m == 2 for m in c["cats"]):
                        c["cats"][0] = 3
                c.update(src="spec", op="depend", seed=rng.randrange(10 ** 6))
                out.append(c)
        for i in range(2 if tier == "quick" else 25):
            J, lv = rng.choice([5, 8]), rng.choice([3, 4])
            c = mk.mk_case(rng, name, lvs=(lv,), J=J)
            c["rel"] = mk.mk_rel(rng, J, lv)
            if name == "nested":
                c["correct"] = {"model": "2pl", "rel": c["rel"]}
            c.update(op="depend", seed=rng.randrange(10 ** 6))
            out.append(c)
    for name in ["nom", "surprisal"]:
        for i in range(5 if tier == "quick" else 60):
            c = mk.mk_case(rng, name, rel=rng.random() < 0.5, lvs=(1, 2, 2))
            c.update(op="directions", seed=rng.randrange(10 ** 6), n=rng.choice([8, 12, 20]), corr=rng.choice([0.0, 0.8, -0.8]))
            out.append(c)
    return out


def run_directions(case, rec, rng):
    """models without relationship parameters report the direction of the regression over a population"""
    m = mk.build(case)
    mk.randomize(m, case, rng)
    lv, key = case["lv"], case.get("key")
    theta = []
    for _ in range(case["n"]):
        a, b = rng.gauss(0, 1), rng.gauss(0, 1)
        theta.append([a + 0.3, case["corr"] * a + 0.6 * b - 0.2][:lv])
    theta = torch.tensor(theta)

    def go():
        with torch.no_grad():
            p = m.item_probabilities(theta)
        return {"theta": nums(theta), "probs": nums(p), "key": key or [], "dirs": mk.directions(m, theta)}
    guarded(rec, {"op": "directions", "model": case["model"]}, go)


def run(case, rec):
    rng = random.Random(case["seed"])
    if case["op"] == "directions":
        return run_directions(case, rec, rng)
    m = mk.build(case)
    mk.randomize(m, case, rng)
    cats, lv, rel = case["cats"], case["lv"], case["rel"]
    J = len(cats)
    base = torch.tensor([[rng.uniform(-1.2, 1.0) for _ in range(lv)] for _ in range(3)])
    step = rng.choice([-0.9, 0.9])

    def go():
        with torch.no_grad():
            b = m.item_probabilities(base)
            alt = []
            for v in range(lv):
                t = base.clone()
                t[:, v] += step
                alt.append(m.item_probabilities(t))
        weights, dirs, signed = [], [], False
        name = case["model"]
        if name in ("2pl", "3pl", "gpc", "gr", "nom"):
            df = m.item_parameters()
            if name == "nom":
                mx = max(cats)
                weights = [[num(max(abs(float(df[f"a{v + 1}{k + 1}"][j])) for k in range(mx))) for v in range(lv)] for j in range(J)]
            else:
                weights = [[num(abs(float(df[f"a{v + 1}"][j]))) for v in range(lv)] for j in range(J)]
        if name in ("2pl", "3pl", "gpc", "gr", "poly", "nn"):
            dirs = mk.directions(m, base)
            signed = not case.get("key")
        return {"rel": rel, "base": nums(b), "alt": [nums(a) for a in alt], "weights": weights, "dirs": dirs, "signed": signed, "step": num(step)}
    guarded(rec, {"op": "depend", "model": case["model"]}, go)
