"""Response models against the published formulas of spec/Models.tla."""
import random
import torch
from core import num, nums, guarded
import modelkit as mk

SPEC = "ModelsTrace"
MC = [{"module": "ModelsMC", "cfg": "ModelsMC.cfg", "thorough": "ModelsMCdeep.cfg"}]
ASSUMPTIONS = ["single precision results are compared with 1e-5 absolute tolerance on probabilities",
               "graded response thresholds are ordered (the model does not define a distribution otherwise)"]
NAMES = ["1pl", "2pl", "3pl", "gpc", "gr", "nom", "poly", "nn", "bspline", "surprisal", "nested"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    for name in NAMES:
        for i in range(9 if tier == "quick" else 120):
            c = mk.mk_case(rng, name, rel=rng.random() < 0.4)
            c.update(op="formula", seed=rng.randrange(10 ** 6), fresh=(i == 0), n=rng.choice([1, 2, 3]))
            out.append(c)
    for name in NAMES:
        if name in mk.BINARY:
            continue
        for i in range(2 if tier == "quick" else 20):
            c = mk.mk_case(rng, name, lvs=(1, 2))
            c.update(op="init", seed=rng.randrange(10 ** 6), n=rng.choice([2, 5, 9]))
            out.append(c)
    for name in ["poly", "nn", "bspline"]:
        for i in range(8 if tier == "quick" else 80):
            c = mk.mk_case(rng, name, rel=rng.random() < 0.3)
            c.update(op="curves", seed=rng.randrange(10 ** 6))
            out.append(c)
    return out


def run(case, rec):
    rng = random.Random(case["seed"])
    {"formula": run_formula, "curves": run_curves, "init": run_init}[case["op"]](case, rec, rng)


def run_init(case, rec, rng):
    from irtorch import models as M
    cats, n, lv = case["cats"], case["n"], case["lv"]
    x = mk.mk_data(rng, n, cats, 0.3)
    for j, c in enumerate(cats):
        x[rng.randrange(n)][j] = c - 1
    data, mask = mk.as_data(x)
    kw = {"data": data, "latent_variables": lv}
    cls = {"gpc": M.GeneralizedPartialCredit, "gr": M.GradedResponse, "nom": M.NominalResponse, "poly": M.MonotonePolynomial, "nn": M.MonotoneNN,
           "bspline": M.MonotoneBSpline, "surprisal": M.SurprisalSpline}

    def go():
        if case["model"] == "nested":
            m = M.NestedLogit(case["key"], M.TwoParameterLogistic(items=len(cats), latent_variables=lv), **kw)
        else:
            m = cls[case["model"]](**kw)
        with torch.no_grad():
            p = m.item_probabilities(torch.zeros(1, lv))[0]
        return {"cats": [int(c) for c in m.item_categories], "x": nums(x), "probs": nums(p)}
    guarded(rec, {"op": "init", "model": case["model"]}, go)


def build(case, rng):
    m = mk.build(case)
    if not case.get("fresh"):
        mk.randomize(m, case, rng)
    return m


def run_formula(case, rec, rng):
    m = build(case, rng)
    cats, lv, n = case["cats"], case["lv"], case["n"]
    J, mx = len(cats), max(cats)
    theta = torch.tensor([[rng.choice([-3, -1.5, -0.4, 0, 0.3, 1.2, 2.5]) + rng.uniform(-0.2, 0.2) for _ in range(lv)] for _ in range(n)])
    x = mk.mk_data(rng, n, cats)
    data, mask = mk.as_data(x)

    def go():
        with torch.no_grad():
            probs = m.item_probabilities(theta)
            out = m(theta)
            ll = []
            for k in range(mx):
                d = torch.tensor([[min(k, c - 1) for c in cats]] * n).float()
                ll.append(m.log_likelihood(d, m(theta), loss_reduction="none").view(n, J))
            zeroed = data.clone()
            zeroed[mask] = 0
            xll = m.log_likelihood(data, m(theta), mask, loss_reduction="none").view(n, J)
            xs = m.log_likelihood(zeroed, out, mask, loss_reduction="sum")
        fam, par, extra = mk.family(m, case)
        irt = []
        if fam in ("2pl", "3pl", "gpc", "gr") and lv == 1:
            df = m.item_parameters(irt_format=True)
            for j in range(J):
                bs = ["b"] if fam in ("2pl", "3pl") else [f"b{k + 1}" for k in range(cats[j] - 1)]
                irt.append({"a": num(float(df["a1"][j])), "b": [num(float(df[b][j])) for b in bs]})
        r = {"family": fam, "lv": lv, "cats": cats, "max": mx, "theta": nums(theta), "probs": nums(probs), "ll": nums(ll and torch.stack(ll)),
             "par": par, "x": nums(x), "xll": nums(xll), "xsum": num(xs), "irt": irt}
        r.update(extra)
        return r
    guarded(rec, {"op": "formula", "model": case["model"]}, go)


def wider(m, case, v, grid):
    """the same items' probabilities when the last item has two more categories than here (parameters of the other items unchanged)"""
    if case["model"] != "nn" or len(case["cats"]) < 2:
        return []
    other = mk.build(dict(case, cats=case["cats"][:-1] + [case["cats"][-1] + 2]))
    with torch.no_grad():
        for (name, p), q in zip(m.named_parameters(), other.parameters()):
            if p.dim() != q.dim() or p.dim() > 1 or q.numel() < p.numel():
                return []
            q[:p.numel()] = p
        th = torch.tensor([[g if u == v else 0.0 for u in range(case["lv"])] for g in grid])
        return nums(other.item_probabilities(th))


def run_curves(case, rec, rng):
    m = build(case, rng)
    cats, lv = case["cats"], case["lv"]
    for v in range(lv):
        grid = sorted(rng.uniform(-2.5, 2.5) for _ in range(5))

        def go():
            probs = []
            for o in ([0.0] * lv, [rng.uniform(-1, 1) for _ in range(lv)]) if lv > 1 else ([0.0],):
                th = torch.tensor([[g if u == v else o[u] for u in range(lv)] for g in grid])
                with torch.no_grad():
                    probs.append(nums(m.item_probabilities(th)))
            dirs = mk.directions(m, torch.zeros(1, lv))
            rel = case.get("rel") or [[True] * lv for _ in cats]
            neg = case.get("opts", {}).get("neg", False) and case["model"] != "bspline"
            dv = [dirs[j][v] if neg else ("1" if rel[j][v] else "0") for j in range(len(cats))]
            return {"cats": cats, "grid": nums(grid), "probs": probs, "dirs": dv, "key": case.get("key") or [], "separate": case["opts"]["separate"],
                    "wider": wider(m, case, v, grid)}
        guarded(rec, {"op": "curves", "model": case["model"]}, go)
