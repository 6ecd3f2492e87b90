"""Gradients and information are derivatives of the model's own curves: spec/Information.tla."""
import math, random
import torch
from core import num, nums, guarded
import modelkit as mk, evalkit as ek

SPEC = "InformationTrace"
MC = [{"module": "InformationMC", "cfg": "InformationMC.cfg", "thorough": "InformationMCdeep.cfg"}]
ASSUMPTIONS = ["slopes are judged by extrapolated central differences of the model's own probabilities (steps 1/16 and 1/8) where these agree to 1/100 with those of half the step"]
NAMES = ["1pl", "2pl", "3pl", "gpc", "gr", "nom", "nn", "poly", "bspline", "surprisal", "nested", "mix"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    out = []
    pool = sorted({(tuple(s["cats"]), str(s["scale"])): s for s in scenarios}.items())
    for _, s in rng.sample(pool, min(len(pool), 30 * k)):
        m = rng.choice(["gpc", "gr", "nom", "poly", "nn", "surprisal", "nested", "bspline"])
        c = mk.mk_case(rng, m, rel=rng.random() < 0.3, lvs=(2,), J=len(s["cats"]))
        c["cats"] = [int(x) for x in s["cats"]]
        if "key" in c:
            c["key"] = [rng.randrange(x) for x in c["cats"]]
        out.append({"src": "spec", "op": "slopes", "mcase": c, "scale": s["scale"], "n": 2, "seed": rng.randrange(10 ** 6)})
    for i in range(70 * k):
        m = NAMES[i % len(NAMES)]
        if m == "mix":
            lv = rng.choice([1, 2])
            parts = [mk.mk_case(rng, rng.choice(["2pl", "gpc", "gr", "3pl"]), lvs=(lv,), J=rng.choice([1, 2])) for _ in range(2)]
            for p in parts:
                p.pop("key", None)
            c = {"model": "mix", "parts": parts, "lv": lv, "cats": sum([p["cats"] for p in parts], [])}
        else:
            c = mk.mk_case(rng, m, rel=rng.random() < 0.3)
        out.append({"src": "random", "op": "slopes", "mcase": c, "scale": [], "n": rng.choice([1, 2, 4]), "seed": rng.randrange(10 ** 6)})
    return out


def run(case, rec):
    rng = random.Random(case["seed"])
    c = case["mcase"]
    lv, cats = c["lv"], c["cats"]
    model = ek.make(c, rng)
    model.eval()
    pick = lambda n: torch.tensor([[rng.uniform(-2, 2) for _ in range(lv)] for _ in range(n)])
    H = 1 / 16

    def shifted(t, h, dbl):
        with torch.no_grad():
            lo = torch.stack([model.item_probabilities(t - h * torch.eye(lv)[v]) for v in range(lv)], 1)
            hi = torch.stack([model.item_probabilities(t + h * torch.eye(lv)[v]) for v in range(lv)], 1)
        return lo, hi
    t = pick(case["n"] * 6)
    (l0, h0), (l1, h1), (l2, h2) = shifted(t, H / 2, 0), shifted(t, H, 0), shifted(t, 2 * H, 0)
    r = lambda l, h, L, Hh, s: (4 * (h - l) / (2 * s) - (Hh - L) / (4 * s)) / 3
    a, b = r(l1, h1, l2, h2, H), r(l0, h0, l1, h1, H / 2)
    with torch.no_grad():
        mid = model.item_probabilities(t)
    own = torch.zeros(len(cats), mid.shape[2], dtype=torch.bool)
    for j, m in enumerate(cats):
        own[j, :m] = True
    small = (mid + (~own).float()).flatten(1).min(1).values
    kink = ((h0 - mid.unsqueeze(1)) - (mid.unsqueeze(1) - l0)).abs().flatten(1).max(1).values / (H / 2)
    good = [i for i in range(len(t)) if (a[i] - b[i]).abs().max() < 0.003 and small[i] > 1e-3 and kink[i] < 0.1][:case["n"]]
    if not good:
        return
    t = t[good]
    key = ek.key_of(model)
    pts = [[(1 if k == key[j] else 0) if key else k for k in range(m)] for j, m in enumerate(cats)]
    rec({"op": "points", "lv": lv, "cats": cats, "pts": pts, "P": nums(mid[good]), "l1": nums(l1[good]), "h1": nums(h1[good]), "l2": nums(l2[good]), "h2": nums(h2[good]), "h": "1/16", "model": c["model"]})
    tol = "1/150"
    guarded(rec, {"op": "gradients", "tol": tol, "model": c["model"]}, lambda: {"G": nums(model.probability_gradients(t.clone(), rescale=False))})
    for by in (False, True):
        div = [(m - 1 if by and not key else 1) for m in cats]
        guarded(rec, {"op": "scoreslopes", "tol": "1/50", "by": div, "mean": False}, lambda: {"S": nums(model.expected_item_score_gradients(t.clone(), rescale_by_item_score=by, rescale=False))})
        if by:
            guarded(rec, {"op": "scoreslopes", "tol": "1/50", "by": div, "mean": True}, lambda: {"S": nums(model.population_discrimination(t.clone(), rescale=False))})
    guarded(rec, {"op": "information", "tol": "1/20", "model": c["model"]}, lambda: {"I": nums(model.information(t.clone(), rescale=False))})
    guarded(rec, {"op": "test"}, lambda: {"T": nums(model.information(t.clone(), item=False, rescale=False))})
    if lv > 1:
        deg = [rng.choice([0, 30, 45, 60, 90, 120]) for _ in range(lv)]
        cos = [math.cos(math.radians(d)) for d in deg]
        guarded(rec, {"op": "direction", "cos": nums(cos)},
                lambda: {"D": nums(model.information(t.clone(), degrees=list(deg), rescale=False)), "T": nums(model.information(t.clone(), item=False, degrees=list(deg), rescale=False))})
    if case["scale"] or rng.random() < 0.3:
        import stubs
        A = torch.eye(lv, dtype=torch.float64)
        for m in case["scale"]:
            A = torch.tensor(m, dtype=torch.float64) @ A
        if not case["scale"]:
            A = A * -1.5
        model.add_scale_transformation(stubs.Affine(A.T.tolist(), [0.3] * lv))
        guarded(rec, {"op": "rescaled", "A": nums(A)}, lambda: {"I": nums(model.information(t.clone()))})
