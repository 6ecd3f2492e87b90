"""Scale transformations are one-to-one and report their own derivative: spec/Rescale.tla."""
import random
import torch
from core import num, nums, guarded, seed_all
import modelkit as mk, evalkit as ek, scales as sc

SPEC = "RescaleTrace"
MC = [{"module": "RescaleMC", "cfg": "RescaleMC.cfg", "thorough": "RescaleMCdeep.cfg"}]
ASSUMPTIONS = ["derivatives are judged by central differences (steps 0.02 and 0.01) where the two agree to 1/200 and the one-sided ones to 3/100",
               "spline inverses are judged to 1/200 (32-bit arithmetic)",
               "linking is judged on pairs of models whose scales are related by a known monotone map"]
KINDS = {1: ["affine", "reverse", "rotate", "flow", "flow", "link", "link", "link", "bit"], 2: ["reverse", "rotate", "rotate_fit", "flow", "flow"], 3: ["reverse", "rotate", "rotate_fit", "flow"]}


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    k = 1 if tier == "quick" else 10
    known = sorted({o for s in scenarios for o in s if o != "detach"})
    for o in known:
        from c04 import KNOWN
        out.append({"src": "spec", "op": "scale", "lv": 2, "scale": KNOWN[o], "seed": rng.randrange(10 ** 6), "model": "gpc"})
    for i in range(110 * k):
        lv = rng.choice([1, 1, 1, 2, 3])
        out.append({"src": "random", "op": "scale", "lv": lv, "scale": sc.mk_scale(rng, lv, KINDS[lv]), "seed": rng.randrange(10 ** 6), "model": rng.choice(["gpc", "nom", "gr", "2pl"])})
    for i in range(10 * k):
        out.append({"src": "random", "op": "link", "method": rng.choice(["spline", "neuralnet"]), "inverted": rng.random() < 0.4, "seed": rng.randrange(10 ** 6),
                    "a": rng.uniform(0.7, 1.4), "b": rng.uniform(-0.6, 0.6), "extra": [rng.randint(2, 4), rng.randint(2, 4)], "common": rng.choice([2, 3]), "batch": rng.choice([None, 40])})
    return out


def run(case, rec):
    rng = random.Random(case["seed"])
    if case["op"] == "link":
        return run_link(case, rec, rng)
    lv, o = case["lv"], case["scale"]
    c = mk.mk_case(rng, case["model"], lvs=(lv,), J=4)
    model = ek.make(c, rng)
    rec({"op": "model"})
    try:
        s, info = sc.build(o, model, lv)
    except Exception as ex:
        return guarded(rec, {"op": "build", "kind": o["kind"]}, lambda: (_ for _ in ()).throw(ex))
    lo, hi = (-2.5, 2.5) if not o.get("pop") else (-1.4, 1.4)      # a population sample gives the bit scale its grid
    if o["kind"] == "bit" and o["start"] is not None:      # the scale starts there, in the direction of better scores
        with torch.no_grad():
            e = model.expected_scores(torch.tensor([[-1.0], [1.0]]), return_item_scores=False)
        lo, hi = (o["start"] + 0.1, max(hi, o["start"] + 1)) if e[1] >= e[0] else (min(lo, o["start"] - 1), o["start"] - 0.1)
    theta = torch.tensor([[rng.uniform(lo, hi) for _ in range(lv)] for _ in range(6)])
    if o["kind"] in ("flow", "link"):
        theta[0] = rng.choice([-9.0, 9.0])
    T = lambda t: s(t.clone()).detach()
    if info["jac"]:
        def deriv(h):
            lo, hi = [], []
            for v in range(lv):
                e = torch.zeros(lv)
                e[v] = h
                lo.append(T(theta - e))
                hi.append(T(theta + e))
            return torch.stack(lo, 1), torch.stack(hi, 1)

        def do():
            (l1, h1), (l2, h2) = deriv(0.02), deriv(0.01)
            d1, d2 = (h1 - l1) / 0.04, (h2 - l2) / 0.02
            y = T(theta).unsqueeze(1)
            left, right = (y - l2) / 0.01, (h2 - y) / 0.01      # apart at a kink
            ok = [i for i in range(len(theta)) if ((d1[i] - d2[i]).abs() <= 0.005 * (1 + d2[i].abs())).all() and ((left[i] - right[i]).abs() <= 0.03 * (1 + d2[i].abs())).all()]
            J = s.jacobian(theta.clone()).detach()
            return {"J": nums(J[ok]), "lo": nums(l2[ok]), "hi": nums(h2[ok]), "h": "1/100", "tol": "1/40"}
        guarded(rec, {"op": "derivative", "kind": o["kind"]}, do)
    if info["inv"]:
        kinds = {"kind": info["kind"], "A": info["A"], "b": info["b"]}
        rec({"op": "add", "scale": kinds})

        def there():
            y = T(theta)
            return {"theta": nums(theta), "stages": [nums(y)], "out": nums(y), "back": nums(s.inverse(y.clone()).detach()), "backtol": "1/5000" if info["exact"] else "1/200"}
        guarded(rec, {"op": "map", "kind": o["kind"]}, there)

        def back():      # the other way round
            y = T(theta)
            y[1:] = y[1:] + torch.tensor([[rng.uniform(-0.2, 0.2) for _ in range(lv)] for _ in range(5)])
            t = s.inverse(y.clone()).detach()
            z = T(t)
            return {"theta": nums(t), "stages": [nums(z)], "out": nums(y), "back": [], "backtol": "1/200"}
        guarded(rec, {"op": "map" if info["exact"] else "map", "kind": o["kind"], "dir": "back"}, back) if info["exact"] else \
            guarded(rec, {"op": "increase", "kind": o["kind"], "dir": "back"}, lambda: (lambda r: {"theta": r["out"], "back": r["stages"][0], "out": r["out"], "sign": [0] * lv, "backtol": "1/200"})(back()))
    if o["kind"] == "rotate_fit":
        def rotated():
            kw = info["built"]
            given = kw["loadings"] if "loadings" in kw else model.expected_item_score_gradients(kw["theta"].clone(), rescale=False).mean(0)
            after = []
            if "theta" in kw:      # the model's own loadings on the scale it now has
                model.add_scale_transformation(s)
                after = nums(model.expected_item_score_gradients(kw["theta"].clone(), rescale=True).mean(0))
                model.detach_scale_transformations()
            return {"L": nums(given), "M": nums(T(torch.eye(lv))), "R": nums(s.rot_loadings), "after": after, "simple": o["method"] == "varimax"}
        guarded(rec, {"op": "rotated", "kind": o["kind"], "method": o["method"]}, rotated)
    if o["kind"] in ("flow", "link", "reverse"):
        sign = [1] * lv
        if o["kind"] == "link" and o["inverted"]:
            sign = [-1]
        if o["kind"] == "reverse":
            sign = [-1 if f else 1 for f in o["flags"]]
        g = torch.linspace(-9, 9, 41).view(-1, 1).repeat(1, lv)
        if o["kind"] == "link" and o["method"] == "neuralnet":
            g = g / 3            # bounded activations flatten far out

        def inc():
            y = T(g)
            return {"theta": nums(g), "out": nums(y), "sign": sign, "back": nums(s.inverse(y.clone()).detach()) if info["inv"] else [], "backtol": "1/200"}
        guarded(rec, {"op": "increase", "kind": o["kind"]}, inc)
    if o["kind"] == "reverse" or (o["kind"] == "rotate" and o["ortho"]) or (o["kind"] == "rotate_fit" and o["method"] in ("varimax", "quartimax")):
        guarded(rec, {"op": "distance", "kind": o["kind"], "acts": o.get("flags", [True] * lv)}, lambda: {"theta": nums(theta), "out": nums(T(theta))})


def run_link(case, rec, rng):
    """Two models of the same items whose scales are related by theta_to = +-a theta_from + b."""
    from irtorch.rescale import LinkCommonItems
    import stubs
    a, b, k = case["a"] * (-1 if case["inverted"] else 1), case["b"], case["common"]
    cats = [rng.randint(2, 4) for _ in range(k)]
    slope = [rng.uniform(0.7, 1.6) for _ in cats]
    steps = [[rng.uniform(-1, 1) for _ in range(m - 1)] for m in cats]
    own = [[0.3] * (m - 1) for m in case["extra"]]
    mf = stubs.Curves(slope + [1.0], steps + [own[0]])
    # slope k theta_from + d = (slope/a) k (a theta_from + b) + d - slope k b / a
    mt = stubs.Curves([1.0] + [s / a for s in slope], [own[1]] + [[d - s * (q + 1) * b / a for q, d in enumerate(st)] for s, st in zip(slope, steps)])
    fi, ti = list(range(k)), list(range(1, k + 1))
    theta = torch.tensor([[rng.gauss(0, 1)] for _ in range(80)])
    grid = torch.linspace(-2, 2, 15).view(-1, 1)

    def probs(m, idx, t):
        with torch.no_grad():
            p = m.item_probabilities(t)
        return [[nums(p[i, j, :c]) for j, c in zip(idx, cats)] for i in range(t.shape[0])]
    rec({"op": "model"})

    def go():
        link = LinkCommonItems(mf, mt, fi, ti, method=case["method"], inverted=case["inverted"])
        with torch.no_grad():
            before = link(grid.clone())
        link.fit(theta, batch_size=case["batch"], max_epochs=250, learning_rate=0.03, device="cpu")
        with torch.no_grad():
            after = link(grid.clone())
        return {"P": probs(mf, fi, grid), "Q0": probs(mt, ti, before), "Q1": probs(mt, ti, after), "Qtrue": probs(mt, ti, a * grid + b),
                "true": nums(a * grid + b), "out": nums(after)}
    guarded(rec, {"op": "link", "method": case["method"], "sign": -1 if case["inverted"] else 1}, go)
