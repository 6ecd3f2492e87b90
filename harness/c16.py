"""Rank scales and outlier flags follow the reference sample: spec/Ranking.tla."""
import random
import torch
from core import num, nums, guarded
import modelkit as mk, evalkit as ek

SPEC = "RankingTrace"
MC = [{"module": "RankingMC", "cfg": "RankingMC.cfg", "thorough": "RankingMCdeep.cfg"}]
ASSUMPTIONS = ["a value within rounding of a bound, or of the middle between two reference values, may go to either side; values in halves are judged exactly"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    out = []
    pool = sorted({tuple(s["s"]) for s in scenarios})
    for i in range(60 * k):
        n = rng.choice([1, 2, 3, 4, 5])
        cols = [list(rng.choice([p for p in pool if len(p) == n])) for _ in range(rng.choice([1, 1, 2, 3]))]
        out.append(mk_one(rng, cols, "exact", "spec"))
    for i in range(50 * k):
        n = rng.choice([2, 3, 7, 20, 60])
        lv = rng.choice([1, 2, 3])
        kind = rng.choice(["exact", "float", "float", "skew", "far"])
        cols = [[float(rng.randrange(-20, 21)) / 2 if kind == "exact" else rng.gauss(0.3, 1.5) if kind != "skew" else rng.gauss(0, 1) ** 3 for _ in range(n)] for _ in range(lv)]
        if kind == "far":
            cols[0][0] = rng.choice([-50.0, 80.0])
        out.append(mk_one(rng, cols, "exact" if kind == "exact" else "float", "random"))
    return out


def mk_one(rng, cols, kind, src):
    lv = len(cols)
    return {"src": src, "op": "sample", "cols": cols, "kind": kind, "seed": rng.randrange(10 ** 6), "factor": rng.choice([1.0, 1.5, 1.5, 2.0, 4.0]),
            "dist": rng.choice([None, "one", "each"]), "double": rng.random() < 0.25, "models": rng.random() < 0.3, "lv": lv}


def mk_dist(rng):
    D = torch.distributions
    kind = rng.choice(["normal", "uniform", "laplace", "gumbel"])
    loc, scale = rng.choice([0.0, -1.5, 10.0]), rng.choice([1.0, 0.5, 3.0])
    d = {"normal": lambda: D.Normal(loc, scale), "uniform": lambda: D.Uniform(loc, loc + scale), "laplace": lambda: D.Laplace(loc, scale), "gumbel": lambda: D.Gumbel(loc, scale)}[kind]()
    return d, {"kind": kind, "loc": num(loc), "scale": num(scale)}


def run(case, rec):
    from irtorch.rescale import RankCDF
    from irtorch.outlier_detector import OutlierDetector
    rng = random.Random(case["seed"])
    dt = torch.float64 if case["double"] else torch.float32
    ref = torch.tensor(case["cols"], dtype=dt).T.contiguous()
    lv, n = case["lv"], ref.shape[0]
    if case["dist"] is None:
        dists, spec = None, [{"kind": "normal", "loc": "0", "scale": "1"}] * lv
    else:
        got = [mk_dist(rng) for _ in range(1 if case["dist"] == "one" else lv)]
        dists = [g[0] for g in got]
        spec = [got[min(i, len(got) - 1)][1] for i in range(lv)]
    rec({"op": "sample", "cols": nums(ref.T), "dist": spec, "factor": num(case["factor"]), "slack": "0" if case["kind"] == "exact" else "1/200000"})
    sample = ref.clone()
    # ---- scale
    half = lambda: float(rng.randrange(-24, 25)) / 2
    quarter = lambda a, b: (a + b) / 2
    rows = []
    for _ in range(rng.choice([1, 4, 7])):
        row = []
        for v in range(lv):
            c = case["cols"][v]
            row.append(rng.choice([rng.choice(c), half() if case["kind"] == "exact" else rng.gauss(0, 3), 1000.0, -1000.0, quarter(rng.choice(c), rng.choice(c))]))
        rows.append(row)
    theta = torch.tensor(rows, dtype=dt)
    scale = None
    def rank(t):
        nonlocal scale
        if scale is None:
            scale = RankCDF(sample, dists)
        return scale.transform(t)
    guarded(rec, {"op": "rank", "theta": nums(theta)}, lambda: {"out": nums(rank(theta.clone()))})
    guarded(rec, {"op": "rank", "theta": nums(ref)}, lambda: {"out": nums(rank(sample))})
    if case["models"] and scale is not None:
        m = mk.build({"model": "gpc", "cats": [3, 3], "lv": lv})
        m.add_scale_transformation(scale)
        t32 = theta.float()
        guarded(rec, {"op": "rank", "theta": nums(t32), "via": "model"}, lambda: {"out": nums(m.transform_theta(t32.clone()))})
        guarded(rec, {"op": "rank", "theta": nums(t32[:1]), "via": "model"}, lambda: {"out": nums(m.transform_theta(t32[:1].clone()))})
    rec({"op": "kept", "cols": nums(sample.T)})
    # ---- outliers
    det = OutlierDetector(factor=case["factor"])
    for lower, upper in ((True, True), (True, False), (False, True)):
        guarded(rec, {"op": "flags", "values": nums(ref), "lower": lower, "upper": upper}, lambda: {"flags": det.identify_outliers(sample, upper=upper, lower=lower).tolist()})
        guarded(rec, {"op": "flags", "values": nums(theta), "lower": lower, "upper": upper}, lambda: {"flags": det.is_outlier(theta.clone(), sample, upper=upper, lower=lower).tolist()})
    for smallest in (True, False):
        guarded(rec, {"op": "ends", "smallest": smallest}, lambda: {"out": nums(det.smallest_largest_non_outlier(sample, smallest=smallest).reshape(-1))})
    rec({"op": "kept", "cols": nums(sample.T)})
