"""Bit scores count the change of item entropy from the starting point: spec/Bits.tla."""
import math, random
import torch
from core import num, nums, guarded
import modelkit as mk, evalkit as ek, stubs

SPEC = "BitsTrace"
MC = [{"module": "BitsMC", "cfg": "BitsMC.cfg", "thorough": "BitsMCdeep.cfg"}]
ASSUMPTIONS = ["judged where the scale's grid resolves the entropy curves: the totals along 120 points, 3000 points and the jump before the grid's end agree to 1/500",
               "a population has an odd number of respondents (its median is one of them)"]
NAMES = ["1pl", "2pl", "2pl", "3pl", "gpc", "gr", "nom", "nn", "mix", "nested"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    out = []
    pool = [s["path"] for s in scenarios]
    for i in range(70 * k):
        p = rng.choice(pool)
        tab = [[[eval(x) for x in d] for d in row] for row in p]
        if rng.random() < 0.3:
            tab = tab[::-1]
        cats = [len(d) for d in tab[0]]
        key = [rng.randrange(m) for m in cats] if rng.random() < 0.4 else None
        out.append({"src": "spec", "op": "tab", "tab": tab, "cats": cats, "key": key, "lv": rng.choice([1, 1, 2]), **opts(rng)})
    for i in range(70 * k):
        m = NAMES[i % len(NAMES)]
        if m == "mix":
            lv = rng.choice([1, 2])
            parts = [mk.mk_case(rng, rng.choice(["2pl", "gpc", "gr"]), lvs=(lv,), J=rng.choice([1, 2])) for _ in range(2)]
            for p in parts:
                p.pop("key", None)
            c = {"model": "mix", "parts": parts, "lv": lv, "cats": sum([p["cats"] for p in parts], [])}
        else:
            c = mk.mk_case(rng, m, lvs=(1, 1, 2))
        o = {"src": "random", "op": "model", "mcase": c, "lv": c["lv"], "cats": c["cats"], **opts(rng)}
        if c["lv"] > 1 and rng.random() < 0.6:
            o.update(pop=True, start="set")
        out.append(o)
    for i in range(24 * k):
        c = mk.mk_case(rng, rng.choice(["2pl", "gpc", "gr", "nom"]), lvs=(2,))
        out.append({"src": "random", "op": "model", "mcase": c, "lv": 2, "cats": c["cats"], **opts(rng), "pop": True, "start": "set"})
    for i in range(20 * k):
        cats = [rng.randint(2, 5) for _ in range(rng.choice([2, 3, 4]))]
        out.append({"src": "random", "op": "guess", "cats": cats, "key": [rng.randrange(m) for m in cats], "lv": rng.choice([1, 2]), "seed": rng.randrange(10 ** 6)})
    return out


def opts(rng):
    return {"seed": rng.randrange(10 ** 6), "start": rng.choice(["low", "low", "set", "reset"]), "pop": rng.random() < 0.4, "subset": rng.random() < 0.4, "via": rng.random() < 0.3, "n": rng.choice([1, 3, 6]), "beyond": rng.random() < 0.5}


def ent(model, theta, items):
    with torch.no_grad():
        p = model.item_probabilities(theta).double()
    return torch.special.entr(p).sum(2)[:, items] / math.log(2)


def tv(model, pts, items):
    h = ent(model, pts, items)
    return float((h[1:] - h[:-1]).abs().sum())


def run(case, rec):
    from irtorch.rescale import Bit
    rng = random.Random(case["seed"])
    lv, cats = case["lv"], case["cats"]
    J = len(cats)
    if case["op"] == "guess":
        return guess(case, rec, rng)
    if case["op"] == "tab":
        model = stubs.TabModel(case["tab"], cats, lv, case["key"], offset=1)
        rows = len(case["tab"])
        pick = lambda: float(rng.randint(-1, rows - 2)) + rng.choice([0, 0, 0.25, -0.25])
    else:
        model = ek.make(case["mcase"], rng)
        pick = lambda: rng.uniform(-2.5, 2.5)
    model.eval()
    key = ek.key_of(model)
    pts = [[(1 if k == key[j] else 0) if key else k for k in range(m)] for j, m in enumerate(cats)]
    eye = torch.eye(lv)
    with torch.no_grad():
        lo, hi = model.item_probabilities(-eye), model.item_probabilities(eye)
        w = torch.zeros(lo.shape[1:])
        for j, p in enumerate(pts):
            w[j, :len(p)] = torch.tensor(p, dtype=torch.float)
        gap = ((hi - lo) * w).sum((1, 2))
    if any(abs(float(gap[v])) < 1e-4 and not bool((lo[v] == hi[v]).all()) for v in range(lv)):      # no clear direction
        return
    sign = torch.where(gap < 0, -1.0, 1.0)
    items = sorted(rng.sample(range(J), rng.randint(1, J))) if case["subset"] else list(range(J))
    pop = None
    if case["pop"]:
        n = rng.choice([5, 21, 41])
        pop = torch.tensor([[pick() for _ in range(lv)] for _ in range(n)])
    start = None
    if case["start"] != "low":
        start = torch.tensor([float(rng.choice([-1.0, 0.0, rng.uniform(-1.5, 0.5)])) for _ in range(lv)]) * sign
    theta = torch.tensor([[pick() for _ in range(lv)] for _ in range(case["n"])])
    if pop is not None and rng.random() < 0.5:
        theta = pop[:case["n"]].clone()
    s0 = (start if start is not None else -10000 * sign) * sign
    adj = torch.maximum(theta * sign, s0)
    if pop is None:
        med, ends = torch.zeros(lv), [7.0] * lv
        begin = [-7.0] * lv
    else:
        padj = torch.maximum(pop * sign, s0)
        med, ends = padj.median(0).values, padj.max(0).values.tolist()
        begin = padj.min(0).values.tolist()
        if not case["beyond"] and (adj > padj.max(0).values).any():
            adj = torch.minimum(adj, padj.max(0).values)
            theta = torch.where(theta * sign > adj, adj * sign, theta)
        med_ok = all(float(med[v]) > float(s0[v]) for v in range(lv))
        from irtorch.outlier_detector import OutlierDetector
        if not med_ok or OutlierDetector(factor=4).identify_outliers(padj).any():
            return
        far = OutlierDetector(factor=4).is_outlier(s0.unsqueeze(0), padj).any()      # the way then enters at the population's first member
    # ---- paths the totals are counted along, and whether the scale's own grid can resolve them
    curves = []
    for v in range(lv):
        b = float(s0[v]) if float(s0[v]) > -1000 else min(begin[v], float(adj[:, v].min()))
        e = max(ends[v], float(adj[:, v].max()))

        def path(m):
            far = [-10000.0, -3000.0, -1000.0, -300.0, -100.0, -60.0, -40.0, -30.0, -20.0, -15.0, -10.0, -8.0] if float(s0[v]) == -10000.0 and m > 200 else []
            xs = torch.tensor(sorted({float(s0[v])} | {float(a) for a in adj[:, v]} | {float(a) for a in torch.linspace(b, e, m)} | {a for a in far if a < b}))
            row = med.repeat(len(xs), 1)
            row[:, v] = xs
            return xs, row * sign
        xs, row = path(120)
        fine = path(3000)[1]
        if abs(tv(model, row, items) - tv(model, fine, items)) > 1 / 500:
            return
        # the scale's own grid: the start, the population's range and the asked scores only
        lowest = begin[v] if pop is None or far else float(s0[v])
        for a in adj[:, v]:
            on = fine[fine[:, v] * sign[v] <= a]
            at = on[:, v] * sign[v]
            own = (at == float(s0[v])) | ((at >= lowest) & (at <= ends[v])) | (at == a)
            if abs(tv(model, on, items) - tv(model, on[own], items)) > 1 / 500:
                return
        curves.append((xs, row))
    bit = Bit(model, population_theta=pop.clone() if pop is not None else None, start_theta=start.clone() if case["start"] == "set" else None, items=list(items) if case["subset"] else None)
    if case["start"] == "reset":
        bit.set_start_theta(start.clone())
    cut = lambda p: [[p[i, j, :cats[j]] for j in range(J)] for i in range(p.shape[0])]
    P = lambda t: [[nums(d) for d in r] for r in cut(prob(model, t))]
    rec({"op": "scale", "lo": P(-eye), "hi": P(eye), "pts": pts, "items": items, "start": nums(start) if start is not None else []})
    for v, (xs, row) in enumerate(curves):
        rec({"op": "curve", "v": v + 1, "x": nums(row[:, v]), "P": P(row)})
    idx = [[1 + int((curves[v][0] - adj[i, v]).abs().argmin()) for v in range(lv)] for i in range(len(theta))]
    call = bit.transform
    if case["via"]:
        model.add_scale_transformation(bit)
        call = model.transform_theta
    guarded(rec, {"op": "bits", "theta": nums(theta), "idx": idx}, lambda: {"out": nums(call(theta.clone()))})
    if len(theta) > 1:
        o = rng.randrange(len(theta))
        guarded(rec, {"op": "bits", "theta": nums(theta[[o]]), "idx": [idx[o]]}, lambda: {"out": nums(call(theta[[o]].clone()))})
    # ---- one score for several variables
    if lv == 1:
        guarded(rec, {"op": "bits", "theta": nums(theta), "idx": idx}, lambda: {"out": nums(bit.transform_to_1D(theta.clone()))})
    elif pop is not None and start is not None and not far:
        n = 100
        lines = [torch.stack([s0 + (adj[i] - s0) * k / n for k in range(n + 1)]) * sign for i in range(min(3, len(theta)))]
        cap = [torch.minimum(a, padj.max(0).values) for a in adj]
        jump = [torch.cat([torch.stack([s0 + (cap[i] - s0) * k / 2500 for k in range(2501)]), adj[[i]]]) * sign for i in range(len(lines))]
        if all(abs(tv(model, p, items) - tv(model, q, items)) < 1 / 500 for p, q in zip(lines, jump)) and all(abs(tv(model, p, items) - tv(model, torch.stack([s0 + (adj[i] - s0) * k / 2500 for k in range(2501)]) * sign, items)) < 1 / 500 for i, p in enumerate(lines)):
            guarded(rec, {"op": "line", "theta": nums(theta[:len(lines)]), "paths": [nums(p) for p in lines], "P": [P(p) for p in lines]}, lambda: {"out": nums(bit.transform_to_1D(theta[:len(lines)].clone()))})
    else:
        guarded(rec, {"op": "ends", "P0": P((s0 * sign).unsqueeze(0))[0], "P": P(adj * sign)}, lambda: {"out": nums(bit.transform_to_1D(theta.clone()))})
    # ---- derivative
    if lv == 1 and case["op"] == "model":
        H = 1 / 16
        t = theta[(theta * sign)[:, 0] > float(s0[0]) + 0.01]
        def slopes(h):
            e = lambda d: ent(model, t + d, items)
            return (4 * (e(h) - e(-h)) / (2 * h) - (e(2 * h) - e(-2 * h)) / (4 * h)) / 3
        if len(t):
            keep = (slopes(H) - slopes(H / 2)).abs().max(1).values < 0.003
            t = t[keep]
        if len(t):
            guarded(rec, {"op": "slope", "l1": P(t - H), "h1": P(t + H), "l2": P(t - 2 * H), "h2": P(t + 2 * H), "h": num(H)}, lambda: {"J": nums(bit.jacobian(t.clone()))})


def prob(model, t):
    with torch.no_grad():
        return model.item_probabilities(t)


def guess(case, rec, rng):
    from irtorch.rescale import Bit
    cats, lv, J = case["cats"], case["lv"], len(case["cats"])
    model = stubs.TabModel(ek.mk_table(rng, 9, cats), cats, lv, case["key"], offset=4)
    n = rng.choice([1, 7, 31])
    how = rng.choice(["init", "init", "call", "items"])
    never = rng.random() < 0.4
    items = sorted(rng.sample(range(J), rng.randint(1, J))) if how == "items" else list(range(J))
    seen = {}
    real = model.latent_scores

    def scores(data, *a, **kw):
        out = real(data, *a, **kw)
        seen["data"] = torch.where(data.isnan(), -1.0, data).int().tolist()
        out = torch.tensor([[round(rng.gauss(0, 1), 3) for _ in range(lv)] for _ in range(len(data))])
        seen["scores"] = out.clone()
        return out
    model.latent_scores = scores
    kw = {"guessing_iterations": n}
    if never:
        kw["guessing_probabilities"] = [0.0] * len(items)

    def go():
        if how == "init":
            b = Bit(model, mc_start_theta_approx=True, **kw)
        else:
            b = Bit(model)
            if how == "items":
                kw["items"] = list(items)
            b.bit_score_starting_theta_mc(theta_estimation="ML", **kw)
        return {"start": nums(b._start_theta), "data": seen["data"], "scores": nums(seen["scores"])}
    rec({"op": "scale", "lo": [[["1"]]] * lv, "hi": [[["1"]]] * lv, "pts": [[0]], "items": [0], "start": []})
    guarded(rec, {"op": "guess", "n": n, "cats": cats, "items": items, "key": case["key"], "never": never}, go)
