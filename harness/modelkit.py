"""Building real models with arbitrary parameters and reading back what the specification needs."""
import random
import torch
from core import num, nums


def rel_tensor(rel):
    return None if rel is None else torch.tensor(rel, dtype=torch.bool)


def build(c):
    """c: {model, cats, lv, rel?, key?, opts?}"""
    from irtorch import models as M
    o = c.get("opts", {})
    name, cats, lv = c["model"], c.get("cats"), c["lv"]
    rel = rel_tensor(c.get("rel"))
    if name == "1pl":
        return M.OneParameterLogistic(items=len(cats))
    if name == "2pl":
        return M.TwoParameterLogistic(latent_variables=lv, items=len(cats), item_theta_relationships=rel)
    if name == "3pl":
        return M.ThreeParameterLogistic(latent_variables=lv, items=len(cats), item_theta_relationships=rel)
    if name == "gpc":
        return M.GeneralizedPartialCredit(latent_variables=lv, item_categories=list(cats), item_theta_relationships=rel)
    if name == "gr":
        return M.GradedResponse(latent_variables=lv, item_categories=list(cats), item_theta_relationships=rel)
    if name == "nom":
        return M.NominalResponse(latent_variables=lv, item_categories=list(cats), item_theta_relationships=rel, mc_correct=c.get("key"))
    if name == "poly":
        return M.MonotonePolynomial(latent_variables=lv, item_categories=list(cats), item_theta_relationships=rel, degree=o.get("degree", 3),
                                    separate=o.get("separate", "categories"), negative_latent_variable_item_relationships=o.get("neg", True))
    if name == "nn":
        return M.MonotoneNN(latent_variables=lv, item_categories=list(cats), item_theta_relationships=rel, hidden_dim=o.get("hidden"), mc_correct=c.get("key"),
                            separate=o.get("separate", "categories"), negative_latent_variable_item_relationships=o.get("neg", True),
                            use_bounded_activation=o.get("bounded", True))
    if name == "bspline":
        return M.MonotoneBSpline(latent_variables=lv, item_categories=list(cats), knots=o.get("knots"), degree=o.get("degree", 3), separate=o.get("separate", "items"))
    if name == "surprisal":
        return M.SurprisalSpline(latent_variables=lv, item_categories=list(cats), item_theta_relationships=rel, knots=o.get("knots"), degree=o.get("degree", 3))
    if name == "nested":
        correct = build(dict(c["correct"], cats=[2] * len(cats), lv=lv))
        return M.NestedLogit(list(c["key"]), correct, incorrect_response_model=o.get("distractors", "nominal"), latent_variables=lv, item_categories=list(cats),
                             item_theta_relationships=rel, degree=o.get("degree", 3), knots=o.get("knots"))
    if name == "mix":
        return M.ModelMix([build(dict(p, lv=lv)) for p in c["parts"]])
    raise ValueError(name)


@torch.no_grad()
def randomize(model, c, rng):
    """Give every parameter a random value (ordered thresholds where the model needs them)."""
    g = torch.Generator().manual_seed(rng.randrange(10 ** 9))
    if c["model"] == "mix":
        for sub, p in zip(model.models, c["parts"]):
            randomize(sub, p, rng)
        return
    if c["model"] == "nested":
        randomize(model.correct_response_model, dict(c["correct"], cats=[2] * len(c["cats"]), lv=c["lv"]), rng)
    skip = {id(p) for p in model.correct_response_model.parameters()} if c["model"] == "nested" else set()
    for name, p in model.named_parameters():
        if id(p) in skip:
            continue
        u = torch.rand(p.shape, generator=g) * 2 - 1
        if c["model"] == "gr" and name == "bias_param":
            vals = []
            for m in c["cats"]:
                v = sorted((rng.uniform(-2, 2) for _ in range(m - 1)), reverse=True)
                v = [x - 0.1 * i for i, x in enumerate(v)]
                vals += v
            p.copy_(torch.tensor(vals))
        elif name.endswith("tau"):
            p.copy_(u * 2 - 2)
        elif name.endswith("alpha"):
            p.copy_(u * 0.5)
        elif name.endswith("omega"):
            p.copy_(u - 0.5)
        elif "guessing" in name:
            p.copy_(u * 1.5 - 1)
        elif name.endswith("coefficients") or "raw_weight" in name:
            p.copy_(u * 1.5 - 1)
        elif name.endswith("directions") or "negation" in name:
            p.copy_(torch.sign(u) * (0.2 + u.abs()))
        else:
            p.copy_(torch.sign(u) * (0.05 + 1.3 * u.abs()))


def nested_list(t):
    return nums(t)


def family(model, c):
    """(family, per-item parameters, extra fields) for the specification; family "law" when the
    model does not expose the parameters of its formula."""
    name, cats, lv = c["model"], c.get("cats"), c["lv"]
    J, mx = len(cats), max(cats)
    o = c.get("opts", {})
    if name in ("1pl", "2pl", "3pl", "gpc", "gr", "nom"):
        df = model.item_parameters()
        col = lambda n: [float(x) for x in df[n].values]
        par = []
        if name == "nom":
            a = [[col(f"a{v + 1}{k + 1}") for k in range(mx)] for v in range(lv)]
            d = [col(f"d{k + 1}") for k in range(mx)]
            return "nom", [{"a": [[num(a[v][k][j]) for v in range(lv)] for k in range(cats[j])], "d": [num(d[k][j]) for k in range(cats[j])]} for j in range(J)], {}
        if name != "1pl":
            a = [col(f"a{v + 1}") for v in range(lv)]
        for j in range(J):
            q = {} if name == "1pl" else {"a": [num(a[v][j]) for v in range(lv)]}
            if name in ("1pl", "2pl", "3pl"):
                q["d"] = num(col("d")[j])
            if name == "3pl":
                q["c"] = num(col("c")[j])
            if name == "gpc":
                q["d"] = [num(col(f"d{k + 1}")[j]) for k in range(cats[j])]
            if name == "gr":
                q["d"] = [num(col(f"d{k + 1}")[j]) for k in range(cats[j] - 1)]
            par.append(q)
        return name, par, {}
    sd = {k: v.detach() for k, v in model.state_dict().items()}
    try:
        return formula_from_state(name, model, c, sd, cats, lv, J, mx, o)
    except (KeyError, IndexError, RuntimeError):
        return "law", [], {}


def formula_from_state(name, model, c, sd, cats, lv, J, mx, o):
    rel = c.get("rel") or [[True] * lv for _ in range(J)]
    offs = [sum(cats[:j]) for j in range(J)]
    if name == "poly":
        sep = o.get("separate", "categories")
        om, al, ta = sd["mono_poly.omega"], sd["mono_poly.alpha"], sd["mono_poly.tau"]
        n = J if sep == "items" else J * mx
        assert_shape(om, (1, lv, n))
        bias = sd["bias_param"]
        par = []
        for j in range(J):
            dirs = [(float(sd["mono_poly.directions"][v, j]) if o.get("neg", True) else 1.0) * (1.0 if rel[j][v] else 0.0) for v in range(lv)]
            q = {"dir": nums(dirs), "d": nums(bias[offs[j]:offs[j] + cats[j]])}
            if sep == "items":
                q.update(omega=nums(om[0, :, j]), alpha=[nums(al[:, v, j]) for v in range(lv)], tau=[nums(ta[:, v, j]) for v in range(lv)])
            else:
                ks = [j * mx + k for k in range(cats[j])]
                q.update(omega=[nums(om[0, :, k]) for k in ks], alpha=[[nums(al[:, v, k]) for v in range(lv)] for k in ks], tau=[[nums(ta[:, v, k]) for v in range(lv)] for k in ks])
            par.append(q)
        return "poly_" + sep, par, {}
    knots = o.get("knots") or [-1.7, -0.7, 0, 0.7, 1.7]
    deg = o.get("degree", 3)
    inner = torch.tensor(knots).sigmoid()
    kn = [0.0] * (deg + 1) + inner.tolist() + [1.0] * (deg + 1)
    extra = {"kn": nums(kn), "degree": deg}
    nb = len(kn) - deg - 1
    if name == "bspline":
        sep = o.get("separate", "items")
        co = sd["coefficients"]
        bias = sd["bias_param"]
        boff = [sum(cats[:j]) - j for j in range(J)]
        par = []
        if sep == "items":
            assert_shape(co, (lv, nb, J, 1))
            for j in range(J):
                par.append({"raw": [nums(co[v, :, j, 0]) for v in range(lv)], "d": nums(bias[boff[j]:boff[j] + cats[j] - 1])})
        else:
            full = torch.zeros(lv, nb, J, mx)
            mask = torch.zeros(lv, nb, J, mx, dtype=torch.bool)
            for j in range(J):
                mask[:, :, j, 1:cats[j]] = True
            full[mask] = co
            for j in range(J):
                par.append({"raw": [[nums(full[v, :, j, k]) for v in range(lv)] for k in range(1, cats[j])], "d": nums(bias[boff[j]:boff[j] + cats[j] - 1])})
        return "spline_" + sep, par, extra
    if name == "surprisal":
        co = sd["coefficients"]
        full = torch.zeros(lv, nb, J, mx - 1)
        mask = torch.zeros(lv, nb, J, mx - 1, dtype=torch.bool)
        for j in range(J):
            for v in range(lv):
                if rel[j][v]:
                    mask[v, :, j, mx - cats[j]:] = True
        full[mask] = co
        par = [{"rel": [bool(x) for x in rel[j]], "raw": [[nums(full[v, :, j, mx - cats[j] + m]) for v in range(lv)] for m in range(cats[j] - 1)]} for j in range(J)]
        return "surprisal", par, extra
    return "law", [], {}


def assert_shape(t, s):
    if tuple(t.shape) != tuple(s):
        raise KeyError("layout")


def directions(model, theta):
    """Reported item - latent directions, or None where the model derives them by regression."""
    return nums(model.item_theta_relationship_directions(theta).float())


def mk_cats(rng, J, binary=False, lo=2, hi=5):
    return [2] * J if binary else [rng.randint(lo, hi) for _ in range(J)]


def mk_rel(rng, J, lv, full=False):
    while True:
        r = [[rng.random() < 0.55 for _ in range(lv)] for _ in range(J)]
        for j in range(J):
            if not any(r[j]):
                r[j][rng.randrange(lv)] = True
        if lv == 1 or full or not all(all(x) for x in r):
            return r


BINARY = {"1pl", "2pl", "3pl"}


def mk_case(rng, model, rel=False, lvs=(1, 2, 3), J=None):
    """A random configuration of the given model class."""
    J = J or rng.choice([1, 2, 3, 4])
    lv = 1 if model == "1pl" else rng.choice(lvs)
    c = {"model": model, "cats": mk_cats(rng, J, model in BINARY), "lv": lv}
    if rel and model not in ("1pl", "bspline"):
        c["rel"] = mk_rel(rng, J, lv)
    if model == "poly":
        c["opts"] = {"degree": rng.choice([1, 3, 5]), "separate": rng.choice(["items", "categories"]), "neg": rng.random() < 0.6}
    if model == "nn":
        b = rng.random() < 0.6
        c["opts"] = {"bounded": b, "separate": rng.choice(["items", "categories"]), "neg": rng.random() < 0.6,
                     "hidden": [(3 if b else 2) * rng.choice([1, 2]) for _ in range(rng.choice([1, 2, 3]))]}
        if rng.random() < 0.4:
            c["key"] = [rng.randrange(m) for m in c["cats"]]
    if model == "nom" and rng.random() < 0.4:
        c["key"] = [rng.randrange(m) for m in c["cats"]]
    if model in ("bspline", "surprisal"):
        c["opts"] = {"degree": rng.choice([1, 2, 3]), "knots": rng.choice([None, [0.0], [-1.0, 0.5], [-2.0, -0.3, 0.8, 1.9]])}
        if model == "bspline":
            c["opts"]["separate"] = rng.choice(["items", "categories"])
    if model == "nested":
        c["cats"] = mk_cats(rng, J, lo=rng.choice([2, 3]), hi=5)
        c["key"] = [rng.randrange(m) for m in c["cats"]]
        c["correct"] = {"model": rng.choice(["2pl", "3pl", "2pl", "1pl"] if lv == 1 else ["2pl", "3pl"])}
        if c.get("rel"):
            c["correct"]["rel"] = c["rel"]
        c["opts"] = {"distractors": rng.choice(["nominal", "bspline"]), "degree": rng.choice([1, 2, 3]), "knots": rng.choice([None, [0.0], [-1.0, 0.5]])}
    return c


def mk_data(rng, n, cats, missing=0.25):
    return [[(-1 if rng.random() < missing else rng.randrange(m)) for m in cats] for _ in range(n)]


def as_data(x):
    """(tensor with NaN for -1, mask)"""
    t = torch.tensor(x).float()
    m = t == -1
    t[m] = float("nan")
    return t, m
