"""Scale transformations for checks: configurations, construction and what is known about each."""
import math
import random
import torch
from core import nums, num


def ortho(rng, lv):
    q, _ = torch.linalg.qr(torch.tensor([[rng.gauss(0, 1) for _ in range(lv)] for _ in range(lv)], dtype=torch.float64))
    return q


def mk_affine(rng, lv):
    d = torch.diag(torch.tensor([rng.choice([-1, 1]) * rng.uniform(0.5, 2) for _ in range(lv)], dtype=torch.float64))
    a = ortho(rng, lv) @ d @ ortho(rng, lv)
    return {"kind": "affine", "A": a.tolist(), "b": [rng.uniform(-1, 1) for _ in range(lv)]}


def mk_scale(rng, lv, kinds):
    k = rng.choice(kinds)
    if k == "affine":
        return mk_affine(rng, lv)
    c = {"kind": k, "seed": rng.randrange(10 ** 6)}
    if k == "reverse":
        c["flags"] = [rng.random() < 0.6 for _ in range(lv)]
    if k == "rotate":
        c["ortho"] = rng.random() < 0.5
        m = ortho(rng, lv) if c["ortho"] else torch.tensor(mk_affine(rng, lv)["A"], dtype=torch.float64)
        c["matrix"] = m.tolist()
    if k == "rotate_fit":
        c["method"] = rng.choice(["varimax", "promax", "oblimin", "quartimax"])
        c["via"] = rng.choice(["theta", "loadings"])
    if k == "flow":
        c["opts"] = rng.choice([{}, {"num_bins": 5}, {"lower_output_bound": -4.0, "upper_output_bound": 2.5, "num_bins": 8}, {"lower_input_bound": -2.0, "upper_input_bound": 1.5, "num_bins": 6}])
    if k == "link":
        c["method"] = rng.choice(["spline", "neuralnet", "spline"])
        c["inverted"] = rng.random() < 0.5
        c["fitted"] = rng.random() < 0.3
    if k == "rank":
        c["n"] = rng.choice([5, 20])
    if k == "bit":
        c["pop"] = rng.random() < 0.5
        c["start"] = None if c["pop"] else rng.choice([None, rng.uniform(-2, 0)])
    return c


def randomize_spline(t, rng, sd=0.5):
    with torch.no_grad():
        for p in (t.unnormalized_widths, t.unnormalized_heights, t.unnormalized_derivatives):
            p += torch.tensor([rng.gauss(0, sd) for _ in range(p.numel())]).view(p.shape)
        if t.free_endpoints:
            t.lower_output_bound += rng.uniform(-1, 1)
            t.upper_output_bound += rng.uniform(-1, 1)


def build(c, model, lv, double=False):
    """(scale, info): info for the specification: kind, exact map if affine; what the scale offers."""
    import stubs
    from irtorch.rescale import Reverse, Rotate, RankCDF, Flow, LinkCommonItems, Bit
    rng = random.Random(c.get("seed", 0))
    g = torch.Generator().manual_seed(c.get("seed", 0))
    k = c["kind"]
    info = {"kind": k, "A": [], "b": [], "inv": True, "jac": True, "exact": True}
    if k == "affine":
        s = stubs.Affine(c["A"], c["b"])
        info.update(A=nums(s.a), b=nums(s.b))
    elif k == "reverse":
        s = Reverse(c["flags"])
        info.update(kind="affine", A=[["-1" if i == j and c["flags"][i] else "1" if i == j else "0" for j in range(lv)] for i in range(lv)], b=["0"] * lv)
    elif k == "rotate":
        m = torch.tensor(c["matrix"], dtype=torch.float32)
        s = Rotate(model, rotation_matrix=m)
        info.update(kind="affine", A=nums(m), b=["0"] * lv)
    elif k == "rotate_fit":
        th = torch.randn(40, lv, generator=g)
        kw = {"theta": th} if c["via"] == "theta" and c["method"] in ("varimax", "quartimax") else {"loadings": torch.randn(6, lv, generator=g)}
        s = Rotate(model, rotation_method=c["method"], **kw)
        info.update(exact=True, built=kw)
    elif k == "flow":
        s = Flow(lv)
        th = torch.randn(60, lv, generator=g) * torch.tensor([rng.uniform(0.6, 1.5) for _ in range(lv)]) + rng.uniform(-0.5, 0.5)
        s.fit(th, max_epochs=1, device="cpu", **c["opts"])
        randomize_spline(s.flow._transformation, rng)
        info.update(exact=False)
    elif k == "link":
        other = stubs.TabModel([[[0.5, 0.5]]], [2])
        if c["fitted"]:
            from irtorch.models import TwoParameterLogistic
            a, b = TwoParameterLogistic(items=4), TwoParameterLogistic(items=3)
            s = LinkCommonItems(a, b, [1, 3], [0, 2], method=c["method"], inverted=c["inverted"])
            s.fit(torch.randn(30, 1, generator=g), max_epochs=3, device="cpu")
        else:
            s = LinkCommonItems(other, other, [0], [0], method=c["method"], inverted=c["inverted"])
        if c["method"] == "spline":
            randomize_spline(s._transformation, rng)
        else:
            with torch.no_grad():
                for p in s._transformation.parameters():
                    p += torch.randn(p.shape, generator=g) * 0.4
        info.update(exact=False, inv=c["method"] == "spline")
    elif k == "rank":
        s = RankCDF(torch.randn(c["n"], lv, generator=g))
        info.update(inv=False, jac=False)
    elif k == "bit":
        th = torch.randn(80, lv, generator=g)
        s = Bit(model, population_theta=th if c["pop"] else None, start_theta=None if c["start"] is None else torch.full((lv,), c["start"]))
        info.update(inv=False, jac=lv == 1)
    else:
        raise ValueError(k)
    return s, info


def stages(scales, theta):
    out = []
    with torch.no_grad():
        for s in scales:
            theta = s.transform(theta.clone())
            out.append(theta)
    return out


def jacobians(scales, theta):
    """The scales' own Jacobians at the stages: J[respondent][scale]."""
    js, t = [], theta
    for s in scales:
        js.append(s.jacobian(t.clone()).detach())
        with torch.no_grad():
            t = s.transform(t.clone())
    return js


def conditioned(js, theta, lo=0.05):
    """Rows where the composed Jacobian is well conditioned."""
    total = torch.eye(theta.shape[1]).repeat(theta.shape[0], 1, 1)
    for j in js:
        total = j @ total
    sv = torch.linalg.svdvals(total.double())
    ok = (sv.min(dim=1).values > lo) & (sv.max(dim=1).values < 50)
    return ok.nonzero().flatten().tolist()


def per_row(js, rows):
    return [[nums(j[i]) for j in js] for i in rows]
