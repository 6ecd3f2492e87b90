"""Building blocks (irtorch.torch_modules, activation functions): spec/Modules.tla."""
import random
import torch
from core import num, nums, guarded

SPEC = "ModulesTrace"
MC = [{"module": "ModulesMC", "cfg": "ModulesMC.cfg", "thorough": "ModulesMCdeep.cfg"}]
ASSUMPTIONS = ["inputs within a few widths of the constrained range; derivatives are judged away from knots and kinks"]
CASE_TIMEOUT = 60


def F(x):
    a, _, b = str(x).partition("/")
    return float(a) / float(b or 1)


def FF(x):
    return [FF(a) for a in x] if isinstance(x, list) else F(x)


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    out = []
    by = {}
    for s in scenarios:
        by.setdefault(s["kind"], []).append(s["par"])
    for p in rng.sample(by["spline"], min(60 * k, len(by["spline"]))):
        out.append({"src": "spec", "op": "spline", "w": [FF(p["w"])], "h": [FF(p["h"])], "d": [FF(p["d"])], "bounds": [F(p[a]) for a in ("li", "ui", "lo", "uo")], "free": rng.random() < 0.3, "moved": 0, "seed": rng.randrange(10 ** 6)})
    for p in by["poly"]:
        out.append({"src": "spec", "op": "poly", "omega": [[[F(p["omega"])]]], "alpha": [[[F(a)]] for a in p["alpha"]], "tau": [[[F(p["tau"])]] for _ in p["alpha"]],
                    "rel": None, "neg": False, "deep": len(p["alpha"]) > 0, "seed": rng.randrange(10 ** 6)})
    for p in by["basis"]:
        out.append({"src": "spec", "op": "basis", "inner": FF(p["inner"]), "degree": p["degree"], "seed": rng.randrange(10 ** 6)})
    for _ in range(50 * k):
        v, K = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5, 8, 12])
        g = lambda n: [[rng.gauss(0, rng.choice([0.3, 1, 2])) for _ in range(n)] for _ in range(v)]
        li, lo = rng.choice([0.0, -1.0, -5.5]), rng.choice([0.0, -3.0, 1.0])
        out.append({"src": "random", "op": "spline", "w": g(K), "h": g(K), "d": g(K - 1), "bounds": [li, li + rng.choice([1.0, 2.0, 11.0]), lo, lo + rng.choice([1.0, 0.5, 6.0])],
                    "free": rng.random() < 0.3, "moved": rng.choice([0, 0, 0.3]), "seed": rng.randrange(10 ** 6)})
    for _ in range(50 * k):
        ins, K = rng.choice([1, 2, 3]), rng.choice([0, 1, 1, 2])
        share = rng.choice([1, 1, 2, 3])
        outs = share * rng.choice([1, 2])
        g = lambda n, m: [[[rng.gauss(m, 0.8) for _ in range(outs)] for _ in range(ins)] for _ in range(n)]
        neg = rng.random() < 0.4
        rel = None
        if neg or rng.random() < 0.5:
            rel = [[b for b in (rng.random() < 0.7 for _ in range(outs // share)) for _ in range(share)] for _ in range(ins)]
        out.append({"src": "random", "op": "poly", "omega": g(1, 0), "alpha": g(K, 0), "tau": g(K, -2), "rel": rel, "neg": neg, "share": share, "deep": K > 0, "seed": rng.randrange(10 ** 6)})
    for _ in range(60 * k):
        out.append({"src": "random", "op": "linear", "seed": rng.randrange(10 ** 6)})
    for op, n in (("basis", 40), ("bounded", 20), ("negation", 25), ("network", 25)):
        for _ in range(n * k):
            out.append({"src": "random", "op": op, "inner": [rng.gauss(0, 1.5) for _ in range(rng.choice([0, 1, 2, 4]))], "degree": rng.choice([1, 2, 3, 3]), "seed": rng.randrange(10 ** 6)})
    return out


def run(case, rec):
    globals()["do_" + case["op"]](case, rec, random.Random(case["seed"]))


def do_spline(case, rec, rng):
    from irtorch.torch_modules import RationalQuadraticSpline, NeuralSplineFlow
    li, ui, lo, uo = case["bounds"]
    v, K = len(case["w"]), len(case["w"][0])
    mins = rng.choice([{}, {}, {"min_bin_width": 0.01, "min_bin_height": 0.02, "min_derivative": 0.05}])
    m = RationalQuadraticSpline(v, K, lower_input_bound=li, upper_input_bound=ui, lower_output_bound=lo, upper_output_bound=uo, free_endpoints=case["free"], **mins)
    slope = (uo - lo) / (ui - li)
    with torch.no_grad():
        m.unnormalized_widths.copy_(torch.tensor(case["w"]))
        m.unnormalized_heights.copy_(torch.tensor(case["h"]))
        m.unnormalized_derivatives.copy_(torch.tensor(case["d"]).reshape(v, K - 1))
        if case["free"] and case["moved"]:
            m.lower_output_bound.sub_(case["moved"] * (uo - lo))
            m.upper_output_bound.add_(2 * case["moved"] * (uo - lo))
    lo, uo = float(m.lower_output_bound), float(m.upper_output_bound)
    rec({"op": "spline", "w": nums(m.unnormalized_widths.detach()), "h": nums(m.unnormalized_heights.detach()), "d": [nums(r) for r in m.unnormalized_derivatives.detach()],
         "li": num(li), "ui": num(ui), "lo": num(lo), "uo": num(uo), "mw": num(m.min_bin_width), "mh": num(m.min_bin_height), "md": num(m.min_derivative), "slope": num(slope)})
    n = 8
    x = torch.tensor([[rng.uniform(li, ui) if rng.random() < 0.6 else rng.choice([li, ui, li - rng.uniform(0.1, 2) * (ui - li), ui + rng.uniform(0.1, 2) * (ui - li)]) for _ in range(v)] for _ in range(n)])
    if rng.random() < 0.2:
        x = x[:1]
    y = torch.tensor([[rng.uniform(lo, uo) if rng.random() < 0.6 else rng.choice([lo, lo - rng.uniform(0.1, 2) * (uo - lo), uo + rng.uniform(0.1, 2) * (uo - lo)]) for _ in range(v)] for _ in range(len(x))])

    def two(inp, inverse):
        def go():
            a, b = m(inp.clone(), inverse=inverse)
            return {"out": nums(a.detach()), "log": nums(b.detach())}
        return go
    guarded(rec, {"op": "forward", "x": nums(x)}, two(x, False))
    guarded(rec, {"op": "inverse", "y": nums(y)}, two(y, True))
    mu, sd = rng.uniform(-1, 1), rng.uniform(0.5, 2)
    f = NeuralSplineFlow(m, torch.distributions.Normal(mu, sd))
    guarded(rec, {"op": "flow", "x": nums(x), "mu": num(mu), "sd": num(sd)}, lambda: {"log": nums(f.log_prob(x.clone()).detach())})
    guarded(rec, {"op": "there_and_back", "x": nums(x)}, lambda: {"out": nums(f.inverse(f(x.clone())).detach())})
    grid = torch.linspace(li - (ui - li), ui + (ui - li), 40).unsqueeze(1).repeat(1, v)
    guarded(rec, {"op": "rising", "strict": True}, lambda: {"out": nums(f(grid).detach())})
    pick = rng.randint(1, v)

    def drawn():
        fig = m.plot_spline(num_points=9, spline_idx=pick - 1)
        line, knots = [t for t in fig.data if t.mode != "markers"][0], [t for t in fig.data if t.mode == "markers"][0]
        return {"x": nums(line.x), "y": nums(line.y), "kx": nums(knots.x), "ky": nums(knots.y)}
    guarded(rec, {"op": "drawn", "v": pick, "points": 9}, drawn)
    down = torch.linspace(lo - (uo - lo), uo + (uo - lo), 40).unsqueeze(1).repeat(1, v)
    guarded(rec, {"op": "rising", "strict": True}, lambda: {"out": nums(f.inverse(down).detach())})


def do_poly(case, rec, rng):
    from irtorch.torch_modules import MonotonePolynomialModule
    ins, outs, K = len(case["omega"][0]), len(case["omega"][0][0]), len(case["alpha"])
    inter = rng.random() < 0.5
    rel = torch.tensor(case["rel"]) if case["rel"] is not None else None
    share = case.get("share", 1)
    m = MonotonePolynomialModule(2 * K + 1, ins, outs, inter, rel.clone() if rel is not None else None, case["neg"], share) if case["neg"] else MonotonePolynomialModule(2 * K + 1, ins, outs, inter, rel)
    with torch.no_grad():
        m.omega.copy_(torch.tensor(case["omega"]))
        if K:
            m.alpha.copy_(torch.tensor(case["alpha"]))
            m.tau.copy_(torch.tensor(case["tau"]))
        if inter:
            m.intercept.copy_(torch.tensor([rng.gauss(0, 1) for _ in range(outs)]))
        if case["neg"]:
            m.directions.copy_(torch.tensor([[rng.gauss(0, 1) for _ in range(outs // share)] for _ in range(ins)]))
    dirs = [[m.directions[i, o // share].item() if case["neg"] else 1.0 for o in range(outs)] for i in range(ins)]
    rec({"op": "poly", "omega": nums(m.omega[0].detach()), "alpha": [nums(a) for a in m.alpha.detach()], "tau": [nums(a) for a in m.tau.detach()],
         "rel": case["rel"] or [[True] * outs for _ in range(ins)], "dir": nums(dirs), "intercept": nums(m.intercept.detach()) if inter else nums([0.0] * outs)})
    x = torch.tensor([[rng.choice([rng.gauss(0, 1), rng.uniform(-3, 3), 0.0]) for _ in range(ins)] for _ in range(6)])
    guarded(rec, {"op": "outputs", "x": nums(x)}, lambda: {"out": nums(m(x.clone()).detach())})

    def coef():
        c, i = m.get_polynomial_coefficients()
        return {"out": nums(c), "intercept": nums(i) if i is not None else nums([0.0] * outs)}
    guarded(rec, {"op": "coefficients"}, coef)
    if not case["neg"]:
        g = torch.linspace(-3, 3, 25).unsqueeze(1).repeat(1, ins)
        guarded(rec, {"op": "rising", "strict": case["rel"] is None}, lambda: {"out": nums(m(g).detach())})


def groups(rng, total):
    out = []
    while sum(out) < total:
        out.append(rng.randint(1, min(3, total - sum(out))))
    return out


def do_linear(case, rec, rng):
    from irtorch.torch_modules import SoftplusLinear
    ins, outs = rng.randint(1, 6), rng.randint(1, 6)
    kw, gi, go, zi, zo = {}, [], [], [], []
    if rng.random() < 0.6:
        gi = groups(rng, ins)
        kw["separate_inputs"] = torch.tensor(gi)
        if rng.random() < 0.6 and outs >= len(gi):
            cut = sorted(rng.sample(range(1, outs), len(gi) - 1))
            go = [b - a for a, b in zip([0] + cut, cut + [outs])]
            kw["separate_outputs"] = torch.tensor(go)
    if rng.random() < 0.4:
        zi = [i for i in range(ins) if rng.random() < 0.3]
        kw["zero_inputs"] = torch.tensor([int(i in zi) for i in range(ins)])
    if rng.random() < 0.4:
        zo = [i for i in range(outs) if rng.random() < 0.3]
        kw["zero_outputs"] = torch.tensor([int(i in zo) for i in range(outs)])
    plain = rng.random() < 0.2
    m = SoftplusLinear(ins, outs, softplus=not plain, **kw)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.tensor([rng.gauss(0, 1.5) for _ in range(p.numel())]).reshape(p.shape))
    def unit():
        with torch.no_grad():
            b = m(torch.zeros(1, ins))[0]
            return {"b": nums(b), "w": nums((m(torch.eye(ins)) - b).T * (((m(torch.eye(ins)) - b).T).abs() > 1e-7))}
    guarded(rec, {"op": "linear", "ins": ins, "outs": outs, "zero_in": [i + 1 for i in zi], "zero_out": [i + 1 for i in zo], "groups_in": gi, "groups_out": go, "plain": plain}, unit)
    x = torch.tensor([[rng.gauss(0, 2) for _ in range(ins)] for _ in range(5)])
    guarded(rec, {"op": "outputs", "x": nums(x)}, lambda: {"out": nums(m(x.clone()).detach())})


def do_basis(case, rec, rng):
    from irtorch.torch_modules.b_spline import BSplineBasisFunction
    d = case["degree"]
    inner = sorted(torch.tensor(case["inner"], dtype=torch.float32).sigmoid().tolist())
    if any(b - a < 0.02 for a, b in zip([0.0] + inner, inner + [1.0])):
        inner = []
    kn = torch.tensor([0.0] * (d + 1) + inner + [1.0] * (d + 1))
    x = torch.tensor([u for u in (rng.uniform(0.001, 0.999) for _ in range(12)) if all(abs(u - q) > 1e-3 for q in inner)])
    if d > 1 and rng.random() < 0.5:
        x = torch.cat([x, torch.tensor([0.0])])
    up = torch.tensor([[rng.gauss(0, 1) for _ in range(len(kn) - d - 1)] for _ in x])

    def go():
        z = x.clone().requires_grad_(True)
        b = BSplineBasisFunction.apply(z, kn, d)
        (b * up).sum().backward()
        return {"out": nums(b.detach()), "grad": nums(z.grad)}
    guarded(rec, {"op": "basis", "x": nums(x), "knots": nums(kn), "degree": d, "up": nums(up)}, go)


def do_bounded(case, rec, rng):
    from irtorch.activation_functions import BoundedELU
    alpha = rng.choice([1.0, 1.0, 0.5, 2.0])
    pts = [rng.gauss(0, 2) for _ in range(6)] + [1.0, -1.0, 0.0, 30.0, -30.0, rng.choice([120.0, -120.0, 1e4, -1e4])]
    x = torch.tensor(pts)
    up = torch.tensor([rng.gauss(0, 1) for _ in pts])

    def go():
        z = x.clone().requires_grad_(True)
        o = BoundedELU.apply(z, alpha) if alpha != 1.0 or rng.random() < 0.5 else BoundedELU.apply(z)
        (o * up).sum().backward()
        return {"out": nums(o.detach()), "grad": nums(z.grad)}
    keep = [k for k, a in enumerate(pts) if not (alpha != 1.0 and abs(a) == 1.0)]
    ev = {"op": "bounded", "alpha": num(alpha), "x": [nums(x)[k] for k in keep], "up": [nums(up)[k] for k in keep]}
    guarded(rec, ev, lambda: {a: [b[k] for k in keep] for a, b in go().items()})
    g = torch.linspace(-6, 6, 61).unsqueeze(1)
    guarded(rec, {"op": "rising", "strict": True}, lambda: {"out": nums(BoundedELU.apply(g, alpha))})


def do_negation(case, rec, rng):
    from irtorch.torch_modules.negation_layer import NegationLayer
    J, per = rng.randint(1, 4), rng.randint(1, 3)
    rel = [int(rng.random() < 0.7) for _ in range(J)]
    if not any(rel):
        rel[0] = 1
    zero = [rng.random() < 0.3 for _ in range(J * per)]
    m = NegationLayer(torch.tensor(rel), per, torch.tensor(zero))
    with torch.no_grad():
        m.weight_param.copy_(torch.tensor([rng.gauss(0, 1) for _ in range(sum(rel))]))
    x = torch.tensor([[rng.gauss(0, 2) for _ in zero] for _ in range(4)])
    guarded(rec, {"op": "negation", "rel": rel, "per": per, "zero": [k + 1 for k, z in enumerate(zero) if z], "x": nums(x)},
            lambda: {"out": nums(m(x.clone()).detach()), "w": nums(m.all_item_weights().detach())})


def do_network(case, rec, rng):
    """A stack of constrained layers never decreases in any input."""
    from irtorch.torch_modules import SoftplusLinear
    from irtorch.activation_functions import BoundedELU
    ins, hid, outs = rng.randint(1, 3), rng.choice([3, 6]), rng.choice([2, 3])
    a, b = SoftplusLinear(ins, hid), SoftplusLinear(hid, outs)
    with torch.no_grad():
        for p in list(a.parameters()) + list(b.parameters()):
            p.copy_(torch.tensor([rng.gauss(0, 1) for _ in range(p.numel())]).reshape(p.shape))
    start = [rng.uniform(-4, 0) for _ in range(ins)]
    rows = [start]
    for _ in range(20):
        start = [s + rng.choice([0, rng.uniform(0, 0.5)]) for s in start]
        rows.append(start)
    x = torch.tensor(rows)
    guarded(rec, {"op": "rising", "strict": False}, lambda: {"out": nums(b(BoundedELU.apply(a(x), 1.0)).detach())})
