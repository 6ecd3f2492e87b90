"""Quadrature, normal scores and mixture densities: spec/Density.tla."""
import itertools, random
import torch
from core import num, nums, guarded
import modelkit as mk

SPEC = "DensityTrace"
MC = [{"module": "DensityMC", "cfg": "DensityMC1.cfg", "thorough": "DensityMC1deep.cfg"},
      {"module": "DensityMC", "cfg": "DensityMC2.cfg", "thorough": "DensityMC2deep.cfg"},
      {"module": "DensityMC", "cfg": "DensityMC3.cfg", "thorough": "DensityMC3deep.cfg"},
      {"module": "MixtureMC", "cfg": "MixtureMC.cfg", "thorough": "MixtureMCdeep.cfg"}]
ASSUMPTIONS = ["mixtures are fitted where no component collapses (every covariance determinant and weight stays above 1/200)"]
CASE_TIMEOUT = 120


def F(x):
    a, _, b = str(x).partition("/")
    return float(a) / float(b or 1)


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    out = []
    moments = sorted({str((s["mu"], s["cov"])): (s["mu"], s["cov"]) for s in scenarios if "mu" in s and "alpha" in s}.items())
    for _, (mu, cov) in rng.sample(moments, min(len(moments), 60 * k)):
        out.append({"src": "spec", "op": "grid", "mu": [F(a) for a in mu], "cov": [[F(a) for a in r] for r in cov], "seed": rng.randrange(10 ** 6)})
    for i in range(20 * k):
        d = rng.choice([1, 2, 3])
        A = torch.tensor([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)], dtype=torch.float64)
        S = A @ A.T + 0.3 * torch.eye(d, dtype=torch.float64)
        out.append({"src": "random", "op": "grid", "mu": [rng.uniform(-2, 2) for _ in range(d)], "cov": S.float().tolist(), "seed": rng.randrange(10 ** 6)})
    ems = [s for s in scenarios if "start" in s]
    for s in rng.sample(ems, min(len(ems), 60 * k)):
        m = s["start"]
        out.append({"src": "spec", "op": "mixture", "data": [[F(a) for a in r] for r in s["data"]], "w": [F(a) for a in m["w"]], "mu": [[F(a) for a in r] for r in m["mu"]],
                    "c": [[[F(a) for a in r] for r in q] for q in m["c"]], "seed": rng.randrange(10 ** 6)})
    for i in range(40 * k):
        d, K, n = rng.choice([1, 2]), rng.choice([1, 2, 3]), rng.choice([6, 15, 40])
        w = [rng.uniform(0.3, 1) for _ in range(K)]
        c = []
        for _ in range(K):
            A = torch.tensor([[rng.gauss(0, 1) for _ in range(d)] for _ in range(d)])
            c.append((A @ A.T + 0.4 * torch.eye(d)).tolist())
        data = [[rng.gauss(2.0 * (i % K), 1) for _ in range(d)] for i in range(n)]
        out.append({"src": "random", "op": "mixture", "data": data, "w": [a / sum(w) for a in w], "mu": [[rng.gauss(1, 1.5) for _ in range(d)] for _ in range(K)], "c": c, "seed": rng.randrange(10 ** 6)})
    for i in range(60 * k):
        d, n = rng.choice([1, 1, 2]), rng.choice([4, 5, 12, 30])
        ties = rng.random() < 0.3
        rows = [[float(rng.randrange(6)) if ties else round(rng.gauss(1, 3), 2) + 0.001 * a for _ in range(d)] for a in range(n)]
        if any(len({r[v] for r in rows}) < 2 for v in range(d)):
            continue
        ranks = torch.tensor(rows).argsort(0).argsort(0).double()
        if d > 1 and abs(float(torch.corrcoef(ranks.T)[0, 1])) > 0.95:
            continue
        out.append({"src": "random", "op": "normal", "rows": rows, "seed": rng.randrange(10 ** 6)})
    for i in range(8 * k):
        out.append({"src": "random", "op": "select", "n": rng.choice([31, 40, 52]), "d": rng.choice([1, 1, 2]), "cand": rng.choice([[1, 2], [2, 1], [1, 2, 3], [3, 1], [2]]), "via": rng.random() < 0.3, "seed": rng.randrange(10 ** 6)})
    return out


def run(case, rec):
    globals()["do_" + case["op"]](case, rec, random.Random(case["seed"]))


def do_grid(case, rec, rng):
    from irtorch.utils import gauss_hermite
    mu, cov, d = case["mu"], case["cov"], len(case["mu"])
    n = rng.choice({1: [1, 2, 3, 5, 8], 2: [1, 2, 3, 5], 3: [1, 2, 3, 4]}[d])
    diag = all(cov[a][b] == 0 for a in range(d) for b in range(d) if a != b)
    alphas = [a for a in itertools.product(range(min(2 * n, 9)), repeat=d) if (sum(a) <= 2 * n - 1 and sum(a) <= 9) or (diag and max(a) <= 2 * n - 1 and sum(a) <= 7)]
    alphas = rng.sample(alphas, min(len(alphas), 12))
    m = torch.tensor(mu) if not (rng.random() < 0.3 and all(float(a).is_integer() for a in mu)) else torch.tensor([int(a) for a in mu])

    def go():
        p, w = gauss_hermite(n, m, torch.tensor(cov))
        return {"points": nums(p), "w": nums(w)}
    guarded(rec, {"op": "grid", "n": n, "count": n ** d, "mu": nums(mu), "cov": nums(cov), "alphas": [list(a) for a in alphas]}, go)


def mix(g):
    return {"w": nums(g.weights.detach()), "mu": nums(g.means.detach()), "c": nums(g.covariances.detach())}


def healthy(g):
    with torch.no_grad():
        return bool((torch.linalg.det(g.covariances.double()) > 1 / 200).all() and (g.weights > 1 / 200).all())


def do_mixture(case, rec, rng):
    from irtorch.torch_modules import GaussianMixtureModel
    data, d, K = torch.tensor(case["data"]), len(case["data"][0]), len(case["w"])

    def new():
        g = GaussianMixtureModel(K, d)
        with torch.no_grad():
            g.weights.copy_(torch.tensor(case["w"]))
            g.means.copy_(torch.tensor(case["mu"]))
            g.covariances.copy_(torch.tensor(case["c"]))
        return g
    g = new()
    x = torch.cat([data[:3], torch.tensor([[rng.uniform(-2, 5) for _ in range(d)] for _ in range(3)])])
    rec({"op": "mixture", **mix(g)})
    guarded(rec, {"op": "pdf", "p": nums(x)}, lambda: {"out": nums(g.pdf(x).detach())})
    guarded(rec, {"op": "loglik", "p": nums(x)}, lambda: {"out": num(g(x).detach())})
    steps = rng.choice([1, 1, 2])
    probe = new()
    ok = True
    for _ in range(steps):
        probe.fit(data, iterations=1)
        ok = ok and healthy(probe)
    if ok:
        def go():
            g.fit(data.clone(), iterations=steps)
            return mix(g)
        guarded(rec, {"op": "em", "n": steps, "data": nums(data)}, go)
        guarded(rec, {"op": "pdf", "p": nums(x)}, lambda: {"out": nums(g.pdf(x).detach())})
        guarded(rec, {"op": "loglik", "p": nums(data)}, lambda: {"out": num(g(data).detach())})
    h, many = new(), rng.choice([5, 25, 100])
    try:
        probe = new()
        probe.fit(data, iterations=many)
        ok = healthy(probe)
    except ValueError:
        ok = False
    if ok:
        rec({"op": "mixture", **mix(h)})
        def go2():
            h.fit(data.clone(), iterations=many)
            return mix(h)
        guarded(rec, {"op": "fitted", "data": nums(data)}, go2)


def do_normal(case, rec, rng):
    from irtorch.quantile_mv_normal import QuantileMVNormal
    from irtorch.latent_variable_functions import interp
    X = torch.tensor(case["rows"])
    d = X.shape[1]
    q = QuantileMVNormal()
    sample = X.clone()

    def go():
        q.fit(sample)
        return {"x": nums(X.T), "y": nums(q.qt_data.T), "mu": nums(q.mvnormal.mean), "c": nums(q.mvnormal.covariance_matrix)}
    ev = guarded(rec, {"op": "scores"}, go)
    if any(len({float(a) for a in X[:, v]}) < len(X) for v in range(d)) or q.mvnormal is None:
        return
    o = X.argsort(0)
    sx, sy = X.gather(0, o), q.qt_data.gather(0, o)
    if float((sx[1:] - sx[:-1]).min()) < 1e-3:
        return
    pts = []
    for _ in range(4):
        pts.append([rng.choice([float(rng.choice(X[:, v])), rng.uniform(float(sx[0, v]) - 1, float(sx[-1, v]) + 1)]) for v in range(d)])
    p = torch.tensor(pts)
    guarded(rec, {"op": "density", "sx": nums(sx.T), "sy": nums(sy.T), "p": nums(p)}, lambda: {"out": nums(q.pdf(p.clone()))})
    inner = [[rng.choice([0.25, 0.6]) for _ in range(d)] for _ in range(3)]
    mid = torch.tensor([[float(sx[i, v] + f[v] * (sx[i + 1, v] - sx[i, v])) for v in range(d)] for f in inner for i in [rng.randrange(len(X) - 1)]])
    guarded(rec, {"op": "change", "sx": nums(sx.T), "sy": nums(sy.T), "p": nums(mid)}, lambda: {"out": nums(q.pdf(mid.clone()))})
    for v in range(d):
        perm = torch.tensor(rng.sample(range(len(X)), len(X)))
        guarded(rec, {"op": "interp", "sx": nums(sx[:, v]), "sy": nums(sy[:, v]), "p": nums(p[:, v])}, lambda: {"out": nums(interp(p[:, v].clone(), X[perm, v], q.qt_data[perm, v]))})


def do_select(case, rec, rng):
    from irtorch.torch_modules import GaussianMixtureModel
    n, d = case["n"], case["d"]
    data = torch.tensor([[rng.gauss(3.0 * (i * 7 % 3 == 0), 0.8) for _ in range(d)] for i in range(n)])
    where = {tuple(r): i + 1 for i, r in enumerate(data.tolist())}
    seen = []

    def hook(mod, args, out):
        if isinstance(mod, GaussianMixtureModel):
            rows = [where[tuple(r)] for r in args[0].tolist()]
            mean = (mod.weights.detach().double()[:, None] * mod.means.detach().double()).sum(0)
            seen.append({"op": "held", "comps": mod.n_components, "rows": [str(r) for r in rows], "ll": num(out.detach()), "mean": nums(mean), "data": nums(data)})
    m = mk.build({"model": "gpc", "cats": [3, 3], "lv": d})

    def go():
        h = torch.nn.modules.module.register_module_forward_hook(hook)
        try:
            m.evaluate.approximate_latent_density(data.clone(), "gmm", cv_n_components=list(case["cand"]))
        finally:
            h.remove()
        g = m.evaluate.latent_density
        return {"comps": g.n_components, "mean": nums((g.weights.detach().double()[:, None] * g.means.detach().double()).sum(0))}
    hold = []
    guarded(hold.append, {"op": "selected", "candidates": case["cand"], "n": n, "data": nums(data)}, go)
    if "singular" in hold[0]["err"] or "PositiveDefinite" in hold[0]["err"]:
        return
    rec({"op": "mixture", "w": ["1"], "mu": [["0"]], "c": [[["1"]]]})
    for e in seen:
        rec({**e, "rows": [int(r) for r in e["rows"]]})
    rec(hold[0])
