"""Expected scores, sum score distributions and samples against Scores."""
import random
from fractions import Fraction
import torch
from core import num, nums, guarded
import modelkit as mk, evalkit as ek

SPEC = "ScoresTrace"
MC = [{"module": "ScoresMC", "cfg": "ScoresMC.cfg", "thorough": "ScoresMCdeep.cfg"}]
ASSUMPTIONS = ["sampled frequencies are judged at six standard errors",
               "for the density based methods the latent population is the fitted density on the documented range (one standard deviation beyond the scores), tolerance 0.005"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    for s in rng.sample(scenarios, min(len(scenarios), 50 if tier == "quick" else 600)):
        out.append({"src": "spec", "op": "table", "cats": s["cats"], "key": list(s["key"]), "p": s["p"], "seed": rng.randrange(10 ** 6)})
    for i in range(70 if tier == "quick" else 700):
        c = ek.mk_model_case(rng)
        out.append({"src": "random", "op": "model", "mcase": c, "n": rng.choice([1, 2, 3, 6]), "seed": rng.randrange(10 ** 6),
                    "how": ["data", "data", "population", "normal", "encoder", "qmvn", "gmm"][i % 7]})
    for i in range(14 if tier == "quick" else 120):     # another population than the training respondents, through a fitted density
        c = ek.mk_model_case(rng)
        while c["lv"] > 1:
            c = ek.mk_model_case(rng)
        out.append({"src": "random", "op": "model", "mcase": c, "n": 1, "seed": rng.randrange(10 ** 6), "how": "elsewhere"})
    return out


def run(case, rec):
    rng = random.Random(case["seed"])
    if case["op"] == "table":
        import stubs
        cats = case["cats"]
        rows = [[[float(Fraction(v)) for v in it] for it in case["p"]]]
        rows.append([list(reversed(it)) for it in rows[0]])
        model = stubs.TabModel(rows, cats, 1, case["key"] or None, offset=0)
        theta = torch.tensor([[0.0], [1.0], [0.2]])[: rng.choice([1, 2, 3])]
        c = {"model": "tab", "cats": cats, "lv": 1}
        how = "data"
    else:
        c = case["mcase"]
        model = ek.make(c, rng)
        theta = ek.mk_theta(rng, c, case["n"])
        cats = [int(k) for k in model.item_categories]
        how = case["how"]
    key = ek.key_of(model)
    base = {"cats": cats, "key": key}
    P = ek.probs(model, theta)

    def expected():
        with torch.no_grad():
            return {"items": nums(model.expected_scores(theta.clone())), "total": nums(model.expected_scores(theta.clone(), return_item_scores=False)),
                    "difficulty": nums(model.population_difficulty(theta.clone()))}
    guarded(rec, dict(base, op="expected", P=P), expected)
    sumscores(case, model, c, theta, how, base, rng, rec)
    sample(model, theta, P, cats, base, rng, rec)
    x = mk.mk_data(rng, 4, cats, 0.0)
    from irtorch._internal_utils import sum_score
    guarded(rec, dict(base, op="observed", x=nums(torch.tensor(x))), lambda: {"out": nums(sum_score(torch.tensor(x).float(), key or None))})


def sumscores(case, model, c, theta, how, base, rng, rec):
    from irtorch.estimation_algorithms import MML, VAE
    lv = c["lv"]
    ev = model.evaluate
    flat = lambda n: [num(1.0 / n)] * n
    if how == "data":
        model.algorithm = ek.Trained(None, theta.clone())
        guarded(rec, dict(base, op="sumscore", P=ek.probs(model, theta), w=["1/%d" % len(theta)] * len(theta), tol="1/10000"),
                lambda: {"out": nums(ev.sum_score_probabilities())})
    elif how == "population":
        if c["model"] == "tab":
            return sumscores(case, model, c, theta, "data", base, rng, rec)
        model.algorithm = ek.Trained(None, theta.clone())
        data, _ = mk.as_data(mk.mk_data(rng, 3, base["cats"], 0.1))
        with torch.no_grad():
            th = model.latent_scores(data.clone(), rescale=False, theta_estimation="ML", lbfgs_learning_rate=0.25)
        guarded(rec, dict(base, op="sumscore", P=ek.probs(model, th), w=["1/3"] * 3, tol="1/100"),
                lambda: {"out": nums(ev.sum_score_probabilities(population_data=data.clone()))})
    elif how == "elsewhere":
        far = rng.choice([-1, 1]) * rng.choice([0.5, 4.0, 7.0])
        model.algorithm = ek.Trained(None, torch.randn(30, lv, generator=torch.Generator().manual_seed(case["seed"])) * 0.2 + far)
        data, _ = mk.as_data(mk.mk_data(rng, 14, base["cats"], 0.1))
        with torch.no_grad():
            th = model.latent_scores(data.clone(), rescale=False, theta_estimation="ML", lbfgs_learning_rate=0.25)
        if not bool(th.isfinite().all()) or len(th.unique()) < 5 or float(th.abs().max()) > 25:
            return
        if rng.random() < 0.5:             # the training respondents' density is there already
            ev.approximate_latent_density(model.algorithm.training_theta_scores)
        density_check(model, ev, th, "qmvn", 30, base, rec, lambda ref: ref.fit(th), {"population_data": data.clone()})
    elif how == "normal":
        alg = MML()
        a = torch.tensor([[rng.uniform(-0.6, 0.6) if i != j else rng.uniform(0.6, 1.2) for j in range(lv)] for i in range(lv)])
        alg.covariance_matrix = (a @ a.T)
        model.algorithm = alg
        g = torch.linspace(-4.5, 4.5, 121 if lv == 1 else 25)
        grid = g.view(-1, 1) if lv == 1 else torch.cartesian_prod(*[g] * lv)
        w = torch.exp(-0.5 * (grid ** 2).sum(dim=1)).double()
        w = w / w.sum()
        th = (grid @ torch.linalg.cholesky(alg.covariance_matrix).T)
        if c["model"] == "tab" or (len(grid) > 700):
            return
        guarded(rec, dict(base, op="sumscore", P=ek.probs(model, th), w=nums(w), tol="3/50"), lambda: {"out": nums(ev.sum_score_probabilities())})
    elif how == "encoder":
        n = rng.choice([1, 4, 7])
        th = ek.mk_theta(rng, c, n)

        class Enc(VAE):
            def sample_latent_variables(self, *a, **k):
                return th.clone()
        alg = Enc()
        alg.training_theta_scores = theta.clone()
        model.algorithm = alg
        guarded(rec, dict(base, op="sumscore", P=ek.probs(model, th), w=["1/%d" % n] * n, tol="1/10000"),
                lambda: {"out": nums(ev.sum_score_probabilities(latent_density_method="encoder sampling", sample_size=n))})
    else:
        m = 24
        th = torch.randn(m, lv, generator=torch.Generator().manual_seed(case["seed"])) * 0.8 + 0.3
        model.algorithm = ek.Trained(None, th)
        S = 30 if lv == 1 else 7
        if how == "gmm":
            from irtorch.torch_modules import GaussianMixtureModel
            g = GaussianMixtureModel(2, lv)
            with torch.no_grad():
                g.means.copy_(torch.tensor([[-0.7] * lv, [0.9] * lv]))
                g.weights.copy_(torch.tensor([0.3, 0.7]))
            ev.latent_density = ref = g
        else:
            from irtorch.quantile_mv_normal import QuantileMVNormal
            ref = QuantileMVNormal()
            if rng.random() < 0.4:         # a density the user asked for is the one that is used
                own = torch.randn(20, lv, generator=torch.Generator().manual_seed(case["seed"] + 1)) * 0.6 - 0.2
                ev.approximate_latent_density(own)
                ref.fit(own)
            else:
                ref.fit(th)

        if lv < 3:
            density_check(model, ev, th, how, S, base, rec, lambda _: None, {}, ref)


def density_check(model, ev, th, how, S, base, rec, fit, extra, ref=None):
    """sum scores under a fitted density, on one standard deviation beyond the scores th it describes"""
    lv = th.shape[1]
    if ref is None:
        from irtorch.quantile_mv_normal import QuantileMVNormal
        ref = QuantileMVNormal()
    fit(ref)

    def dens():
        out = ev.sum_score_probabilities(latent_density_method=how, trapezoidal_segments=S, **extra)
        sd, lo, hi = th.std(dim=0), th.min(dim=0).values, th.max(dim=0).values
        axes = [torch.linspace(float(lo[v] - sd[v]), float(hi[v] + sd[v]), S) for v in range(lv)]
        grid = axes[0].view(-1, 1) if lv == 1 else torch.cartesian_prod(*axes)
        with torch.no_grad():
            w = ref.pdf(grid).double()
        return {"out": nums(out), "P": ek.probs(model, grid), "w": nums(w / w.sum()), "tol": "1/200"}
    guarded(rec, dict(base, op="sumscore"), dens)


def sample(model, theta, P, cats, base, rng, rec):
    n, R, J = len(theta), 3000, len(cats)

    def go():
        with torch.no_grad():
            x = model.sample_test_data(theta.repeat(R, 1))
        inside = list(x.shape) == [n * R, J] and bool((x == x.round()).all()) and all(bool(((x[:, j] >= 0) & (x[:, j] < cats[j])).all()) for j in range(J))
        if not inside:
            return {"inside": False, "counts": [], "pairs": [], "R": R}
        y = x.view(R, n, J)
        mx = len(P[0][0])
        counts = [[[int((y[:, i, j] == k).sum()) for k in range(mx)] for j in range(J)] for i in range(n)]
        pairs = []
        if J > 1:
            for _ in range(4):
                a, b = rng.sample(range(J), 2)
                k1, k2 = rng.randrange(cats[a]), rng.randrange(cats[b])
                pairs.append({"j1": a + 1, "j2": b + 1, "k1": k1 + 1, "k2": k2 + 1, "counts": [int(((y[:, i, a] == k1) & (y[:, i, b] == k2)).sum()) for i in range(n)]})
        return {"inside": True, "counts": counts, "pairs": pairs, "R": R}
    guarded(rec, dict(base, op="sample", P=P), go)
