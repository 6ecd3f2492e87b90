"""Latent scores average or optimize the posterior they claim to: spec/Scoring.tla."""
import itertools, random
import torch
from core import num, nums, guarded, seed_all
import modelkit as mk, evalkit as ek
import c12

SPEC = "ScoringTrace"
MC = [{"module": "ScoringMC", "cfg": "ScoringMC.cfg", "thorough": "ScoringMCdeep.cfg"}]
ASSUMPTIONS = ["posterior means are judged between the posterior means over the narrowest stated box of latent values and over a wide one, plus 0.02",
               "optimality for every respondent is judged for models with concave log-likelihoods and slopes below 1.4; for the others the scores are only compared with their starting values",
               "respondents are scored together by one optimizer: their own scores are compared up to its convergence tolerance"]
CONCAVE = ["1pl", "2pl", "gpc", "nom", "gr"]
OTHER = ["3pl", "poly", "nn", "bspline", "surprisal", "nested"]


class Plain:
    """A fitted algorithm's memory: a covariance matrix and / or the training latent scores."""


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    out = []
    pool = sorted({tuple(s["r"]) for s in scenarios if len(s["r"]) == 3})
    for i in range(9 * k):
        rows = [list(r) for r in rng.sample(pool, 4)]
        c = {"model": "gpc", "cats": [3, 3, 3], "lv": rng.choice([1, 1, 2])}
        out.append(mk_one(rng, c, rows, "spec"))
    for i in range(44 * k):
        c = mk.mk_case(rng, rng.choice(CONCAVE + CONCAVE + OTHER), rel=rng.random() < 0.3, lvs=(1, 1, 2, 2, 3), J=rng.choice([2, 4, 6]))
        out.append(mk_one(rng, c, mk.mk_data(rng, rng.choice([1, 3, 4]), c["cats"], rng.choice([0, 0.3])), "random"))
    for i in range(3 * k):      # more respondents times training scores than are compared at once
        c = mk.mk_case(rng, rng.choice(CONCAVE), lvs=(1, 1, 2), J=rng.choice([3, 5]))
        q = {"src": "random", "op": "crowd", "mcase": c, "x": mk.mk_data(rng, 4, c["cats"], rng.choice([0, 0.25])), "coding": rng.choice(["nan", "-1", "mixed"]), "seed": rng.randrange(10 ** 6)}
        out.append(dict(q, copies=rng.choice([255, 300]), train=rng.choice([1000, 1400])))
    return out


def mk_one(rng, c, x, src):
    return {"src": src, "op": "score", "mcase": c, "x": x, "coding": rng.choice(["nan", "-1", "mixed"]), "seed": rng.randrange(10 ** 6),
            "memory": rng.choice(["none", "cov", "cov", "train", "train", "ae", "vae"]), "scaled": rng.random() < 0.25}


def spd(rng, lv):
    A = torch.tensor([[rng.uniform(-0.8, 0.8) for _ in range(lv)] for _ in range(lv)], dtype=torch.float64)
    return A @ A.T + torch.eye(lv, dtype=torch.float64) * rng.uniform(0.3, 0.9)


def box(lo, hi, n):
    ax = [torch.linspace(float(a), float(b), n) for a, b in zip(lo, hi)]
    return torch.tensor(list(itertools.product(*[a.tolist() for a in ax])))


def run(case, rec):
    rng = random.Random(case["seed"])
    c, x = case["mcase"], case["x"]
    lv, n = c["lv"], len(x)
    model = ek.make(c, rng)
    if case["op"] == "crowd":
        return crowd(case, rec, rng, model)
    data = c12.encode(x, case["coding"], rng)
    mem = case["memory"]
    alg = None
    cov = torch.eye(lv, dtype=torch.float64)
    lo, hi = [-3.0] * lv, [3.0] * lv
    if mem == "cov":
        alg = Plain()
        cov = spd(rng, lv)
        alg.covariance_matrix = cov.float()
    elif mem == "train":
        alg = Plain()
        alg.training_theta_scores = torch.randn(rng.choice([12, 40]), lv) @ torch.linalg.cholesky(spd(rng, lv)).float() + rng.uniform(-0.5, 0.5)
    elif mem in ("ae", "vae"):
        from irtorch.estimation_algorithms import AE, VAE
        alg = AE() if mem == "ae" else VAE()
        train = torch.tensor(mk.mk_data(rng, 30, c["cats"], 0.15)).float()
        alg_kw = {"one_hot_encoded": rng.random() < 0.7}
        alg_kw["imputation_method"] = rng.choice(["zero", None]) if alg_kw["one_hot_encoded"] else "zero"
        with torch.random.fork_rng():
            model.fit(train, algorithm=alg, max_epochs=1, batch_size=10, device="cpu", learning_rate=1e-4, **alg_kw)
        mk.randomize(model, c, random.Random(case["seed"] + 7))
        with torch.no_grad():
            for p in alg.encoder.parameters():
                p.copy_(torch.randn(p.shape) * 0.4)
        alg.training_theta_scores = torch.randn(20, lv) * 0.9
    if alg is not None:
        model.algorithm = alg
    th = getattr(alg, "training_theta_scores", None)
    if th is not None:
        cov = torch.cov(th.double().T).reshape(lv, lv)
        r = (th.max(0).values - th.min(0).values)
        lo, hi = (th.min(0).values - 0.25 * r).tolist(), (th.max(0).values + 0.25 * r).tolist()
    if case["scaled"]:
        import stubs
        model.add_scale_transformation(stubs.Affine([[1.5 if a == b else 0.0 for b in range(lv)] for a in range(lv)], [0.4] * lv))
    prec = torch.linalg.inv(cov)
    rec({"op": "setup", "x": x, "Prec": nums(prec), "Cov": nums(cov)})
    P = lambda t: ek.probs(model, t)
    pts = rng.choice([None, None, {1: 90, 2: 21, 3: 9}[lv]])
    m = pts or {1: 200, 2: 15, 3: 7}[lv]
    G1 = box(lo, hi, m)
    sd = cov.diagonal().sqrt().tolist()
    G2 = box([min(a, -6 * s) for a, s in zip(lo, sd)], [max(b, 6 * s) for b, s in zip(hi, sd)], {1: 161, 2: 27, 3: 13}[lv])
    perm = list(range(n))
    rng.shuffle(perm)
    part = perm[:max(1, n - 1)]
    q = lambda idx, **kw: model.latent_scores((data if idx is None else data[idx]).clone(), rescale=False, device="cpu", **kw)

    # ---- averaging
    if lv < 3 or rng.random() < 0.5:
        guarded(rec, {"op": "eap", "memory": mem, "tol": {1: "1/50", 2: "1/40", 3: "1/15"}[lv]},
                lambda: {"v": nums(q(None, theta_estimation="EAP", eap_theta_integration_points=pts)), "G1": nums(G1), "P1": P(G1), "G2": nums(G2), "P2": P(G2)})
        guarded(rec, {"op": "part", "method": "EAP", "rows": [i + 1 for i in part], "tol": "1/5000"},
                lambda: {"v": nums(q(part, theta_estimation="EAP", eap_theta_integration_points=pts))})

    # ---- optimizing
    concave = c["model"] in CONCAVE
    enc = None
    if mem in ("ae", "vae"):
        enc = encode(alg, c, x, rng)
    G = box([-4.0] * lv, [4.0] * lv, {1: 65, 2: 13, 3: 7}[lv]) if concave else th if th is not None else torch.zeros(1, lv)
    for method in ("ML", "MAP"):
        def opt():
            v = q(None, theta_estimation=method)
            g, Q = G, None
            if mem in ("ae", "vae") and not concave:
                return None
            return {"v": nums(v), "P": P(v), "G": nums(G), "Q": P(G)}
        if mem in ("ae", "vae") and not concave:
            continue
        guarded(rec, {"op": "optimum", "method": method, "concave": concave, "memory": mem, "tol": "1/50"}, opt)
        if method == "MAP" and concave:
            guarded(rec, {"op": "part", "method": method, "rows": [i + 1 for i in part], "tol": "1/50"}, lambda: {"v": nums(q(part, theta_estimation=method))})
            if n == 1:
                guarded(rec, {"op": "part", "method": method, "rows": [1], "tol": "1/50"},
                        lambda: {"v": nums(model.latent_scores(data[0].clone(), rescale=False, device="cpu", theta_estimation=method))})

    # ---- encoding
    if enc is not None:
        guarded(rec, {"op": "encoded", "memory": mem}, lambda: {"v": nums(q(None, theta_estimation="NN")), "enc": nums(enc[0])})
        guarded(rec, {"op": "part", "method": "NN", "rows": [i + 1 for i in part], "tol": "1/10000"}, lambda: {"v": nums(q(part, theta_estimation="NN"))})
        if mem == "vae":
            guarded(rec, {"op": "spread"}, lambda: {"se": nums(q(None, theta_estimation="NN", standard_errors=True)[1]), "sd": nums(enc[1])})
            if hasattr(alg, "latent_credible_interval"):
                def ci():
                    with torch.no_grad():
                        lo_, mid, hi_ = alg.latent_credible_interval(enc[2], alpha=0.1)
                    return {"lo": nums(lo_), "mid": nums(mid), "hi": nums(hi_), "v": nums(enc[0]), "sd": nums(enc[1]), "alpha": "1/10"}
                guarded(rec, {"op": "interval"}, ci)
    # ---- standard errors
    if concave and all(any(v != -1 for v in r) for r in x) and lv == 1:
        method = "NN" if mem == "ae" else "ML"
        def ses():
            v = q(None, theta_estimation=method)
            v2, se = q(None, theta_estimation=method, standard_errors=True)
            ok = [i for i in range(n) if v.abs().max(1).values[i] < 3]
            info = model.information(v2[ok].clone(), item=False, degrees=None, rescale=False) if ok else []
            return {"v": nums(v2[ok]) if ok else [], "se": nums(se[ok]) if ok else [], "info": nums(info), "tol": "1/50", "w": nums(v[ok]) if ok else []}
        ev = {"op": "errors"}
        try:
            out = ses()
        except Exception as ex:
            return guarded(rec, ev, lambda: (_ for _ in ()).throw(ex))
        if out["v"]:
            rec(dict(ev, **out))


def crowd(case, rec, rng, model):
    """Many respondents, few different response patterns: everyone reaches the best score of the pattern."""
    c, x = case["mcase"], case["x"]
    lv, k = c["lv"], case["copies"]
    alg = Plain()
    alg.training_theta_scores = torch.randn(case["train"], lv) @ torch.linalg.cholesky(spd(rng, lv)).float() + rng.uniform(-0.5, 0.5)
    model.algorithm = alg
    cov = torch.cov(alg.training_theta_scores.double().T).reshape(lv, lv)
    who = [i for i in range(len(x)) for _ in range(k)]
    rng.shuffle(who)
    data = c12.encode([x[i] for i in who], case["coding"], rng)
    G = box([-4.0] * lv, [4.0] * lv, {1: 65, 2: 13}[lv])
    rec({"op": "setup", "x": [r for r in x for _ in range(2)], "Prec": nums(torch.linalg.inv(cov)), "Cov": nums(cov)})
    for method in ("ML", "MAP"):
        def opt():
            v = model.latent_scores(data.clone(), rescale=False, device="cpu", theta_estimation=method)
            if v.shape != (len(who), lv):
                return {"v": [], "P": [], "G": [], "Q": []}
            ext = []
            for i in range(len(x)):      # the two respondents of a pattern that are furthest apart
                mine = v[torch.tensor([w == i for w in who])]
                d = mine @ torch.ones(lv)
                ext += [mine[d.argmin()], mine[d.argmax()]]
            ext = torch.stack(ext)
            return {"v": nums(ext), "P": ek.probs(model, ext), "G": nums(G), "Q": ek.probs(model, G)}
        guarded(rec, {"op": "optimum", "method": method, "concave": True, "memory": "train", "tol": "1/50"}, opt)


def encode(alg, c, x, rng):
    """What the encoder makes of the responses as the algorithm documents them: one-hot or raw, missing imputed by zero or left out."""
    rows = []
    for r in x:
        row = []
        for v, m in zip(r, c["cats"]):
            if alg.imputation_method == "zero" and v == -1:
                v = 0
            row += [1.0 if v == k else 0.0 for k in range(m)] if alg.one_hot_encoded else [float(v)]
        rows.append(row)
    with torch.no_grad():
        o = alg.encoder(torch.tensor(rows))
    return (o[0], torch.exp(0.5 * o[1]), torch.tensor(rows)) if isinstance(o, tuple) else (o, None, torch.tensor(rows))
