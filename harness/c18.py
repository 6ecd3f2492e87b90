"""Each fitting algorithm optimizes the objective it documents: spec/Objective.tla."""
import copy, random
import torch
from core import num, nums, guarded, seed_all
import modelkit as mk, evalkit as ek
import c12
from c15 import spd, box

SPEC = "ObjectiveTrace"
MC = [{"module": "ObjectiveMC", "cfg": "ObjectiveMC.cfg", "thorough": "ObjectiveMCdeep.cfg"}]
ASSUMPTIONS = ["losses are read at learning rate 1e-9, so every iteration of a fit is judged at the parameters the fit started from",
               "marginal likelihoods by quasi Monte Carlo lie between those over [-3, 3] and over a wide box of latent points, plus a tolerance; its unnormalized weights are read off respondents without responses",
               "the samples of the variational algorithm are read with PyTorch's forward hooks; either order of samples within respondents and either start of the annealing count is accepted",
               "mixtures of models are left out of the marginal and variational objectives (known finding C07)"]
NAMES = ["1pl", "2pl", "3pl", "gpc", "gr", "nom", "nom", "nn", "poly", "bspline", "surprisal", "nested"]
STEEP = ["nn", "poly", "bspline", "surprisal", "nested"]      # curves a quadrature of the stated order only approximates
TINY = 1e-9


def rare(model, theta, x):
    """Some observed response is so unlikely that its probability leaves single precision."""
    with torch.no_grad():
        p = model.item_probabilities(theta)
    return any(v != -1 and float(p[i, j, v]) < 1e-25 for i, r in enumerate(x) for j, v in enumerate(r))


def mk_case(rng, names, lvs, J=None):
    return mk.mk_case(rng, rng.choice(names), rel=rng.random() < 0.3, lvs=lvs, J=J or rng.choice([1, 2, 3, 4]))


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    out = []
    pats = sorted({tuple(s["r"]) for s in scenarios})
    J = len(pats[0])
    for i in range(8 * k):
        c = {"model": rng.choice(["2pl", "3pl"]), "cats": [2] * J, "lv": 1}
        out.append(mk_one(rng, c, [list(p) for p in rng.sample(pats, min(8, len(pats)))], rng.choice(["mml", "jml"]), "spec"))
    for alg, n in (("mml", 34), ("jml", 28), ("ae", 26), ("vae", 34)):
        for i in range(n * k):
            c = mk_case(rng, NAMES, (1, 1, 2, 2, 3) if alg != "mml" else (1, 1, 1, 2, 2, 3))
            x = mk.mk_data(rng, rng.choice([4, 5, 7]), c["cats"], rng.choice([0, 0.25, 0.4]))
            out.append(mk_one(rng, c, x, alg, "random"))
    # long tests on which some respondents answered much and others next to nothing
    for i in range(6 * k):
        name = ["1pl", "2pl", "gpc", "nom", "gr", "3pl"][i % 6]
        m = 3 if name in ("gpc", "nom", "gr") else 2
        c = {"model": name, "cats": [m] * rng.choice([160, 200, 240]), "lv": 1}
        x = [[rng.randrange(m) for _ in c["cats"]] for _ in range(3)]
        x[rng.randrange(3)][rng.choice([1, 2, 3]):] = [-1] * len(c["cats"])
        x = [(r + [-1] * len(c["cats"]))[:len(c["cats"])] for r in x]
        out.append(dict(mk_one(rng, c, x, "mml", "random"), op="long"))
    return out


def mk_one(rng, c, x, alg, src):
    case = {"src": src, "op": alg, "mcase": c, "x": x, "coding": rng.choice(["nan", "-1", "mixed"]), "seed": rng.randrange(10 ** 6)}
    if alg == "mml":
        case["integration"] = rng.choice(["quasi_mc", "gauss_hermite"])
        case["cov"] = rng.random() < 0.6
    if alg in ("ae", "vae", "jml"):
        case["batch"] = rng.choice([None, None, 2, 3])
    if alg in ("ae", "vae"):
        case["onehot"] = rng.random() < 0.7
        case["impute"] = rng.choice(["zero", None]) if case["onehot"] else "zero"
        case["interval"] = rng.choice([1, 2, 3])
        case["hidden"] = rng.choice([None, [4], [5, 3]])
    if alg == "vae":
        case["samples"] = rng.choice([1, 2, 3, 5])
        case["anneal"] = rng.random() < 0.7
        case["limit"] = rng.choice([1, 2, 5])
    return case


def make(case):
    rng = random.Random(case["seed"])
    model = mk.build(case["mcase"])
    mk.randomize(model, case["mcase"], rng)
    return model, rng


def P_of(model, theta):
    with torch.no_grad():
        return nums(model.item_probabilities(theta))


def parts(model):
    return [n for n, _ in model.named_parameters()]


@torch.no_grad()
def with_part(old, new, name):
    m = copy.deepcopy(old)
    dict(m.named_parameters())[name].copy_(dict(new.named_parameters())[name])
    return m


def run(case, rec):
    {"mml": run_mml, "long": run_long, "jml": run_jml, "ae": run_enc, "vae": run_enc}[case["op"]](case, rec)


def run_mml(case, rec):
    from irtorch.estimation_algorithms import MML
    model, rng = make(case)
    c, x = case["mcase"], case["x"]
    lv = c["lv"]
    cov = spd(rng, lv) if case["cov"] else torch.eye(lv, dtype=torch.float64)
    prec = torch.linalg.inv(cov)
    norm = case["integration"] == "gauss_hermite"
    points = {1: 41, 2: 15, 3: 9}[lv] if not norm else {1: 25, 2: 13, 3: 9}[lv]
    sd = cov.diagonal().sqrt().tolist()
    G1 = box([-3] * lv, [3] * lv, {1: 81, 2: 17, 3: 9}[lv])
    G2 = box([-6 * s for s in sd], [6 * s for s in sd], {1: 121, 2: 25, 3: 13}[lv])
    rec({"op": "space", "G1": nums(G1), "G2": nums(G2), "Prec": nums(prec), "Cov": nums(cov), "P1": P_of(model, G1), "P2": P_of(model, G2)})
    kw = dict(integration_method=case["integration"], quadrature_points=points, covariance_matrix=cov.float() if case["cov"] else None, device="cpu")

    def loss(rows, coding):
        m, a = copy.deepcopy(model), MML()
        m.fit(c12.encode(rows, coding, rng), algorithm=a, max_epochs=1, learning_rate=TINY, **kw)
        return {"loss": num(float(a.training_history["train_loss"][0])), "kept": nums(a.covariance_matrix)}
    base = {"op": "marginal", "normalized": norm, "cov": nums(cov)}
    guarded(rec, dict(base, x=[[-1] * len(c["cats"])], tol="1"), lambda: loss([[-1] * len(c["cats"])], case["coding"]))
    some = [r for r in x if any(v != -1 for v in r)]
    sets = [s for s in (some[:1], some[1:], some) if s]
    for s in sets:
        tol = {1: 0.01, 2: 0.03, 3: 0.08}[lv] * len(s) * (8 if c["model"] in STEEP else 1)
        guarded(rec, dict(base, x=s, tol=num(tol)), lambda: loss(s, case["coding"]))
    if lv < 3 and some:
        G = box([-6 * s for s in sd], [6 * s for s in sd], {1: 61, 2: 15}[lv])
        new = copy.deepcopy(model)
        try:
            new.fit(c12.encode(some, case["coding"], rng), algorithm=MML(), max_epochs=1, learning_rate=0.003, **kw)
        except Exception as ex:
            return guarded(rec, {"op": "descent_marginal"}, lambda: (_ for _ in ()).throw(ex))
        P0 = P_of(model, G)
        for name in [None] + parts(model):
            other = new if name is None else with_part(model, new, name)
            rec({"op": "descent_marginal", "err": "", "part": name or "all", "G": nums(G), "Prec": nums(prec), "x": some, "P0": P0, "P1": P_of(other, G), "tol": num(0.002 * len(some))})


def run_long(case, rec):
    """The marginal likelihood of a data set is the product of that of its respondents."""
    from irtorch.estimation_algorithms import MML
    model, rng = make(case)
    c, x = case["mcase"], case["x"]
    cov = torch.eye(1)

    def loss(rows):
        seed_all(case["seed"])
        m, a = copy.deepcopy(model), MML()
        m.fit(c12.encode(rows, case["coding"], rng), algorithm=a, max_epochs=1, learning_rate=TINY, integration_method=case["integration"],
              quadrature_points=31, covariance_matrix=cov if case["cov"] else None, device="cpu")
        return num(float(a.training_history["train_loss"][0]))
    guarded(rec, {"op": "whole", "n": len(x)}, lambda: {"whole": loss(x), "parts": [loss([r]) for r in x]})


@torch.no_grad()
def matters(model, new, theta, x, rec):
    """Every parameter the objective depends on has been moved by the step."""
    P0 = P_of(model, theta)
    g = torch.Generator().manual_seed(3)
    for name in parts(model):
        p0, p1 = dict(model.named_parameters())[name], dict(new.named_parameters())[name]
        other = copy.deepcopy(model)
        q = dict(other.named_parameters())[name]
        q.add_(0.1 * torch.sign(torch.rand(q.shape, generator=g) + 0.3))
        rec({"op": "moves", "err": "", "part": name, "x": x, "P0": P0, "Pp": P_of(other, theta), "moved": bool((p0 != p1).any())})


def run_jml(case, rec):
    from irtorch.estimation_algorithms import JML
    model, rng = make(case)
    c, x = case["mcase"], case["x"]
    n, lv = len(x), c["lv"]
    theta = torch.tensor([[rng.uniform(-2, 2) for _ in range(lv)] for _ in range(n)])
    data = c12.encode(x, case["coding"], rng)
    if rare(model, theta, x):
        theta = theta * 0.2
        if rare(model, theta, x):
            return
    P = P_of(model, theta)
    B = case["batch"] or n
    m, a = copy.deepcopy(model), JML()
    try:
        m.fit(data.clone(), algorithm=a, max_epochs=2, learning_rate=TINY, batch_size=case["batch"], start_thetas=theta.clone(), device="cpu")
    except Exception as ex:
        return guarded(rec, {"op": "joint"}, lambda: (_ for _ in ()).throw(ex))
    batches = [list(range(s, min(n, s + B))) for s in range(0, n, B)] * 2
    hist = a.training_history["train_loss"]
    for b, rows in enumerate(batches):
        rec({"op": "joint", "err": "", "x": [x[i] for i in rows], "P": [P[i] for i in rows], "loss": num(float(hist[b])) if b < len(hist) else "nan"})
    if case["batch"] is None:
        new, a = copy.deepcopy(model), JML()
        new.fit(data.clone(), algorithm=a, max_epochs=1, learning_rate=0.003, start_thetas=theta.clone(), device="cpu")
        th = a.training_theta_scores.detach()
        for name in [None] + parts(model):
            other = new if name is None else with_part(model, new, name)
            rec({"op": "descent", "err": "", "part": name or "all", "x": x, "P0": P, "P1": P_of(other, th if name is None else theta), "tol": num(0.002 * n)})
        rec({"op": "descent", "err": "", "part": "latent scores", "x": x, "P0": P, "P1": P_of(model, th), "tol": num(0.0005 * n)})
        for i in range(n):
            moved = bool((th[i] != theta[i]).any())
            far = theta.clone()
            far[i] += 0.1
            rec({"op": "moves", "err": "", "part": "latent scores", "x": [x[i]], "P0": [P[i]], "Pp": [P_of(model, far)[i]], "moved": moved})
        matters(model, new, theta, x, rec)


def encoding(case, x):
    rows = []
    for r in x:
        row = []
        for v, m in zip(r, case["mcase"]["cats"]):
            if case["impute"] == "zero" and v == -1:
                v = 0
            row += [1.0 if v == k else 0.0 for k in range(m)] if case["onehot"] else [float(v)]
        rows.append(row)
    return torch.tensor(rows)


class Louder(torch.nn.Module):
    """A nonlinearity that sets the respondents' encodings apart."""

    def forward(self, x):
        return 2.5 * torch.nn.functional.elu(x)


class Tap:
    """Inputs and outputs of every module called while it is open."""

    def __enter__(self):
        self.calls = []
        def hook(module, args, out):
            if not args or not torch.is_tensor(args[0]):
                return
            o = tuple(t.detach().clone() for t in out) if isinstance(out, tuple) else out.detach().clone() if torch.is_tensor(out) else None
            self.calls.append((module, args[0].detach().clone(), o))
        self.h = torch.nn.modules.module.register_module_forward_hook(hook)
        return self

    def __exit__(self, *a):
        self.h.remove()


def run_enc(case, rec):
    from irtorch.estimation_algorithms import AE, VAE
    model, rng = make(case)
    c = case["mcase"]
    lv = c["lv"]
    var = case["op"] == "vae"
    # respondents whose encodings differ can be told apart
    x, seen = [], set()
    for r in case["x"]:
        key = tuple(encoding(case, [r])[0].tolist())
        if key not in seen:
            seen.add(key)
            x.append(r)
    n = len(x)
    if n == 0:
        return
    enc = encoding(case, x)
    data = c12.encode(x, case["coding"], rng)
    kw = dict(one_hot_encoded=case["onehot"], imputation_method=case["impute"], hidden_layers_encoder=case["hidden"], device="cpu", evaluation_interval_size=case["interval"])
    if case["seed"] % 3:
        kw["nonlinear_encoder"] = Louder()
    vkw = dict(kw, iw_samples=case["samples"], anneal=case["anneal"], annealing_iterations=case["limit"]) if var else kw
    Alg = VAE if var else AE
    B = case["batch"] or n
    epochs = 4 if B >= n else 2
    iters = epochs * -(-n // B)
    m, a = copy.deepcopy(model), Alg()
    head = {"op": "bound" if var else "recon"}
    try:
        with Tap() as tap:
            m.fit(data.clone(), algorithm=a, max_epochs=epochs, learning_rate=TINY, batch_size=case["batch"], **vkw)
    except Exception as ex:
        return guarded(rec, head, lambda: (_ for _ in ()).throw(ex))
    E = [(i, o) for mod, i, o in tap.calls if mod is a.encoder][:iters]
    T = [i for mod, i, o in tap.calls if mod is m][:iters]
    covered = []
    for (inp, out), th in zip(E, T):
        rows = [int((enc - r).abs().sum(1).argmin()) for r in inp]
        assert float((enc[rows] - inp).abs().max()) == 0, "the encoder saw something else than the encoded responses"
        covered += rows
        ev = {"err": "", "x": [x[i] for i in rows]}
        if var:
            ev.update(op="bound", m=nums(out[0]), l=nums(out[1]), t=nums(th), P=P_of(model, th), samples=case["samples"], anneal=case["anneal"], limit=case["limit"])
        else:
            ev.update(op="recon", P=P_of(model, out))
        rec(ev)
    assert sorted(covered) == sorted(list(range(n)) * epochs), "every epoch passes over every respondent once"
    rec({"op": "report", "err": "", "interval": case["interval"], "history": nums([float(v) for v in a.training_history["train_loss"]])})
    if case["batch"] is not None:
        return
    # ---- learning
    if not var:
        seed = case["seed"]
        seed_all(seed)
        old, a0 = copy.deepcopy(model), AE()
        old.fit(data.clone(), algorithm=a0, max_epochs=1, learning_rate=TINY, **kw)
        seed_all(seed)
        new, a1 = copy.deepcopy(model), AE()
        new.fit(data.clone(), algorithm=a1, max_epochs=1, learning_rate=0.001, **kw)
        with torch.no_grad():
            t0, t1 = a0.encoder(enc), a1.encoder(enc)
        P0 = P_of(model, t0)
        rec({"op": "descent", "err": "", "part": "all", "x": x, "P0": P0, "P1": P_of(new, t1), "tol": num(0.002 * n)})
        rec({"op": "descent", "err": "", "part": "encoder", "x": x, "P0": P0, "P1": P_of(model, t1), "tol": num(0.002 * n)})
        rec({"op": "descent", "err": "", "part": "model", "x": x, "P0": P0, "P1": P_of(new, t0), "tol": num(0.002 * n)})
        matters(model, new, t0, x, rec)
        return
    seed = case["seed"]
    mm, aa = copy.deepcopy(model), VAE()
    with Tap() as tap:
        mm.fit(data.clone(), algorithm=aa, max_epochs=1, learning_rate=TINY, **dict(vkw, iw_samples=80))
    inp, out = next((i, o) for mod, i, o in tap.calls if mod is aa.encoder)
    th = next(i for mod, i, o in tap.calls if mod is mm)
    rec({"op": "samples", "err": "", "samples": 80, "t": nums(th), "m": nums(out[0]), "l": nums(out[1])})
    if lv == 1:
        lkw = dict(vkw, anneal=True, annealing_iterations=10 ** 9)
        frozen = copy.deepcopy(model)
        frozen.requires_grad_(False)
        got = []
        for lr, ep in ((TINY, 1), (0.01, 60)):
            seed_all(seed)
            mm, aa = copy.deepcopy(frozen), VAE()
            mm.fit(data.clone(), algorithm=aa, max_epochs=ep, learning_rate=lr, learning_rate_updates_before_stopping=10 ** 6, **dict(lkw, evaluation_interval_size=60))
            with torch.no_grad():
                got.append(aa.encoder(enc))
        z = torch.linspace(-4, 4, 25)
        w = torch.exp(-z ** 2 / 2)
        w = w / w.sum()
        th = [(mu + torch.exp(l / 2) * z.view(1, -1)).reshape(-1, 1) for mu, l in got]
        rec({"op": "learns", "err": "", "x": x, "w": nums(w), "P0": P_of(model, th[0]), "P1": P_of(model, th[1]), "margin": "0"})
