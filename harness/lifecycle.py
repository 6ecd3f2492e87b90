"""Sessions on real models: fingerprints of everything a call could change, and the catalogue of
questions a user can ask (spec/Lifecycle.tla)."""
import copy
import hashlib
import math
import os
import random
import tempfile
import torch
import modelkit as mk, evalkit as ek, queries as qs, scales as sc
from core import num, nums

ALGS = ["mml", "jml", "ae", "vae"]


# ---------------------------------------------------------------- fingerprints
def h(*parts):
    m = hashlib.sha1()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"|")
    return m.hexdigest()[:16]


def tfp(t):
    a = t.detach()
    # NaN payloads and negative zeros do not matter to anyone
    return h(tuple(a.shape), a.dtype, repr(a.reshape(-1).tolist()))


def vfp(v, seen=None):
    """A value reachable from public attributes."""
    seen = seen or set()
    if isinstance(v, torch.nn.Module):
        return h(*[(k, tfp(t)) for k, t in sorted(v.state_dict().items())], *[m.training for m in v.modules() if list(m.parameters(recurse=False)) or m is v]) if id(v) not in seen else "seen"
    if isinstance(v, torch.Tensor):
        return tfp(v)
    if isinstance(v, dict):
        return h(*[(str(k), vfp(x, seen)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return h(len(v), *[vfp(x, seen) for x in v])
    if isinstance(v, (int, float, str, bool, type(None))):
        return repr(v)
    return type(v).__name__


def public(o, skip=()):
    return {k: vfp(v) for k, v in sorted(vars(o).items()) if not k.startswith("_") and k not in skip}


ALG_PARTS = ("train_data", "training_theta_scores", "training_history", "encoder", "covariance_matrix", "one_hot_encoded", "imputation_method")


def scale_fp(s):
    return h(type(s).__name__, public(s, skip=("model",)))


def model_fp(m):
    sd = m.state_dict()
    a = m.algorithm
    den = m._evaluate.latent_density if getattr(m, "_evaluate", None) is not None else None
    return {"names": h(*[(k, tuple(t.shape), t.dtype) for k, t in sd.items()]),
            "params": h(*[tfp(t) for t in sd.values()]),
            "frozen": h(*[(k, p.requires_grad) for k, p in m.named_parameters()]),
            "mode": h(*[x.training for x in m.modules()]),
            "alg": h(type(a).__name__, *[(k, vfp(getattr(a, k, None))) for k in ALG_PARTS]) if a is not None else "none",
            "scales": h(*[scale_fp(s) for s in m.scale]),
            "density": "none" if den is None else h(type(den).__name__, vfp(den) if isinstance(den, torch.nn.Module) else public(den))}


def tensor_fp(t):
    if isinstance(t, torch.Tensor):
        return h(tfp(t), t.requires_grad, t.grad is None, t.stride())
    return vfp(t)


def env_fp():
    return h(torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.get_default_dtype(), torch.get_default_device())


class Session:
    def __init__(self, rec, models, tensors):
        self.rec, self.models, self.tensors = rec, models, tensors
        self.rec(dict(self.snap(), op="session", err=""))

    def snap(self):
        return {"models": {k: model_fp(m) for k, m in self.models.items()}, "tensors": {k: tensor_fp(t) for k, t in self.tensors.items()}, "env": env_fp()}

    def call(self, ev, fn):
        """One call on the real library; the event records the state after it."""
        ev = dict(ev)
        try:
            ev.update(fn() or {})
            ev["err"] = ""
        except Exception as ex:
            ev["err"] = f"{type(ex).__name__}: {ex}"[:300]
        ev.update(self.snap())
        self.rec(ev)
        return ev

    def ask(self, m, q, d, fn, tol="1/10000", seed=7):
        """A question: whether it can be answered is part of the answer."""
        ev = {"op": "ask", "m": m, "q": q, "d": d, "tol": tol, "err": ""}
        torch.manual_seed(seed)
        random.seed(seed)
        import numpy
        numpy.random.seed(seed)
        try:
            v = fn()
            ev["v"], ev["out"] = plain(v), "answer"
        except Exception as ex:
            ev["v"], ev["out"] = [], "raised " + type(ex).__name__
            ev["why"] = str(ex)[:200]
        ev.update(self.snap())
        self.rec(ev)
        return ev


def plain(v, cap=160):
    """Any answer as a tree of exact numbers; long ones are thinned."""
    if v is None or isinstance(v, str):
        return []
    if isinstance(v, torch.Tensor):
        f = v.detach().reshape(-1)
        if f.numel() > cap:
            f = f[torch.linspace(0, f.numel() - 1, cap).long()]
        return nums(f)
    if isinstance(v, (int, float, bool)):
        return [num(v)]
    if hasattr(v, "values") and not isinstance(v, dict):          # data frame
        return plain(torch.tensor([[float(x) for x in r] for r in v.select_dtypes("number").values.tolist()]).double(), cap)
    if hasattr(v, "data") and hasattr(v, "layout"):                # figure
        import numpy
        out = []
        for t in v.data:
            for k in ("x", "y", "z"):
                a = getattr(t, k, None)
                if a is not None and len(a) and not isinstance(a[0], str):
                    out.append(plain(torch.tensor(numpy.asarray(a, dtype=float).reshape(-1).tolist()).double(), 40))
        return out
    if isinstance(v, dict):
        return [plain(x, cap) for x in v.values()]
    if isinstance(v, (list, tuple)):
        return [plain(x, cap) for x in v]
    if hasattr(v, "tolist"):
        return plain(torch.tensor(v.tolist()).double(), cap)
    return []


# ---------------------------------------------------------------- fitting
def algorithm(name):
    from irtorch.estimation_algorithms import AE, VAE, MML, JML
    return {"ae": AE, "vae": VAE, "mml": MML, "jml": JML}[name]()


def fit_args(alg, case, rng):
    kw = {"max_epochs": 3, "learning_rate": 0.05, "device": "cpu"}
    if alg == "mml":
        kw.update(integration_method=rng.choice(["gauss_hermite", "quasi_mc"]), quadrature_points=5)
    if alg in ("ae", "vae"):
        imp = rng.choice([None, "zero", "mean"] + (["random incorrect"] if case.get("key") else []))
        kw.update(batch_size=rng.choice([None, 8]), imputation_method=imp, one_hot_encoded=imp is None or (imp != "mean" and rng.random() < 0.6),
                  hidden_layers_encoder=[4], evaluation_interval_size=1, batch_normalization_encoder=rng.random() < 0.5)
    if alg == "vae":
        kw.update(iw_samples=rng.choice([1, 2]))
    if alg == "jml":
        kw.update(batch_size=rng.choice([None, 8]))
    return kw


# ---------------------------------------------------------------- questions
def catalogue(model, lv, case, alg, with_scale):
    """name -> fn(model, data, theta): all questions with data given by the caller."""
    q = {}
    g = torch.Generator().manual_seed(5)
    q["forward"] = lambda m, d, t: m(t)
    q["item_probabilities"] = lambda m, d, t: m.item_probabilities(t)
    q["probabilities_from_output"] = lambda m, d, t: m.probabilities_from_output(m(t))
    for b in (True, False):
        q[f"expected_scores_{b}"] = lambda m, d, t, b=b: m.expected_scores(t, return_item_scores=b)
        for r in (True, False):
            q[f"score_gradients_{b}_{r}"] = lambda m, d, t, b=b, r=r: m.expected_item_score_gradients(t, rescale_by_item_score=b, rescale=r)
            q[f"information_{b}_{r}"] = lambda m, d, t, b=b, r=r: m.information(t, item=b, rescale=r)
        q[f"probability_gradients_{b}"] = lambda m, d, t, b=b: m.probability_gradients(t, rescale=b)
        q[f"discrimination_{b}"] = lambda m, d, t, b=b: m.population_discrimination(t, rescale=b)
    q["information_degrees"] = lambda m, d, t: m.information(t, degrees=[30] * lv)
    q["difficulty"] = lambda m, d, t: m.population_difficulty(t)
    q["directions"] = lambda m, d, t: m.item_theta_relationship_directions(t)
    q["sample"] = lambda m, d, t: m.sample_test_data(t)
    q["item_parameters"] = lambda m, d, t: m.item_parameters()
    q["item_parameters_irt"] = lambda m, d, t: m.item_parameters(irt_format=True)
    q["transform"] = lambda m, d, t: m.transform_theta(t)
    q["inverse"] = lambda m, d, t: m.inverse_transform_theta(t)
    q["jacobian"] = lambda m, d, t: m.theta_transform_jacobian(t)
    pts = (15, 7, 5)[lv - 1]
    for meth in ("EAP", "ML", "MAP") + (("NN",) if alg in ("ae", "vae") else ()):
        kw = {"eap_theta_integration_points": pts} if meth == "EAP" else {}
        for r in ((True, False) if with_scale else (True,)):
            q[f"scores_{meth}_{r}"] = lambda m, d, t, meth=meth, kw=kw, r=r: m.latent_scores(d, theta_estimation=meth, device="cpu", rescale=r, **kw)
            if meth in ("ML", "NN"):
                q[f"scores_se_{meth}_{r}"] = lambda m, d, t, meth=meth, r=r: list(m.latent_scores(d, standard_errors=True, theta_estimation=meth, device="cpu", rescale=r))

    def wrap(f):
        return lambda m, d, t, f=f: f(d, t)

    for maker in ("data", "group", "pair"):
        names = {"data": lambda m: qs.data_queries(m, lv, n=1), "group": lambda m: qs.group_queries(m, lv, 6), "pair": lambda m: qs.pair_queries(m)}[maker]
        for name in names(model):
            if name == "plot_ll":
                continue
            q[name] = lambda m, d, t, name=name, names=names: names(m)[name][2](d, t)
    # questions answered from the training data the model keeps
    q["train_log_likelihood"] = lambda m, d, t: m.evaluate.log_likelihood(theta_estimation="NN" if alg in ("ae", "vae") else "EAP", level="respondent")
    q["train_residuals"] = lambda m, d, t: m.evaluate.residuals(theta_estimation="NN" if alg in ("ae", "vae") else "EAP", average_over="items")
    q["train_infit"] = lambda m, d, t: list(m.evaluate.infit_outfit(theta_estimation="NN" if alg in ("ae", "vae") else "EAP"))
    q["train_accuracy"] = lambda m, d, t: m.evaluate.accuracy(theta_estimation="NN" if alg in ("ae", "vae") else "EAP", level="item")
    q["train_groups"] = lambda m, d, t: list(m.evaluate.latent_group_probabilities(groups=2, theta_estimation="NN" if alg in ("ae", "vae") else "EAP"))
    q["train_theta"] = lambda m, d, t: m.algorithm.training_theta_scores if getattr(m.algorithm, "training_theta_scores", None) is not None else []
    q["train_history"] = lambda m, d, t: m.algorithm.training_history
    for meth in ("data", "qmvn") + (("encoder sampling",) if alg == "vae" else ()):
        kw = dict(trapezoidal_segments=(12, 5, 3)[lv - 1], sample_size=20)
        q[f"sum_scores_{meth}"] = lambda m, d, t, meth=meth, kw=kw: m.evaluate.sum_score_probabilities(latent_density_method=meth, **kw)
        if meth != "gmm":
            q[f"sum_scores_{meth}_pop"] = lambda m, d, t, meth=meth, kw=kw: m.evaluate.sum_score_probabilities(latent_density_method=meth, population_data=d, **kw)
    # plots
    lvs = {"latent_variables": (1,) if lv == 1 else (1, 2)}
    fix = {} if lv < 3 else {"fixed_thetas": torch.zeros(1)}
    for r in (True, False):
        kw = dict(steps=4, rescale=r, **lvs, **fix)
        if lv == 1:
            kw["theta_range"] = (-1.5, 1.5)
        else:
            kw.update(theta_range=(-1.5, 1.5), second_theta_range=(-1.0, 1.0))
        q[f"plot_probabilities_{r}"] = lambda m, d, t, kw=kw: m.plot.item_probabilities(1, **kw)
        q[f"plot_information_{r}"] = lambda m, d, t, kw=kw: m.plot.information(degrees=None if lv == 1 else [45] * lv, **kw)
        q[f"plot_entropy_{r}"] = lambda m, d, t, kw=kw: m.plot.item_entropy(1, **kw)
        q[f"plot_expected_{r}"] = lambda m, d, t, kw=kw: m.plot.expected_sum_score(**kw)
        q[f"plot_ll_{r}"] = lambda m, d, t, kw=kw: m.plot.log_likelihood(d[[0]], **kw)
        q[f"plot_distribution_{r}"] = lambda m, d, t, r=r: m.plot.latent_score_distribution(rescale=r, **({} if m.algorithm.training_theta_scores is not None else {"scores_to_plot": t}))
    q["plot_scores"] = lambda m, d, t: m.plot.latent_score_distribution(scores_to_plot=t)
    q["plot_group_fit"] = lambda m, d, t: m.plot.item_probabilities(1, plot_group_fit=True, group_fit_groups=2, group_fit_data=d, group_fit_population_theta=t, steps=4, theta_range=(-1.5, 1.5))
    q["plot_population"] = lambda m, d, t: m.plot.latent_score_distribution(population_data=d)
    q["plot_relationships"] = lambda m, d, t: m.plot.item_latent_variable_relationships(theta=t)
    q["plot_history"] = lambda m, d, t: m.plot.training_history()
    q["plot_scales"] = lambda m, d, t: m.plot.scale_transformations(input_theta_range=(-1.0, 1.0), steps=4)
    # scale transformations built from the model or from scores
    from irtorch.rescale import Reverse, Rotate, RankCDF, Flow, LinkCommonItems, Bit

    def used(s, t, jac=True):
        out = [s.transform(t)]
        if s.invertible:
            out.append(s.inverse(out[0]))
        if jac:
            out.append(s.jacobian(t))
        return out
    q["make_reverse"] = lambda m, d, t: used(Reverse([True] * lv), t)
    q["make_rank"] = lambda m, d, t: used(RankCDF(t), t, False)

    def flow(m, d, t):
        f = Flow(lv)
        f.fit(t, max_epochs=2, device="cpu", num_bins=4)
        return used(f, t)
    q["make_flow"] = flow
    if lv > 1:
        q["make_rotate"] = lambda m, d, t: used(Rotate(m, theta=t), t)
    q["make_bit"] = lambda m, d, t: [Bit(m, population_theta=t).transform(t)] + ([Bit(m, start_theta=torch.full((lv,), -2.0)).jacobian(t)] if lv == 1 else [])
    q["make_bit_one"] = lambda m, d, t: Bit(m, population_theta=t).transform_to_1D(t)
    if lv == 1 and case["model"] not in ("mix",):
        def link(m, d, t, meth):
            J = len(case["cats"])
            s = LinkCommonItems(m, copy.deepcopy(m), list(range(J)), list(range(J)), method=meth)
            s.fit(t, max_epochs=2, device="cpu")
            return used(s, t) if meth == "spline" else [s.transform(t)]
        q["make_link_spline"] = lambda m, d, t: link(m, d, t, "spline")
        q["make_link_nn"] = lambda m, d, t: link(m, d, t, "neuralnet")
    from irtorch import utils as u
    q["impute_model"] = lambda m, d, t: u.impute_missing(d, method="random incorrect" if case.get("key") else "prior expected", model=m)
    q["imv"] = lambda m, d, t: u.imv(m, m, d, t, t)
    q["cross_validation"] = lambda m, d, t: u.cross_validation(m, d, 2, {"learning_rate": [0.05, 0.1]}, theta_estimation="EAP", device="cpu", multiprocessing=False, algorithm=algorithm(alg), max_epochs=1)
    if alg == "vae":
        q["vae_sample"] = lambda m, d, t: m.algorithm.sample_latent_variables(m, 6)
        q["vae_sample_data"] = lambda m, d, t: m.algorithm.sample_latent_variables(m, 6, d)
    return q


def helper_questions(case, lv):
    """Questions about the caller's tensors alone: name -> fn(data, theta)."""
    from irtorch import utils as u
    from irtorch.outlier_detector import OutlierDetector
    from irtorch.quantile_mv_normal import QuantileMVNormal
    from irtorch.latent_variable_functions import interp, quantile_transform
    from irtorch.torch_modules.gaussian_mixture_model import GaussianMixtureModel
    from irtorch.irt_dataset import PytorchIRTDataset
    from irtorch import _internal_utils as iu
    q = {}
    for meth in ("zero", "mean") + (("random incorrect",) if case.get("key") else ()):
        q["impute_" + meth] = lambda d, t, meth=meth: u.impute_missing(d, method=meth, mc_correct=case.get("key"), item_categories=case["cats"])
    q["impute_em"] = lambda d, t: u.impute_missing(d, method="prior", mc_correct=case.get("key"), item_categories=case["cats"])
    q["categories"] = lambda d, t: u.get_item_categories(d)
    for sh in (True, False):
        q[f"split_{sh}"] = lambda d, t, sh=sh: list(u.split_data(d, 0.7, shuffle=sh))
    q["gauss_hermite"] = lambda d, t: list(u.gauss_hermite(3, torch.zeros(lv), torch.eye(lv)))
    q["outliers"] = lambda d, t: [OutlierDetector(1.5).is_outlier(t, t), OutlierDetector(1.5).smallest_largest_non_outlier(t)]
    q["quantile_transform"] = lambda d, t: quantile_transform(t)
    q["interp"] = lambda d, t: interp(t[:, 0], torch.linspace(-3, 3, 7), torch.linspace(-3, 3, 7) ** 3)

    def qm(d, t):
        m = QuantileMVNormal()
        m.fit(t)
        return [m.pdf(t), m.cdf(t)]
    q["qmvn"] = qm

    def gm(d, t):
        m = GaussianMixtureModel(2, lv)
        m.fit(t, iterations=3)
        return [m.pdf(t), m(t)]
    q["gmm"] = gm
    q["one_hot"] = lambda d, t: iu.one_hot_encode_test_data(d, case["cats"])
    q["sum_score"] = lambda d, t: iu.sum_score(d, case.get("key"))
    q["joint_entropy"] = lambda d, t: iu.joint_entropy_matrix(d)
    q["correlations"] = lambda d, t: iu.correlation_matrix(d)

    def ds(oh):
        def f(d, t):
            s = PytorchIRTDataset(d, one_hot_encoded=oh, item_categories=case["cats"], imputation_method="zero" if not oh else None, mc_correct=case.get("key"))
            return [[y for y in s[i][:3]] for i in range(len(s))]
        return f
    q["dataset_one_hot"], q["dataset_zero"] = ds(True), ds(False)
    return q


def tree_has(v, bad):
    return any(tree_has(x, bad) for x in v) if isinstance(v, list) else v in bad


# ---------------------------------------------------------------- building sessions
NAMES = ["1pl", "2pl", "3pl", "gpc", "gr", "nom", "nn", "poly", "bspline", "surprisal", "nested", "mix"]
SCALES1 = ["reverse", "flow", "link", "rank", "bit", "affine"]
SCALES2 = ["reverse", "rotate", "rotate_fit", "flow", "rank", "bit", "affine"]


def mk_model(rng, name=None, lvs=(1, 1, 2)):
    name = name or rng.choice(NAMES)
    if name == "mix":
        lv = rng.choice(lvs)
        parts = []
        for _ in range(2):
            p = mk.mk_case(rng, rng.choice(["2pl", "gpc", "gr", "nom"]), lvs=(lv,), J=rng.choice([1, 2]))
            p.pop("key", None)
            parts.append(p)
        return {"model": "mix", "parts": parts, "lv": lv, "cats": [m for p in parts for m in p["cats"]]}
    return mk.mk_case(rng, name, rel=rng.random() < 0.3, lvs=lvs, J=rng.choice([2, 3]))


def mk_responses(rng, n, cats, missing):
    x = mk.mk_data(rng, n, cats, missing)
    for j, m in enumerate(cats):
        for k in range(m):
            x[(j + k) % n][j] = k
    return x


def tensor_of(x, rng):
    t = torch.tensor(x).float()
    for i in range(t.shape[0]):
        for j in range(t.shape[1]):
            if t[i, j] == -1 and rng.random() < 0.5:
                t[i, j] = float("nan")
    return t


def window(t):
    """The same values as a window into a larger tensor (not contiguous)."""
    big = torch.zeros(t.shape[0] + 2, t.shape[1] + 2)
    big[1:-1, 1:-1] = t
    return big, big[1:-1, 1:-1]


def make(case, rng):
    m = mk.build(case)
    mk.randomize(m, case, rng)
    return m


def fit(m, alg, data, case, seed):
    rng = random.Random(seed)
    a = algorithm(alg)
    kw = fit_args(alg, case, rng)
    torch.manual_seed(seed)
    m.fit(data, a, **kw)


def add_scale(m, case, seed):
    rng = random.Random(seed)
    c = sc.mk_scale(rng, case["lv"], SCALES1 if case["lv"] == 1 else SCALES2)
    s, _ = sc.build(c, m, case["lv"])
    m.add_scale_transformation(s)
    return c["kind"]


def freeze(m):
    ps = list(m.parameters())
    if len(ps) > 1:      # something is left to train
        ps[0].requires_grad_(False)


def play(case, rec, tmp):
    """A session of the specification on the real library."""
    rng = random.Random(case["seed"])
    c, alg = case["mcase"], case["alg"]
    A, B = make(c, rng), make(c, rng)
    data = {"A": tensor_of(case["x"], rng), "B": tensor_of(case["x2"], rng)}
    ask_d, ask_t = tensor_of(case["x3"], rng), torch.tensor(case["theta"])
    s = Session(rec, {"A": A, "B": B}, {"dataA": data["A"], "dataB": data["B"], "d": ask_d, "t": ask_t})
    names = None
    f = os.path.join(tmp, "m.pt")
    for i, k in enumerate(case["calls"]):
        m, op = k["m"], k["op"]
        mod = s.models[m]
        if op == "fit":
            s.call({"op": "fit", "m": m}, lambda: fit(mod, alg, data[m], c, case["seed"] + i))
        elif op == "ask":
            cat = catalogue(mod, c["lv"], c, alg, True)
            if names is None:
                names = rng.sample(sorted(cat), case["questions"])
            for q in names:
                # which parameters are trained decides what a question that fits models answers
                s.ask(m, q, "d" if q != "cross_validation" else "d-" + model_fp(mod)["frozen"], lambda: cat[q](mod, ask_d, ask_t))
        elif op == "add":
            s.call({"op": "scale", "m": m}, lambda: {"kind": add_scale(mod, c, case["seed"] + i)})
        elif op == "detach":
            s.call({"op": "scale", "m": m}, mod.detach_scale_transformations)
        elif op == "freeze":
            s.call({"op": "freeze", "m": m}, lambda: freeze(mod))
        elif op == "mode":
            s.call({"op": "mode", "m": m}, lambda: {} if mod.train(not mod.training) is None else {})
        elif op == "density":
            s.call({"op": "density", "m": m}, lambda: mod.evaluate.approximate_latent_density(torch.randn(30, c["lv"]), "qmvn"))
        elif op == "save":
            s.call({"op": "save", "m": m, "f": "f"}, lambda: mod.save_model(f))
        elif op == "load":
            s.call({"op": "load", "m": m, "f": "f"}, lambda: mod.load_model(f))
        elif op == "copy":
            o = "B" if m == "A" else "A"

            def cp():
                s.models[o] = copy.deepcopy(mod)
            s.call({"op": "copy", "m": m, "to": o}, cp)


def mk_session(rng, calls, questions, names=NAMES):
    while True:
        c = mk_model(rng, rng.choice(names))
        if c["model"] != "1pl" or not any(k["op"] == "freeze" for k in calls):
            break
    n = rng.choice([12, 16])
    lvs = c["lv"]
    return {"op": "play", "mcase": c, "alg": rng.choice(ALGS), "calls": calls, "questions": questions,
            "x": mk_responses(rng, n, c["cats"], 0.1), "x2": mk_responses(rng, n, c["cats"], 0.1), "x3": mk_responses(rng, 6, c["cats"], 0.15),
            "theta": [[rng.uniform(-1.5, 1.5) for _ in range(lvs)] for _ in range(6)], "seed": rng.randrange(10 ** 6)}
