"""Models, data and latent scores for checks of Evaluator and of score-level answers."""
import random
import torch
import modelkit as mk
from core import nums

NAMES = ["1pl", "2pl", "3pl", "gpc", "gr", "nom", "nn", "poly", "bspline", "surprisal", "nested", "tab", "tab", "tab"]


class Trained:
    """What a fitted model keeps of its training."""

    def __init__(self, data, theta=None):
        self.train_data, self.training_theta_scores = data, theta


def mk_model_case(rng, x=None, names=NAMES, cats=None):
    name = rng.choice(names)
    if x is not None:
        J = len(x[0])
        top = [max(1, max(r[j] for r in x)) + 1 for j in range(J)]
        if any(t > 2 for t in top) and name in mk.BINARY:
            name = "gpc"
    else:
        J = None
    if name == "tab":
        J = J or rng.choice([1, 2, 3, 4])
        cats = [rng.randint(2, 4) for _ in range(J)]
        c = {"model": "tab", "cats": cats, "lv": rng.choice([1, 2])}
        if rng.random() < 0.5:
            c["key"] = [rng.randrange(m) for m in cats]
    else:
        c = mk.mk_case(rng, name, rel=rng.random() < 0.2, lvs=(1, 1, 2), J=J)
    if x is not None:
        c["cats"] = [2 if name in mk.BINARY else max(m, t) for m, t in zip(c["cats"], top)]
        if "key" in c:
            c["key"] = [rng.randrange(m) for m in c["cats"]]
    return c


def mk_table(rng, rows, cats, zero=0.0):
    tab = []
    for _ in range(rows):
        row = []
        for m in cats:
            w = [rng.randint(1, 60) for _ in range(m)]
            while len(set(w)) < m:
                w = [rng.randint(1, 60) for _ in range(m)]
            if rng.random() < zero:
                w[rng.randrange(m)] = 0
            elif rng.random() < zero:
                w[rng.randrange(m)] = 1e-18
            if zero and rng.random() < 0.1:
                w = [0] * m
                w[rng.randrange(m)] = 1
            s = sum(w)
            row.append([a / s for a in w])
        tab.append(row)
    return tab


def make(case, rng, zero=0.0):
    """(model, rows): rows = number of distinct latent positions of a table model."""
    if case["model"] == "tab":
        import stubs
        return stubs.TabModel(mk_table(rng, 9, case["cats"], zero), case["cats"], case["lv"], case.get("key"), offset=4)
    m = mk.build(case)
    mk.randomize(m, case, rng)
    return m


def key_of(model):
    return [int(k) for k in model.mc_correct] if model.mc_correct is not None else []


def mk_theta(rng, case, n, distinct=False):
    lv = case["lv"]
    if case["model"] == "tab":
        first = [rng.randint(-4, 4) + rng.uniform(-0.3, 0.3) for _ in range(n)]
        return torch.tensor([[f] + [rng.uniform(-2, 2) for _ in range(lv - 1)] for f in first])
    return torch.tensor([[rng.uniform(-2, 2) for _ in range(lv)] for _ in range(n)])


def probs(model, theta):
    with torch.no_grad():
        return nums(model.item_probabilities(theta))


def near_tie(model, theta):
    """Two categories (nearly) equally likely somewhere: the predicted response is then not determined."""
    with torch.no_grad():
        p = model.item_probabilities(theta)
        t = p.topk(2, dim=2).values
        return bool((t[..., 0] - t[..., 1] < 1e-5).any())


def fit_domain(model, theta, x):
    """Item variances well above rounding, or exactly zero with no error."""
    with torch.no_grad():
        p = model.item_probabilities(theta)
        sc = torch.zeros(p.shape[1:])
        for j in range(p.shape[1]):
            for k in range(p.shape[2]):
                sc[j, k] = (float(k == int(model.mc_correct[j])) if model.mc_correct is not None else float(k))
        e = (p * sc).sum(dim=2, keepdim=True)
        v = ((sc - e) ** 2 * p).sum(dim=2)
        for i, r in enumerate(x):
            for j, o in enumerate(r):
                if o != -1 and v[i, j] < 1e-4 and not (float(v[i, j]) == 0 and float(e[i, j, 0]) == float(sc[j, o])):
                    return False
    return True
