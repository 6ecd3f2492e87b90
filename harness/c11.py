"""Cross-validation holds out everyone once and reports held-out likelihoods: spec/CrossVal.tla."""
import json, os, random, tempfile
import torch
from core import num, nums, guarded, seed_all
import modelkit as mk, evalkit as ek
import c12

SPEC = "CrossValTrace"
MC = [{"module": "CrossValMC", "cfg": "CrossValMC.cfg", "thorough": "CrossValMCdeep.cfg"}]
CASE_TIMEOUT = 200
ASSUMPTIONS = ["respondents are recognised by their responses, so the recorded data sets have distinct rows",
               "the training runs are written down by a stand-in estimation algorithm whose fitted probabilities do not depend on the latent variables",
               "the intermodel vigorish is judged where it is defined: both models predict better than a fair coin"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 8
    out = []
    pool = sorted({(len(s["fold"]), s["folds"]) for s in scenarios})
    for n, f in pool:
        out.append(mk_run(rng, n, f, False, "spec"))
    for i in range(22 * k):
        n = rng.choice([5, 6, 7, 8, 9, 10, 11, 13])
        out.append(mk_run(rng, n, rng.choice([2, 3, 4, 5]), i < 3 * k, "random"))
    for i in range(40 * k):
        n = rng.choice([1, 2, 5, 7, 10, 29, 100])
        out.append({"src": "random", "op": "split", "n": n, "share": rng.choice([0.0, 0.2, 0.29, 0.5, 0.8, 1.0]), "shuffle": rng.random() < 0.7, "seed": rng.randrange(10 ** 6)})
    for i in range(2 * k):
        out.append({"src": "random", "op": "fleet", "models": rng.choice([2, 3]), "seed": rng.randrange(10 ** 6)})
    for i in range(40 * k):
        J = rng.choice([1, 2, 3])
        cats = [2] * J if rng.random() < 0.6 else mk.mk_cats(rng, J)
        out.append({"src": "random", "op": "vigorish", "cats": cats, "lv": rng.choice([1, 2]), "n": rng.choice([2, 4, 6]), "seed": rng.randrange(10 ** 6), "missing": rng.choice([0, 0.3])})
    return out


def mk_run(rng, n, folds, parallel, src):
    return {"src": src, "op": "run", "n": n, "folds": folds, "parallel": parallel, "cats": [4, rng.choice([2, 3]), 3], "seed": rng.randrange(10 ** 6),
            "shift": rng.choice([[0.5], [0.5, 2.0], [0.25, 1.0, 3.0]]), "sharp": rng.choice([None, [1.0], [1.0, 0.5]]), "extra": rng.choice([None, 3]),
            "theta": rng.choice(["ML", "EAP", "MAP"]), "coding": rng.choice(["nan", "-1", "mixed"])}


def distinct(rng, n, cats):
    rows, seen = [], set()
    while len(rows) < n:
        r = [-1 if rng.random() < 0.15 else rng.randrange(m) for m in cats]
        if tuple(r) not in seen:
            seen.add(tuple(r))
            rows.append(r)
    return rows


def run(case, rec):
    rng = random.Random(case["seed"])
    {"run": run_cv, "split": run_split, "fleet": run_fleet, "vigorish": run_imv}[case["op"]](case, rng, rec)


def back(t):
    return [[-1 if v != v else int(v) for v in r] for r in t.tolist()]


def nominal(rng, cats):
    from irtorch.models import NominalResponse
    m = NominalResponse(latent_variables=1, item_categories=list(cats))
    with torch.no_grad():
        m.bias_param.copy_(torch.tensor([rng.uniform(-0.5, 0.5) for _ in range(m.bias_param.numel())]).reshape(m.bias_param.shape))
    return m


def run_cv(case, rng, rec):
    import stubs
    from irtorch.utils import cross_validation
    x = distinct(rng, case["n"], case["cats"])
    data = c12.encode(x, case["coding"], rng)
    model = nominal(rng, case["cats"])
    entry = nums(model.bias_param.detach())
    fd, path = tempfile.mkstemp(prefix="cv", suffix=".jsonl")
    os.close(fd)
    try:
        alg = stubs.Frequencies(path)
        grid = {"shift": case["shift"]}
        if case["sharp"] is not None:
            grid["sharp"] = case["sharp"]
        kw = {} if case["extra"] is None else {"extra": case["extra"]}
        names = list(grid)
        num_ = lambda v: num(float(v)) if v is not None else "nan"
        rec({"op": "run", "data": x, "folds": case["folds"], "values": [[num_(v) for v in vs] for vs in grid.values()], "entry": entry, "extra": num_(case["extra"])})
        try:
            with torch.random.fork_rng():
                torch.manual_seed(case["seed"])
                df = cross_validation(model, data=data, folds=case["folds"], params_grid=grid, theta_estimation=case["theta"], device="cpu",
                                      multiprocessing=case["parallel"], cores_to_use=2, algorithm=alg, **kw)
        except Exception as ex:
            return guarded(rec, {"op": "table"}, lambda: (_ for _ in ()).throw(ex))
        for line in open(path):
            f = json.loads(line)
            rec({"op": "fit", "setting": [num_(f[k]) for k in names], "extra": num_(f["extra"]), "rows": f["rows"], "entry": f["entry"], "p": f["p"], "fits": f["fits"], "seen": f["seen"]})
        rec({"op": "table", "rows": [[num_(v) for v in r] for r in df[names].values.tolist()], "lls": [num_(v) for v in df["log_likelihood"].tolist()]})
        rec({"op": "after", "untrained": model.algorithm is None and alg.fits == 0 and alg.train_data is None, "entry": nums(model.bias_param.detach()), "data": back(data)})
    finally:
        os.remove(path)


def run_split(case, rng, rec):
    from irtorch.utils import split_data, set_seed
    n = case["n"]
    data = torch.arange(1, n + 1).float().view(-1, 1).repeat(1, 2)
    ids = lambda t: [int(v) for v in t[:, 0].tolist()]

    def go():
        set_seed(case["seed"])
        a, b = split_data(data, case["share"], case["shuffle"])
        set_seed(case["seed"])
        c, _ = split_data(data, case["share"], case["shuffle"])
        set_seed(case["seed"] + 1)
        d, e = split_data(data, case["share"], case["shuffle"])
        return {"train": ids(a), "test": ids(b), "again": ids(c), "other": ids(d) + ids(e) if n > 20 else []}
    guarded(rec, {"op": "split", "n": n, "share": num(case["share"]), "shuffle": case["shuffle"]}, go)


def run_fleet(case, rng, rec):
    import stubs
    from irtorch.utils import fit_multiple_models_cpu
    cats = [3, 2]
    x = mk.mk_data(rng, 6, cats, 0.2)
    models = [nominal(rng, cats) for _ in range(case["models"])]
    entries = [nums(m.bias_param.detach()) for m in models]
    fd, path = tempfile.mkstemp(prefix="cv", suffix=".jsonl")
    os.close(fd)
    try:
        def go():
            out = fit_multiple_models_cpu(models, c12.encode(x, "nan", rng), cores_to_use=2, algorithm=stubs.Frequencies(path))
            made = [json.loads(l) for l in open(path)]
            with torch.no_grad():
                P = [nums(m.item_probabilities(torch.zeros(1, 1))[0]) for m in out]
            return {"P": P, "made": [{"entry": f["entry"], "p": f["p"], "rows": f["rows"]} for f in made]}
        guarded(rec, {"op": "fleet", "entries": entries, "data": x}, go)
    finally:
        os.remove(path)


def run_imv(case, rng, rec):
    import stubs
    from irtorch.utils import imv
    cats, n = case["cats"], case["n"]
    c = {"model": "tab", "cats": cats, "lv": case["lv"]}
    x = mk.mk_data(rng, n, cats, case["missing"])
    for _ in range(50):
        tabs = []
        for m in range(2):
            th = ek.mk_theta(rng, c, n)
            model = ek.make(c, rng)
            # predictions lean towards what was answered
            with torch.no_grad():
                rows = model.rows(th)
                for i, r in enumerate(x):
                    for j, v in enumerate(r):
                        if v != -1:
                            p = model.table[rows[i], j].exp()
                            p[v] += rng.uniform(0.5, 3)
                            model.table[rows[i], j] = (p / p.sum()).log()
            tabs.append((model, th))
        ok = True
        for model, th in tabs:
            with torch.no_grad():
                p = model.item_probabilities(th)
            lls = [float(p[i, j, v].log()) for i, r in enumerate(x) for j, v in enumerate(r) if v != -1]
            ok = ok and lls and -0.66 < sum(lls) / len(lls) < -0.02
        if ok:
            break
    else:
        return
    (a, ta), (b, tb) = tabs
    data = c12.encode(x, rng.choice(["nan", "-1"]), rng)
    guarded(rec, {"op": "vigorish", "x": x, "P1": ek.probs(a, ta), "P2": ek.probs(b, tb)}, lambda: {"value": num(float(imv(a, b, data.clone(), ta.clone(), tb.clone())))})
    guarded(rec, {"op": "vigorish", "x": x, "P1": ek.probs(a, ta), "P2": ek.probs(a, ta)}, lambda: {"value": num(float(imv(a, a, data.clone(), ta.clone(), ta.clone())))})
