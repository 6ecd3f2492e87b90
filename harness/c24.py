"""Local dependence and entropies: spec/LocalDep.tla."""
import random
import torch
from core import num, nums, guarded, seed_all
import modelkit as mk, evalkit as ek
from c12 import encode

SPEC = "LocalDepTrace"
MC = [{"module": "LocalDepMC", "cfg": "LocalDepMC.cfg", "thorough": "LocalDepMCdeep.cfg"}]
ASSUMPTIONS = ["every pair of items is answered by at least two respondents (mutual information is undefined otherwise)",
               "correlations are judged where both residuals vary (variance above 1e-4)",
               "the frequencies reported by the sampling tests are judged within 5.5 standard deviations"]
CASE_TIMEOUT = 120


def paired(x):
    J = len(x[0])
    return all(sum(r[i] != -1 and r[j] != -1 for r in x) > 1 for i in range(J) for j in range(J))


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    k = 1 if tier == "quick" else 10
    out = []
    pool = [s["x"] for s in scenarios if "x" in s]
    for x in rng.sample(pool, min(len(pool), 80 * k)):
        x = [list(r) for r in x]
        if rng.random() < 0.4:
            x += [[rng.choice([-1, 0, 1, 2]) for _ in x[0]] for _ in range(2)]
        out.append({"src": "spec", "op": "data", "x": x, "base": rng.choice([2.0, 2.0, 10.0, 2.718281828]), "seed": rng.randrange(10 ** 6)})
        if paired(x):
            out.append(dep(rng, ek.mk_model_case(rng, x), x, "spec"))
    for _ in range(50 * k):
        c = ek.mk_model_case(rng)
        x = mk.mk_data(rng, rng.choice([3, 6, 12]), c["cats"], rng.choice([0, 0.2, 0.4]))
        if len(c["cats"]) > 1 and paired(x):
            out.append(dep(rng, c, x, "random"))
        out.append({"src": "random", "op": "data", "x": x, "base": rng.choice([2.0, 3.0, 10.0]), "seed": rng.randrange(10 ** 6)})
    for _ in range(8 * k):
        out.append({"src": "random", "op": "tests", "seed": rng.randrange(10 ** 6)})
    return out


def dep(rng, c, x, src):
    return {"src": src, "op": "dependence", "mcase": c, "x": x, "coding": rng.choice(["nan", "-1", "mixed"]), "base": rng.choice([2.0, 2.0, 10.0, 3.0]),
            "score": rng.choice(["given", "given", "given", "estimated"]), "train": rng.random() < 0.3, "scale": rng.random() < 0.4, "seed": rng.randrange(10 ** 6)}


def run(case, rec):
    globals()["do_" + case["op"]](case, rec, random.Random(case["seed"]))


def do_data(case, rec, rng):
    from irtorch._internal_utils import correlation_matrix, joint_entropy_matrix, entropy
    x, base = case["x"], case["base"]
    if paired(x):
        t = encode(x, rng.choice(["nan", "-1", "mixed"]), rng)
        if rng.random() < 0.2:
            t = t.double()
        guarded(rec, {"op": "joint", "x": nums(torch.tensor(x)), "base": num(base)}, lambda: {"out": nums(joint_entropy_matrix(t) if base == 2.0 and rng.random() < 0.5 else joint_entropy_matrix(t, log_base=base))})
    scale = [rng.choice([1.0, -2.0, 0.5]) for _ in x[0]]
    shift = [rng.choice([0.0, 3.0, -1.0]) for _ in x[0]]
    T = torch.tensor([[float("nan") if v == -1 else a + s * v + rng.choice([0, 0.25]) for v, a, s in zip(r, shift, scale)] for r in x])
    if len(T) > 1:
        guarded(rec, {"op": "correlation", "x": nums(T)}, lambda: {"out": nums(correlation_matrix(T.clone()))})
    cats = [rng.randint(1, 5) for _ in range(2)]
    P = torch.zeros(len(x), 2, 5)
    for r, row in enumerate(ek.mk_table(rng, len(x), [max(2, c) for c in cats], 0.4)):
        for j, p in enumerate(row):
            P[r, j, :len(p)] = torch.tensor(p)
    guarded(rec, {"op": "entropy", "p": nums(P), "base": num(base)}, lambda: {"out": nums(entropy(P.clone(), log_base=base))})


def table(df):
    return nums(torch.tensor(df.to_numpy(dtype="float64")))


def do_dependence(case, rec, rng):
    import c12
    rng, model, data, th, theta, kw = c12.setup(case, 0.2)
    x, base = case["x"], case["base"]
    head = {"x": nums(torch.tensor(x)), "P": ek.probs(model, theta), "key": ek.key_of(model)}
    names = [f"Item {j + 1}" for j in range(len(x[0]))]
    clone = lambda: (None if data is None else data.clone(), None if th is None else th.clone())
    ev = model.evaluate

    def q3():
        d, t = clone()
        q, none = ev.q3(data=d, theta=t, **kw)
        return {"out": table(q), "rows": list(q.index), "columns": list(q.columns)}

    def mid():
        d, t = clone()
        m, a, none = ev.mutual_information_difference(data=d, theta=t, log_base=base, **kw)
        return {"mid": table(m), "amid": table(a), "rows": list(m.index), "columns": list(a.columns)}
    guarded(rec, dict(head, op="q3"), q3)
    guarded(rec, dict(head, op="mid", base=num(base)), mid)


def do_tests(case, rec, rng):
    """Small models whose every data set TLC weighs."""
    import stubs
    cats = rng.choice([[2, 2], [2, 2], [2, 3], [2, 2, 2]])
    N = 4 if cats != [2, 3] else 3
    key = [rng.randrange(c) for c in cats] if rng.random() < 0.3 else None
    model = stubs.TabModel(ek.mk_table(rng, 9, cats), cats, 1, key, offset=4)
    theta = torch.tensor([[float(a)] for a in rng.sample(range(-4, 5), N)])
    strong = rng.random() < 0.6
    if strong:      # respondents who differ a lot: sampled items are sometimes more, sometimes less informative about each other than on average
        for r in range(9):
            for j, c in enumerate(cats):
                top = (r % 2) * (c - 1)
                w = [rng.uniform(0.02, 0.1) for _ in range(c)]
                w[top] = rng.uniform(0.8, 0.9)
                model.table[r, j, :c] = torch.tensor([a / sum(w) for a in w]).log()
        theta = torch.tensor([[float(a)] for a in rng.choice([[-4, -3, 0, 1], [-2, -1, 2, 3], [-1, 2, 3, 4]])[:N]])
    base, samples = rng.choice([2.0, 10.0]), 1500
    x = [[rng.randrange(c) for c in cats] for _ in range(N)]
    if rng.random() < 0.5:
        x = [[min(r[0], c - 1) for c in cats] for r in x]
    data = torch.tensor(x).float()
    head = {"x": nums(torch.tensor(x)), "P": ek.probs(model, theta), "key": ek.key_of(model), "samples": samples}
    seed_all(case["seed"])

    def q3():
        q, p = model.evaluate.q3(data=data.clone(), theta=theta.clone(), sample_hypothesis_test=True, samples=samples)
        return {"p": table(p)}

    def mid():
        m, a, p = model.evaluate.mutual_information_difference(data=data.clone(), theta=theta.clone(), sample_hypothesis_test=True, samples=samples, log_base=base)
        return {"p": table(p)}
    guarded(rec, dict(head, op="q3_test"), q3)
    guarded(rec, dict(head, op="mid_test", base=num(base)), mid)
