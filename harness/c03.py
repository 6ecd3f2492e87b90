"""Calls leave the caller's data and the fitted model unchanged: spec/Lifecycle.tla."""
import random
import tempfile
import shutil
import torch
import lifecycle as lc
import modelkit as mk, evalkit as ek

SPEC = "LifecycleTrace"
MC = [{"module": "LifecycleMC", "cfg": "LifecycleMC.cfg", "thorough": "LifecycleMCdeep.cfg"}]
ASSUMPTIONS = ["random questions are asked with the same seed; a question that cannot be answered must fail in the same way every time",
               "one algorithm object is used for one model",
               "answers of the same state are compared to 0.0001"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    quick = tier == "quick"
    out = []
    plain = [s["calls"] for s in scenarios if not any(k["op"] in ("save", "load") for k in s["calls"]) and s["hit"]]
    for calls in rng.sample(plain, min(len(plain), 60 if quick else 500)):
        out.append(dict(lc.mk_session(rng, calls, 8), src="spec"))
    names = lc.NAMES * (3 if quick else 20)
    for i, name in enumerate(names):
        c = lc.mk_model(rng, name, lvs=(1, 1, 2, 3))
        out.append({"src": "random", "op": "catalogue", "mcase": c, "alg": lc.ALGS[(i // 12 + i) % 4], "scales": rng.choice([0, 0, 1, 2]), "x": lc.mk_responses(rng, 14, c["cats"], 0.1),
                    "x3": lc.mk_responses(rng, 6, c["cats"], rng.choice([0.0, 0.15])), "theta": [[rng.uniform(-1.5, 1.5) for _ in range(c["lv"])] for _ in range(6)],
                    "questions": 36 if quick else 200, "seed": rng.randrange(10 ** 6)})
    for _ in range(6 if quick else 60):
        c = lc.mk_model(rng, rng.choice(["nom", "gpc", "2pl"]))
        if c["model"] == "nom":
            c["key"] = [rng.randrange(m) for m in c["cats"]]
        out.append({"src": "random", "op": "helpers", "mcase": c, "x3": lc.mk_responses(rng, 12, c["cats"], 0.15),
                    "theta": [[rng.uniform(-1.5, 1.5) for _ in range(c["lv"])] for _ in range(12)], "seed": rng.randrange(10 ** 6)})
    return out


def run(case, rec):
    tmp = tempfile.mkdtemp(prefix="verif-life-")
    try:
        if case["op"] == "play":
            lc.play(case, rec, tmp)
        elif case["op"] == "catalogue":
            catalogue(case, rec)
        else:
            helpers(case, rec)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def catalogue(case, rec):
    rng = random.Random(case["seed"])
    c, alg = case["mcase"], case["alg"]
    m = lc.make(c, rng)
    other = lc.make(c, rng)
    train = lc.tensor_of(case["x"], rng)
    d0, t0 = lc.tensor_of(case["x3"], rng), torch.tensor(case["theta"])
    bd, wd = lc.window(d0)
    bt, wt = lc.window(t0)
    gt = t0.clone().requires_grad_(True)
    s = lc.Session(rec, {"A": m, "B": other}, {"train": train, "d": d0, "t": t0, "big_d": bd, "big_t": bt, "grad_t": gt})
    if s.call({"op": "fit", "m": "A"}, lambda: lc.fit(m, alg, train, c, case["seed"]))["err"]:
        return
    for i in range(case["scales"]):
        s.call({"op": "scale", "m": "A"}, lambda: {"kind": lc.add_scale(m, c, case["seed"] + i)})
    if rng.random() < 0.4 and len(list(m.parameters())) > 1:
        s.call({"op": "freeze", "m": "A"}, lambda: lc.freeze(m))
    cat = lc.catalogue(m, c["lv"], c, alg, case["scales"] > 0)
    names = sorted(cat)
    for q in rng.sample(names, min(len(names), case["questions"])):
        f = cat[q]
        s.ask("A", q, "d", lambda: f(m, d0, t0))
        kind = rng.choice(["again", "window", "grad", "nograd", "train"])
        if kind == "again":
            s.ask("A", q, "d", lambda: f(m, d0, t0))
        elif kind == "window":
            s.ask("A", q, "d", lambda: f(m, wd, wt))
        elif kind == "grad":
            s.ask("A", q, "d-grad", lambda: f(m, d0, gt))      # an answer may then refuse to be detached
        elif kind == "nograd":
            def quiet():
                with torch.no_grad():
                    return f(m, d0, t0)
            s.ask("A", q, "d-nograd" if "link" in q or "flow" in q or "validation" in q else "d", quiet)
        else:
            s.call({"op": "mode", "m": "A"}, lambda: {} if m.train() is None else {})
            s.ask("A", q, "d", lambda: f(m, d0, t0))
            s.call({"op": "mode", "m": "A"}, lambda: {} if m.eval() is None else {})


def helpers(case, rec):
    rng = random.Random(case["seed"])
    c = case["mcase"]
    d0, t0 = lc.tensor_of(case["x3"], rng), torch.tensor(case["theta"])
    bd, wd = lc.window(d0)
    bt, wt = lc.window(t0)
    s = lc.Session(rec, {"A": lc.make(c, rng)}, {"d": d0, "t": t0, "big_d": bd, "big_t": bt})
    for q, f in lc.helper_questions(c, c["lv"]).items():
        s.ask("A", q, "d", lambda: f(d0, t0))
        s.ask("A", q, "d", lambda: f(wd, wt))
