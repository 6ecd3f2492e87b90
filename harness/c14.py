"""A saved model is the same model when loaded: spec/Lifecycle.tla."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import torch
import core
import lifecycle as lc

SPEC = "LifecycleTrace"
MC = [{"module": "LifecycleMC", "cfg": "LifecycleMC.cfg", "thorough": "LifecycleMCdeep.cfg"}]
ASSUMPTIONS = ["a model of the same form: same class, items, categories and declared relationships",
               "answers of the saved and the loaded model are compared to 0.0001",
               "a latent density the user asked to approximate is a cache of the evaluator and is not part of the saved model"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    quick = tier == "quick"
    out = []
    moved = [s["calls"] for s in scenarios if any(k["op"] in ("load", "copy") for k in s["calls"])]
    hit = [s["calls"] for s in scenarios if s["hit"] and any(k["op"] in ("load", "copy") for k in s["calls"])]
    for grp, k in ((hit, 50), (moved, 20)):
        for calls in rng.sample(grp, min(len(grp), k if quick else 8 * k)):
            out.append(dict(lc.mk_session(rng, calls, 8), src="spec"))
    names = lc.NAMES * (3 if quick else 20)
    for i, name in enumerate(names):
        calls = []
        c = lc.mk_session(rng, calls, 30 if quick else 200, names=[name])
        c.update(src="random", op="roundtrip", alg=lc.ALGS[(i + i // 12) % 4], other=rng.choice([None] + lc.ALGS), scales=rng.choice([0, 1, 2]), stale=rng.choice([0, 1]),
                 process=i % 9 == 0, refit=rng.random() < 0.3)
        out.append(c)
    return out


def run(case, rec):
    tmp = tempfile.mkdtemp(prefix="verif-life-")
    try:
        if case["op"] == "play":
            lc.play(case, rec, tmp)
        else:
            roundtrip(case, rec, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def questions(case, model):
    rng = random.Random(case["seed"] + 5)
    cat = lc.catalogue(model, case["mcase"]["lv"], case["mcase"], case["alg"], case["scales"] > 0)
    names = sorted(cat)
    keep = [n for n in names if n.startswith(("train_", "scores_", "item_parameters", "item_probabilities", "transform", "inverse", "jacobian"))]
    rest = [n for n in names if n not in keep and n != "cross_validation"]
    return cat, rng.sample(keep, min(len(keep), case["questions"] // 2)) + rng.sample(rest, min(len(rest), case["questions"] // 2))


def inputs(case):
    rng = random.Random(case["seed"])
    c = case["mcase"]
    A, B = lc.make(c, rng), lc.make(c, rng)
    return A, B, lc.tensor_of(case["x"], rng), lc.tensor_of(case["x2"], rng), lc.tensor_of(case["x3"], rng), torch.tensor(case["theta"])


def roundtrip(case, rec, tmp):
    c, alg = case["mcase"], case["alg"]
    A, B, data, data2, d, t = inputs(case)
    s = lc.Session(rec, {"A": A, "B": B}, {"data": data, "data2": data2, "d": d, "t": t})
    f, g = os.path.join(tmp, "a.pt"), os.path.join(tmp, "b.pt")
    if s.call({"op": "fit", "m": "A"}, lambda: lc.fit(A, alg, data, c, case["seed"]))["err"]:
        return
    for i in range(case["scales"]):
        s.call({"op": "scale", "m": "A"}, lambda: {"kind": lc.add_scale(A, c, case["seed"] + i)})
    if case["refit"]:
        s.call({"op": "fit", "m": "A"}, lambda: lc.fit(A, alg, data, c, case["seed"] + 9))
    # the model that loads may have a history of its own
    if case["other"]:
        s.call({"op": "fit", "m": "B"}, lambda: lc.fit(B, case["other"], data2, c, case["seed"] + 3))
        if case["stale"]:
            s.call({"op": "scale", "m": "B"}, lambda: {"kind": lc.add_scale(B, c, case["seed"] + 4)})
            s.call({"op": "density", "m": "B"}, lambda: B.evaluate.approximate_latent_density(torch.randn(30, c["lv"]), "qmvn"))
    cat, names = questions(case, A)
    for q in names:
        s.ask("A", q, "d", lambda: cat[q](A, d, t))
    s.call({"op": "save", "m": "A", "f": "f"}, lambda: A.save_model(f))
    s.call({"op": "load", "m": "B", "f": "f"}, lambda: B.load_model(f))
    for q in names:
        s.ask("B", q, "d", lambda: cat[q](B, d, t))
    # further saves and loads change nothing
    s.call({"op": "save", "m": "B", "f": "g"}, lambda: B.save_model(g))
    s.call({"op": "load", "m": "A", "f": "g"}, lambda: A.load_model(g))
    s.call({"op": "load", "m": "A", "f": "f"}, lambda: A.load_model(f))
    for q in names[::3]:
        s.ask("A", q, "d", lambda: cat[q](A, d, t))
        s.ask("B", q, "d", lambda: cat[q](B, d, t))
    if case["process"]:          # another process loads the file into a new model
        cf, of = os.path.join(tmp, "case.json"), os.path.join(tmp, "out.json")
        json.dump(case, open(cf, "w"))
        subprocess.run([sys.executable, os.path.abspath(__file__), cf, f, of], check=True, env=dict(os.environ), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        for e in json.load(open(of)):
            ev = s.snap()
            ev["models"]["B"] = e["fp"]
            ev.update(op=e["op"], m="B", q=e.get("q", ""), d="d", tol="1/10000", err="", v=e.get("v", []), out=e.get("out", ""), f="f")
            rec(ev)


def elsewhere(casefile, f, outfile):
    torch.set_num_threads(1)
    case = json.load(open(casefile))
    A, B, data, data2, d, t = inputs(case)
    B.load_model(f)
    cat, names = questions(case, B)
    names = names[::2]
    out = []
    s = lc.Session(lambda e: None, {"B": B}, {})
    fp = s.snap()["models"]["B"]
    out.append({"op": "load", "fp": fp})
    for q in names:
        e = s.ask("B", q, "d", lambda: cat[q](B, d, t))
        out.append({"op": "ask", "q": q, "v": e["v"], "out": e["out"], "fp": e["models"]["B"]})
    json.dump(out, open(outfile, "w"))


if __name__ == "__main__":
    elsewhere(*sys.argv[1:4])
