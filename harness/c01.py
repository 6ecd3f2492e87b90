"""Training control (AE, VAE, MML, JML, and the trained scale transformations) against spec/TrainLoop.tla."""
import random
from fractions import Fraction
from core import num, nums

SPEC = "TrainLoopTrace"
MC = [{"module": "TrainLoopMC", "cfg": "TrainLoopMC.cfg", "thorough": "TrainLoopMCdeep.cfg"}]
ASSUMPTIONS = ["losses are scripted through a stand-in model built on the public base class; the optimizer and the plateau scheduler are torch's",
               "CPU only"]


def cases(tier, seed, scenarios):
    rng = random.Random(seed)
    out = []
    by = {}
    for s in scenarios:
        p = s["p"]
        by.setdefault((p["kind"], s["stop"], p["batches"], p["limit"], s["best"]), []).append(s)
    per = 2 if tier == "quick" else 30
    for key in sorted(by):
        grp = sorted(by[key], key=lambda s: (len(s["script"]), str(s)))
        pick = rng.sample(grp, min(per, len(grp)))
        for s in pick:
            kinds = {"interval": ["ae", "vae"], "epoch": ["mml"], "batch": ["jml"]}[s["p"]["kind"]]
            if "nan" in s["script"]:      # VAE and MML fold a missing log-likelihood into 0, so only AE can see a nan loss
                if s["p"]["kind"] == "epoch":
                    continue
                kinds = [a for a in kinds if a != "vae"]
            out.append({"src": "spec", "alg": rng.choice(kinds), "runs": [s], "seed": rng.randrange(10 ** 6), "n": rng.choice([2, 3, 5]), "lv": rng.choice([1, 1, 2])})
    # scale transformations with a training of their own follow the same schedule
    for s in [r for r in out if r["runs"][0]["p"]["kind"] == "interval"][::2 if tier == "quick" else 1]:
        out.append(dict(s, alg=rng.choice(["flow", "link"]), seed=rng.randrange(10 ** 6)))
    # longer scripts than the exhaustive bound, and several fits of one algorithm object
    for i in range(90 if tier == "quick" else 750):
        alg = ["ae", "vae", "mml", "jml", "flow" if i % 2 else "link"][i % 5]
        kind = {"mml": "epoch", "jml": "batch"}.get(alg, "interval")
        runs = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            p = {"kind": kind, "interval": rng.choice([1, 2, 4, 8]) if kind == "interval" else 1, "patience": 1 if kind == "interval" else rng.choice([0, 1, 2, 4]),
                 "limit": rng.choice([1, 2, 3, 4]), "maxEpochs": rng.choice([3, 10, 30]), "batches": 1 if kind == "epoch" else rng.choice([1, 2, 3, 4]), "thr": "1/10000"}
            n = rng.choice([4, 12, 60, 100])
            script, cur = [], rng.choice([8, 16, 40])
            for _ in range(n):
                # 1/1024 of a loss of 24 or more is an improvement below the plateau threshold
                cur = max(1, cur + rng.choice([-4, -2, -1, 0, 0, 1, 2] + ([-1 / 1024, -1 / 1024, 1 / 1024] if cur >= 24 else [])))
                script.append(num(cur))
            if alg in ("ae", "flow", "link") and rng.random() < 0.25:
                script[rng.randrange(n)] = "nan"
            runs.append({"p": p, "script": script})
        out.append({"src": "random", "alg": alg, "runs": runs, "seed": rng.randrange(10 ** 6), "n": rng.choice([1, 2, 4]), "lv": rng.choice([1, 1, 2])})
    return out


def run_scale(case, rec):
    """Flow and linking transformations: the losses are scripted through the density (flow) or the model linked to."""
    import torch
    from irtorch.rescale import Flow, LinkCommonItems
    from stubs import ScriptDensity, ScriptMap, ScriptCurve
    bs = case["n"] + 1
    kind = case["alg"]
    flow = Flow(1)
    for run_no, r in enumerate(case["runs"]):
        p = r["p"]
        n = p["batches"] * bs - (bs - 1 if p["batches"] > 1 else 0)
        theta = torch.arange(n).float().view(-1, 1)
        script = [float(Fraction(x)) if x != "nan" else float(x) for x in r["script"]]
        kw = dict(learning_rate=0.25, learning_rate_updates_before_stopping=p["limit"], max_epochs=p["maxEpochs"], batch_size=bs,
                  evaluation_interval_size=p["interval"], device="cpu")
        rec({"op": "start", "p": dict(p, thr="1/10000"), "alg": kind, "n": n})
        if kind == "flow":
            calls = []
            trans = ScriptMap()
            density = ScriptDensity(script, calls, trans, float(theta.mean()), float(theta.std()))
            flow.fit(theta, transformation=trans, distribution=density, **kw)
            ps = [c["p"] for c in calls] + [float(trans.p)]
            done = not trans.training
        else:
            source, target = ScriptCurve(None), ScriptCurve([x / 32 for x in script])
            target.source = source
            link = LinkCommonItems(source, target, [0], [0], method="neuralnet" if case["seed"] % 2 else "spline", inverted=case["seed"] % 3 == 0)
            link.fit(theta / max(n, 2) - 0.5, **kw)
            calls = target.calls
            for c in calls:
                c["ids"] = None if c["rows"] is None else ((c["rows"] + 0.5) * max(n, 2)).round().long().view(-1).tolist()
            ps = [float("nan")] * (len(calls) + 1)
            done = True
        for k, c in enumerate(calls):
            x = script[min(k, len(script) - 1)]
            step = ps[k] - ps[k + 1] if x == x else float("nan")
            rec({"op": "iter", "c": num(x), "x": num(x), "ids": c["ids"] or [], "named": c["ids"] is not None, "aligned": "0", "mask_ok": True, "data_ok": True,
                 "step": num(step), "lr0": num(0.25), "factor": "3/5"})
        rec({"op": "scaled", "eval_mode": done})


def run(case, rec):
    if case["alg"] in ("flow", "link"):
        return run_scale(case, rec)
    import torch
    from irtorch.estimation_algorithms import AE, VAE, MML, JML
    from stubs import ScriptModel
    kind = case["alg"]
    batches0 = max(r["p"]["batches"] for r in case["runs"])
    bs = case["n"] + 1
    N = batches0 * bs + 1
    lv = case["lv"]
    model = ScriptModel(N, latent_variables=lv, items=2)
    alg = {"ae": AE, "vae": VAE, "mml": MML, "jml": JML}[kind]()
    total = 0
    for run_no, r in enumerate(case["runs"]):
        p = r["p"]
        b = p["batches"]
        n = b * bs - (bs - 1 if b > 1 else 0)          # the last batch holds a single respondent
        data = torch.zeros(n, 2)
        data[:, 0] = torch.arange(n)
        data[:, 1] = torch.arange(n) % 2
        data[::3, 1] = float("nan")
        if n > 1:
            data[1, 1] = -1
        raw = data.clone()
        script = [float(Fraction(x)) if x != "nan" else float(x) for x in r["script"]]
        model.begin(script, alg, raw, kind)
        before = model.state_of()
        lr0 = 0.25
        kw = dict(learning_rate=lr0, learning_rate_updates_before_stopping=p["limit"], max_epochs=p["maxEpochs"], device="cpu")
        start = None
        if kind in ("ae", "vae"):
            kw.update(evaluation_interval_size=p["interval"], batch_size=bs, one_hot_encoded=True, hidden_layers_encoder=[3])
        if kind == "vae":
            kw.update(iw_samples=1, anneal=True, annealing_iterations=10 ** 30)
        if kind == "mml":
            kw.update(learning_rate_update_patience=p["patience"], quadrature_points=3)
        if kind == "jml":
            start = torch.arange(n).float().view(-1, 1).repeat(1, lv) * 1000
            kw.update(learning_rate_update_patience=p["patience"], batch_size=bs, start_thetas=start.clone())
        thr = {"ae": "1/10000", "vae": "1/10000", "jml": "1/10000", "mml": "1/20000"}[kind]
        factor = "1/2" if kind == "jml" else "3/5"
        head = dict(p, thr=thr)
        rec({"op": "start", "p": head, "alg": kind, "n": n})
        model.train(run_no % 2 == 0)
        model.fit(data, alg, **kw)
        total += n
        calls = model.calls
        # the last call of a run that stopped on a missing (nan) loss is still an iteration event
        hist = [float(x) for x in alg.training_history["train_loss"]]
        for k, c in enumerate(calls):
            ids = c["data"][:, 0].long().tolist() if "data" in c else []
            e = {"op": "iter", "c": num(c.get("c", float("nan"))), "x": num(c.get("c", float("nan"))), "ids": ids[: n] if kind == "mml" else ids}
            if kind == "mml":
                e["x"] = num(hist[k]) if k < len(hist) else "nan"
                q = c["theta"].shape[0] // n
                e["ids"] = ids[:n]
                same = all(ids[i * n:(i + 1) * n] == ids[:n] for i in range(q))
                blocks = c["theta"].view(q, n, lv)
                e["aligned"] = "0" if same and bool((blocks == blocks[:, :1]).all()) and len({tuple(x) for x in blocks[:, 0].tolist()}) == q else "1"
            elif kind == "jml":
                want = torch.tensor(c["state"]["theta"]).view(-1, lv)[c["data"][:, 0].long()]
                e["aligned"] = num((c["theta"] - want).abs().max())
            else:
                e["aligned"] = "0"
            d = c["data"]
            want = raw[d[:, 0].long()]
            miss = (want[:, 1] == -1) | want[:, 1].isnan()
            okm = c["mask"] is not None and bool((c["mask"][:, 1] == miss).all()) and not bool(c["mask"][:, 0].any())
            okd = bool((d[~miss, 1] == want[~miss, 1]).all())
            e["mask_ok"], e["data_ok"] = okm, okd
            e.update(named=True, step="nan")
            rec(e)
        after = model.state_of()
        states = [c["state"] for c in calls]

        def at(key):  # iteration after which the final value of `key` was current
            for j in range(len(states)):
                if states[j][key] == after[key]:
                    return j
            return len(states)
        end = {"op": "end", "hist": nums(hist), "calls": len(calls), "tick": int(after["tick"] - before["tick"]),
               "p_at": at("p"), "enc_at": at("enc") if kind in ("ae", "vae") else -1, "theta_at": at("theta") if kind == "jml" else -1,
               "lr": num(alg.optimizer.param_groups[0]["lr"]), "lr0": num(lr0), "factor": factor,
               "eval_mode": not model.training, "attached": model.algorithm is alg,
               "train_n": int(alg.train_data.shape[0]), "total_n": total}
        end["encoder_eval"] = (not alg.encoder.training) if kind in ("ae", "vae") else True
        end["theta_err"] = "0"
        if kind in ("ae", "vae"):
            oh = torch.zeros(n, N + 2)
            oh[torch.arange(n), torch.arange(n)] = 1
            for i in range(n):
                v = raw[i, 1].item()
                if v in (0.0, 1.0):
                    oh[i, N + int(v)] = 1
            want = alg.encoder(oh)
            want = want[0] if isinstance(want, tuple) else want
            end["theta_err"] = num((alg.training_theta_scores - want).abs().max())
        if kind == "jml":
            end["theta_err"] = "0" if tuple(alg.training_theta_scores.shape) == (n, lv) else "9"
        rec(end)
