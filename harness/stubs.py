"""Stand-in models with exactly known behaviour, built on the library's public base class."""
import torch
from irtorch.models import BaseIRTModel


class ScriptModel(BaseIRTModel):
    """A model whose training loss follows a script; it records every call made on it.
    Its parameter moves on every optimizer step and its `tick` buffer counts forward passes,
    so the state a training run ends with identifies the iteration it came from."""

    def __init__(self, n_ids, latent_variables=1, items=2):
        super().__init__(latent_variables=latent_variables, item_categories=[max(n_ids, 2)] + [2] * (items - 1))
        self.p = torch.nn.Parameter(torch.zeros(1))
        self.register_buffer("tick", torch.zeros(1))
        self.script, self.calls, self.alg, self.raw = [], [], None, None

    def begin(self, script, alg, data, kind):
        self.script, self.calls, self.alg, self.raw, self.kind = script, [], alg, data, kind

    def state_of(self):
        a = self.alg
        enc = None
        if getattr(a, "encoder", None) is not None:
            enc = tuple(float(x) for t in a.encoder.state_dict().values() for x in t.reshape(-1))
        th = None
        if self.kind == "jml" and a.training_theta_scores is not None:
            th = tuple(a.training_theta_scores.detach().reshape(-1).tolist())
        return {"p": float(self.p.detach()), "tick": float(self.tick), "enc": enc, "theta": th}

    def forward(self, theta):
        if self.training:
            st = self.state_of()
            self.tick += 1
            self.calls.append({"state": st, "theta": theta.detach().clone()})
        return (theta.sum(dim=1, keepdim=True) + self.p).repeat(1, self.items * self.max_item_responses)

    def log_likelihood(self, data, output, missing_mask=None, loss_reduction="sum"):
        k = len(self.calls) - 1
        c = self.script[min(k, len(self.script) - 1)]
        self.calls[k].update(data=data.detach().clone(), mask=None if missing_mask is None else missing_mask.clone(), c=c)
        g = output.sum() - output.sum().detach()
        if loss_reduction == "sum":
            scale = data.shape[0] if self.kind in ("ae", "vae") else 1
            return -c * scale + g
        n = data.shape[0] * self.items
        return torch.full((n,), -c / self.items) + g / n


class ScriptMap(torch.nn.Module):
    """A one-to-one map (the identity) with one parameter whose gradient is always one."""

    def __init__(self):
        super().__init__()
        self.p = torch.nn.Parameter(torch.zeros(1))

    def forward(self, inputs, inverse=False):
        return inputs, (self.p.detach() - self.p).expand_as(inputs)


class ScriptDensity:
    """A density whose negative log-likelihood follows a script; it records the rows it is asked for."""
    batch_shape = torch.Size([])

    def __init__(self, script, calls, trans, mean, std):
        self.script, self.calls, self.trans, self.mean, self.std = script, calls, trans, mean, std

    def log_prob(self, x):
        c = self.script[min(len(self.calls), len(self.script) - 1)]
        self.calls.append({"p": float(self.trans.p), "ids": (x.detach() * self.std + self.mean).round().long().view(-1).tolist()})
        return torch.full_like(x, -c)


class ScriptCurve(BaseIRTModel):
    """One item with two categories. Without a script the first category is certain; with one, its probability is
    exp(-c), so that the divergence from the certain curve is c."""

    def __init__(self, script):
        super().__init__(latent_variables=1, item_categories=[2])
        self.script, self.calls, self.rows, self.source = script, [], None, None

    def forward(self, theta):
        if self.script is None:
            self.rows = theta.detach().clone()
            return torch.tensor([[0.0, -torch.inf]]).repeat(theta.shape[0], 1)
        c = torch.tensor(self.script[min(len(self.calls), len(self.script) - 1)], dtype=torch.float64)
        rows = self.source.rows
        self.calls.append({"rows": rows if rows is not None and rows.shape == theta.shape else None})
        self.source.rows = None
        logit = torch.stack([-c, torch.log(-torch.expm1(-c))]).float()
        move = (theta.sum() - theta.sum().detach()) * 1e-3
        return logit.repeat(theta.shape[0], 1) + torch.stack([move, -move])


class TabModel(BaseIRTModel):
    """Item response probabilities are a fixed function of the (rounded) first latent variable:
    row r of the table holds one list of category probabilities per item."""

    def __init__(self, table, item_categories, latent_variables=1, mc_correct=None, offset=0):
        super().__init__(latent_variables=latent_variables, item_categories=list(item_categories), mc_correct=mc_correct)
        m = self.max_item_responses
        t = torch.zeros(len(table), len(item_categories), m)
        for r, row in enumerate(table):
            for j, pr in enumerate(row):
                for k, x in enumerate(pr):
                    t[r, j, k] = x
        self.register_buffer("table", t.log())
        self.dummy = torch.nn.Parameter(torch.zeros(1))
        self.offset = offset

    def rows(self, theta):
        return (theta[:, 0].round().long() + self.offset).clamp(0, self.table.shape[0] - 1)

    def forward(self, theta):
        return self.table[self.rows(theta)].reshape(theta.shape[0], -1) + 0.0 * theta.sum(dim=1, keepdim=True) + 0.0 * self.dummy


from irtorch.rescale import Scale


class Affine(Scale):
    """theta -> theta A + b, an invertible scale with exactly known Jacobian."""

    def __init__(self, a, b):
        super().__init__(invertible=True)
        self.a, self.b = torch.tensor(a, dtype=torch.float32), torch.tensor(b, dtype=torch.float32)

    def transform(self, theta):
        return theta @ self.a + self.b

    def inverse(self, transformed_theta):
        return (transformed_theta - self.b) @ torch.inverse(self.a)

    def jacobian(self, theta):
        return self.a.T.unsqueeze(0).repeat(theta.shape[0], 1, 1)


class SubModel(BaseIRTModel):
    """Some of the items of another model."""

    def __init__(self, inner, keep):
        key = None if inner.mc_correct is None else [int(inner.mc_correct[j]) for j in keep]
        super().__init__(latent_variables=inner.latent_variables, item_categories=[int(inner.item_categories[j]) for j in keep], mc_correct=key)
        self.inner, self.keep = inner, list(keep)

    def forward(self, theta):
        p = self.inner.item_probabilities(theta)[:, self.keep, :self.max_item_responses]
        return p.clamp_min(1e-30).log().reshape(theta.shape[0], -1)


class Curves(BaseIRTModel):
    """A unidimensional model with given slopes and category intercepts (category k of item j has
    logit slope_j * k * theta + steps_j[k-1])."""

    def __init__(self, slopes, steps):
        super().__init__(latent_variables=1, item_categories=[len(s) + 1 for s in steps])
        m = self.max_item_responses
        w, d = torch.zeros(len(slopes), m), torch.full((len(slopes), m), -torch.inf)
        for j, s in enumerate(steps):
            d[j, 0] = 0.0
            for k, x in enumerate(s):
                w[j, k + 1], d[j, k + 1] = slopes[j] * (k + 1), x
        self.w, self.d = w, d

    def forward(self, theta):
        return (theta.unsqueeze(2) * self.w + self.d).reshape(theta.shape[0], -1)


from irtorch.estimation_algorithms.base_irt_algorithm import BaseIRTAlgorithm


class Frequencies(BaseIRTAlgorithm):
    """Fits a nominal model by category frequencies (no latent variable), starting from the intercepts
    it is given, and writes down every fit: works across processes."""

    def __init__(self, path):
        super().__init__()
        self.path, self.fits = path, 0

    def fit(self, model, train_data, device="cpu", shift=1.0, sharp=1.0, extra=None):
        import json
        from core import nums
        super().fit(model=model, train_data=train_data)
        rows = [[-1 if v != v else int(v) for v in r] for r in train_data.tolist()]
        entry = nums(model.bias_param.detach())
        with torch.no_grad():
            b, k = model.bias_param, 0
            flat = []
            for j, m in enumerate(model.item_categories):
                for c in range(model.max_item_responses):
                    n = sum(r[j] == c for r in rows)
                    flat.append(sharp * float(torch.tensor(n + shift).log()) if c < m else 0.0)
            full = torch.tensor(flat)
            if b.numel() != full.numel():
                full = torch.tensor([v for i, v in enumerate(flat) if i % model.max_item_responses < model.item_categories[i // model.max_item_responses]])
            if b.numel() != full.numel():
                full = torch.tensor([v for i, v in enumerate(flat) if 0 < i % model.max_item_responses < model.item_categories[i // model.max_item_responses]])
            b += full.reshape(b.shape)
            model.weight_param.zero_()
            p = nums(model.item_probabilities(torch.zeros(1, model.latent_variables))[0])
        self.fits += 1
        with open(self.path, "a") as f:
            f.write(json.dumps({"shift": shift, "sharp": sharp, "extra": extra, "rows": rows, "entry": entry, "p": p, "fits": self.fits,
                                "seen": int(self.train_data.shape[0])}) + "\n")


class Linear(BaseIRTModel):
    """Category logits linear in the latent variables: W[j][k][v], D[j][k]."""

    def __init__(self, W, D, lv, mc_correct=None):
        super().__init__(latent_variables=lv, item_categories=[len(d) for d in D], mc_correct=mc_correct)
        m = self.max_item_responses
        w, d = torch.zeros(len(D), m, lv), torch.full((len(D), m), -torch.inf)
        for j in range(len(D)):
            for k in range(len(D[j])):
                d[j, k] = D[j][k]
                w[j, k] = torch.tensor(W[j][k], dtype=torch.float32)
        self.w, self.d = w, d

    def forward(self, theta):
        return (torch.einsum("nv,jkv->njk", theta, self.w) + self.d).reshape(theta.shape[0], -1)


class OneWay(Affine):
    """An affine map that cannot be undone by the library, optionally cut off from below."""

    def __init__(self, a, b, floor=None):
        super().__init__(a, b)
        self.invertible = False
        self.floor = None if floor is None else torch.tensor(floor, dtype=torch.float32)

    def transform(self, theta):
        t = super().transform(theta)
        return t if self.floor is None else torch.maximum(t, self.floor)

    def inverse(self, transformed_theta):
        raise NotImplementedError
