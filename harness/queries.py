"""A catalogue of questions a user can ask a fitted model: name, shape of the answer, and a function
(model, data, theta) -> answer.  Shapes: "all", "resp", "item", "cell" (see spec/Missing.tla)."""
import random
import torch
from core import nums, num


def _seed(q):
    torch.manual_seed(sum(map(ord, q)))


def row(t):
    return [[x] if not isinstance(x, list) else x for x in nums(t)]


def df(d):
    return [[num(float(v)) for v in r] for r in d.values.tolist()]


def mask_of(d):
    return (d == -1) | d.isnan()


def data_queries(model, lv, observed_items=True, n=0, key=None, algorithm=True):
    """Questions that use responses (and latent scores)."""
    ev = model.evaluate
    q = {}

    def ll(red):
        def f(d, t):
            with torch.no_grad():
                out = model.log_likelihood(d, model(t), mask_of(d), red)
            return nums(out.view(d.shape[0], -1)) if red == "none" else [num(out)]
        return f
    q["ll_sum"] = ("all", "direct", ll("sum"))
    q["ll_none"] = ("cell", "direct", ll("none"))
    for red in ("sum", "mean"):
        q[f"eval_ll_{red}_all"] = ("all", "direct", lambda d, t, red=red: [num(ev.log_likelihood(data=d, theta=t, reduction=red))])
        q[f"eval_ll_{red}_item"] = ("item", "direct", lambda d, t, red=red: row(ev.log_likelihood(data=d, theta=t, reduction=red, level="item")))
        q[f"eval_ll_{red}_resp"] = ("resp", "direct", lambda d, t, red=red: row(ev.log_likelihood(data=d, theta=t, reduction=red, level="respondent")))
    q["eval_ll_none"] = ("cell", "direct", lambda d, t: nums(ev.log_likelihood(data=d, theta=t, reduction="none")))
    for av, shape in (("none", "cell"), ("items", "resp"), ("respondents", "item"), ("everything", "all")):
        q["residuals_" + av] = (shape, "direct", lambda d, t, av=av, shape=shape: nums(ev.residuals(data=d, theta=t, average_over=av)) if shape != "all" else [num(ev.residuals(data=d, theta=t, average_over=av))])
    for lev, shape in (("all", "all"), ("item", "item"), ("respondent", "resp")):
        q["accuracy_" + lev] = (shape, "direct", lambda d, t, lev=lev: nums(ev.accuracy(data=d, theta=t, level=lev)) if lev != "all" else [num(ev.accuracy(data=d, theta=t))])
    for lev, shape in (("item", "item"), ("respondent", "resp")):
        q["fit_" + lev] = (shape, "direct", lambda d, t, lev=lev: row(torch.stack(ev.infit_outfit(data=d, theta=t, level=lev), dim=1)))
    if lv == 1 and n:       # the plotted log-likelihood of every respondent's response pattern
        q["plot_ll"] = ("resp", "direct", lambda d, t: [nums(torch.tensor(model.plot.log_likelihood(d[[i]], theta_range=(-2, 2), steps=4, rescale=False).data[0].y)) for i in range(d.shape[0])])
    if observed_items:
        q["predictions"] = ("item", "direct", lambda d, t: df(ev.predictions(data=d, theta=t)))
    return q


def group_queries(model, lv, n):
    ev = model.evaluate
    g = 2 if n >= 2 else 1
    q = {}
    for v in range(1, lv + 1):
        q[f"group_probs_{v}"] = ("all", "direct", lambda d, t, v=v: [nums(x) for x in ev.latent_group_probabilities(data=d, theta=t, latent_variable=v, groups=g, rescale=False)])
        for s in (True, False):
            q[f"group_resid_{v}_{s}"] = ("all", "direct", lambda d, t, v=v, s=s: [nums(x) for x in ev.group_fit_residuals(data=d, theta=t, latent_variable=v, groups=g, standardize=s, rescale=False)])
        q[f"group_ll_{v}"] = ("all", "direct", lambda d, t, v=v: nums(ev.group_fit_log_likelihood(data=d, theta=t, latent_variable=v, groups=g)))
    return q


def pair_queries(model):
    ev = model.evaluate
    return {"q3": ("all", "direct", lambda d, t: [df(x) for x in ev.q3(data=d, theta=t) if x is not None]),
            "mid": ("all", "direct", lambda d, t: [df(x) for x in ev.mutual_information_difference(data=d, theta=t) if x is not None])}


def score_queries(methods, eap=(15, 7, 5)):
    q = {}
    for m in methods:
        cls = "scored" if m in ("ML", "MAP") else "direct"

        def f(model, d, m=m):
            kw = {"eap_theta_integration_points": eap[model.latent_variables - 1]} if m == "EAP" else {}
            return nums(model.latent_scores(d, theta_estimation=m, rescale=False, **kw))
        q["scores_" + m] = ("resp", cls, f)
    return q
