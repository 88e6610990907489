"""Shared by the fitting properties: watching a real fit, and reference losses in double precision."""
from .gen import *
import copy
import torch.nn.modules.module as tm

FITTABLE = ["1PL", "2PL", "3PL", "GRM", "GPC", "NRM", "MNN", "MPOLY", "MBS", "SURP", "NEST", "MIX"]


@st.composite
def fit_data_st(draw, cats, min_n=3, max_n=7, missing=True):
    """Responses; every respondent and every item has at least one observed response."""
    n = draw(ints(min_n, max_n))
    rows = draw(data_st(cats, n, missing))
    for i, r in enumerate(rows):
        if all(v is None for v in r):
            r[0] = i % cats[0]
    for j, c in enumerate(cats):
        if all(r[j] is None for r in rows):
            rows[j % n][j] = c - 1
    return rows


@contextlib.contextmanager
def watch(model, extra=lambda: None):
    """Record, before every evaluation of this model, its parameters, its thetas and anything extra."""
    rec = []

    def pre(mod, args):
        if mod is model:
            rec.append(({k: v.detach().clone() for k, v in model.state_dict().items()}, args[0].detach().clone(), extra()))
    h = tm.register_module_forward_pre_hook(pre)
    try:
        yield rec
    finally:
        h.remove()


def state_of(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def same_state(a, b, what):
    true(set(a) == set(b), what + ": different entries")
    for k in a:
        exact(a[k], b[k], f"{what} ({k})")


class Ref:
    """Double-precision twin of a model, evaluated at recorded parameters."""

    def __init__(self, spec):
        with dflt(torch.float64):
            self.m = build(spec)
        self.spec = spec

    def item_ll(self, state, theta, data, mask):
        """log p of each response (0 where missing) [N, items] at thetas [N, L]."""
        with dflt(torch.float64), torch.no_grad():
            self.m.load_state_dict(state)
            self.m.eval()
            p = self.m.item_probabilities(theta.double())
            idx = torch.where(mask, torch.zeros_like(data), data).long().unsqueeze(2)
            lp = p.gather(2, idx).squeeze(2).log()
            return torch.where(mask, torch.zeros_like(lp), lp)

    def marginal(self, state, data, mask, pts, logw):
        """minus the marginal log-likelihood, and the smallest log-probability involved"""
        N, Q = data.shape[0], pts.shape[0]
        with dflt(torch.float64), torch.no_grad():
            self.m.load_state_dict(state)
            self.m.eval()
            lp = self.m.item_probabilities(pts.double()).log()                       # Q, items, cats
            idx = torch.where(mask, torch.zeros_like(data), data).long()
            g = torch.stack([lp[:, j, :][:, idx[:, j]] for j in range(data.shape[1])], dim=2)   # Q, N, items
            g = torch.where(mask.unsqueeze(0).expand_as(g), torch.zeros_like(g), g)
            tot = torch.logsumexp(g.sum(dim=2) + logw.double().view(-1, 1), dim=0)
            return -float(tot.sum()), float(g.min())


def missing(data):
    return data.isnan() | (data == -1)


def recode(rows, coding):
    return data_t(rows, coding)


def learning_rate(alg):
    opt = getattr(alg, "optimizer", None)
    return float("nan") if opt is None else opt.param_groups[0]["lr"]


def stop_check(lrs, steps, most, c):
    """Learning rates in use at each evaluation, recorded steps, and the largest number of steps: training ends after the requested number of reductions, and only then (or at the end)."""
    lrs = [x for x in lrs if x == x]
    cuts = [i for i, (a, b) in enumerate(zip(lrs, lrs[1:])) if b != a]
    true(all(lrs[i + 1] < lrs[i] for i in cuts), "the learning rate grew", lrs=lrs)
    true(steps <= most, "more steps than epochs allow", got=steps, want=most)
    true(len(cuts) <= c["stops"] - 1, "training went on after the requested number of learning rate reductions", cuts=len(cuts), stops=c["stops"])
    if steps < most:
        true(len(cuts) == c["stops"] - 1, "training stopped before the requested number of learning rate reductions", cuts=len(cuts), stops=c["stops"], steps=steps, most=most)
    true(all(b - a >= c["patience"] for a, b in zip(cuts, cuts[1:])), "the learning rate is reduced before the requested patience", cuts=cuts, patience=c["patience"])
