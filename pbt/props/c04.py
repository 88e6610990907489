from ..gen import *

prop = Property("C04", ["impossible responses (probability exactly zero or below the double range) are left out of the comparison: the evaluator floors them at -30"])


def logp_matrix(m, theta, rows):
    """The oracle: log of the reported probability of each observed response, NaN where missing."""
    p = probs_of(m, theta).double()
    out = torch.full((len(rows), len(rows[0])), float("nan"), dtype=torch.float64)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            if v is not None:
                out[i, j] = torch.log(p[i, j, v])
    return out


def blocks(s):
    return [b for x in s["sub"] for b in blocks(x)] if s["k"] == "MIX" else [len(s["cats"])]


def unreduced(m, s, data, theta, mask):
    """The unreduced log-likelihood as (respondents x items); a mixed model lists one component after the other."""
    v = m.log_likelihood(data, m(theta), mask, loss_reduction="none").detach()
    n = len(theta)
    true(v.numel() == data.numel(), "unreduced log-likelihood has not one entry per response", got=tuple(v.shape))
    parts = v.reshape(-1).split([n * b for b in blocks(s)])
    return torch.cat([p.reshape(n, -1) for p in parts], dim=1)


@prop.facet("model", case_data_st(many=True, min_n=1, max_n=4, vmax=20, lo=-30, hi=30), 1600, 24000,
            lambda c: rich(c) and any(v is None for r in c["data"] for v in r), dtype="float64")
def model(case):
    """model.log_likelihood, unreduced and summed, against log of the reported probabilities, for several fillings of missing cells; non-trivial: a missing response"""
    s = case["m"]
    m, theta, rows = lived(build(s), case), theta_t(case["theta"]), case["data"]
    want = logp_matrix(m, theta, rows)
    obs = ~want.isnan()
    if bool((want[obs] < -600).any()):
        return
    mask = ~obs
    for coding in ("nan", "-1", "mixed", "junk"):
        data = data_t(rows, coding)
        if coding == "junk":
            data = torch.where(mask, torch.zeros_like(data), data)
        keep = data.clone()
        got = unreduced(m, s, data, theta, mask)
        close(got, want, f"unreduced log-likelihood (missing coded {coding})", rtol=1e-7, atol=1e-8)
        tot = m.log_likelihood(data, m(theta), mask, loss_reduction="sum").detach()
        close(tot, want.nansum(), f"summed log-likelihood (missing coded {coding})", rtol=1e-7, atol=1e-8)
        exact(data, keep, "data after log_likelihood")
    if bool(obs.all()):
        data = data_t(rows)
        close(unreduced(m, s, data, theta, None), want, "unreduced log-likelihood without mask", rtol=1e-7, atol=1e-8)
        close(m.log_likelihood(data, m(theta), None, loss_reduction="sum").detach(), want.sum(), "summed log-likelihood without mask", rtol=1e-7, atol=1e-8)


FAR = case_data_st(many=True, min_n=1, max_n=4, vmax=25, lo=-300, hi=300)


@prop.facet("evaluator", case_data_st(many=True, min_n=1, max_n=5, vmax=20, lo=-30, hi=30), 1600, 24000,
            lambda c: rich(c) and any(v is None for r in c["data"] for v in r) and len(c["data"]) > 1, dtype="float64")
def evaluator(case):
    """evaluator.log_likelihood: none/sum/mean x all/item/respondent are the reductions of the matrix, for every coding; non-trivial: several respondents and a missing response"""
    s = case["m"]
    m, theta, rows = build(s), theta_t(case["theta"]), case["data"]
    want = logp_matrix(m, theta, rows)
    if bool((want[~want.isnan()] < -600).any()):
        return
    dress(m, case)
    for coding in ("nan", "-1", "mixed"):
        data = data_t(rows, coding)
        keep = data.clone()
        ev = m.evaluate
        kw = dict(rtol=1e-7, atol=1e-8)
        close(ev.log_likelihood(data, theta, reduction="none"), want, f"evaluator none ({coding})", **kw)
        close(ev.log_likelihood(data, theta), want.nansum(), f"evaluator default ({coding})", **kw)
        for level, dim in (("all", None), ("item", 0), ("respondent", 1)):
            w = want.nansum() if dim is None else want.nansum(dim=dim)
            close(ev.log_likelihood(data, theta, reduction="sum", level=level), w, f"evaluator sum {level} ({coding})", **kw)
            w = want.nanmean() if dim is None else want.nanmean(dim=dim)
            close(ev.log_likelihood(data, theta, reduction="mean", level=level), w, f"evaluator mean {level} ({coding})", **kw)
        exact(data, keep, "data after evaluator.log_likelihood")


@prop.facet("surprising", FAR, 500, 8000, lambda c: any(abs(v) > 150 for r in c["theta"] for v in r), dtype="float64")
def surprising(case):
    """very unlikely responses far out on the latent scale keep their log-probability; non-trivial: a theta beyond 15"""
    model(case)
    evaluator(case)
