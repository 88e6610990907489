from ..gen import *
from .c20 import setup, observed, default_cases, defaults_check
import pandas as pd
from ..histlib import twin_cases, twin_check

prop = Property("C22", [
    "Q3 is reported to three decimals",
    "pairs with fewer than three common respondents, or whose residuals do not vary over them, are left out (no correlation is defined)",
    "the marginal entropies in the observed mutual information use each item's own observed responses, the joint entropy the common ones",
    "resampling p-values are judged against the data sets actually drawn, recorded as they are drawn",
])


@st.composite
def cases(draw, mc=None, samples=False):
    s = draw(spec_st(ALL, vmax=20, mc=mc))
    n_items = len(cats_of(s))
    if n_items < 2:
        s = draw(spec_st(BASIC, vmax=20, items=draw(ints(2, 4)), mc=mc))
    n = draw(ints(3, 10))
    c = {"m": s, "theta": draw(theta_st(s["L"], n, n, -25, 25)), "data": draw(data_st(cats_of(s), n)),
         "base": draw(st.sampled_from([2.0, 10.0, 2.718281828459045])), "seed": draw(ints(0, 1000))}
    if all(v is None for r in c["data"] for v in r):
        c["data"][0][0] = 0
    if samples:
        c["samples"] = draw(ints(1, 8))
    return c


NT = lambda c: rich(c) and any(v is None for r in c["data"] for v in r)


def resid(p, obs, mc):
    if mc is None:
        return obs - (p * np.arange(p.shape[2])).sum(2)
    idx = np.where(np.isnan(obs), 0, obs).astype(int)
    return np.where(np.isnan(obs), np.nan, 1 - np.take_along_axis(p, idx[:, :, None], 2)[:, :, 0])


def pair_corr(r):
    n = r.shape[1]
    out = np.full((n, n), np.nan)
    for i in range(n):
        for j in range(n):
            ok = ~np.isnan(r[:, i]) & ~np.isnan(r[:, j])
            a, b = r[ok, i], r[ok, j]
            if i != j and len(a) >= 3 and a.std() > 1e-3 and b.std() > 1e-3:
                out[i, j] = np.mean((a - a.mean()) * (b - b.mean())) / (a.std() * b.std())
    return out


def H(x, base):
    """Entropy of the empirical distribution of the rows of x."""
    if len(x) == 0:
        return np.nan
    _, n = np.unique(x, axis=0, return_counts=True)
    q = n / n.sum()
    return float(-(q * np.log(q)).sum() / np.log(base))


def pair_mi(obs, base):
    n = obs.shape[1]
    h = [H(obs[~np.isnan(obs[:, i])][:, [i]], base) for i in range(n)]
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            ok = ~np.isnan(obs[:, i]) & ~np.isnan(obs[:, j])
            out[i, j] = h[i] + h[j] - H(obs[ok][:, [i, j]], base)
    return out


def model_mi(p, base):
    N, n, C = p.shape
    lg = lambda q: np.where(q > 0, np.log(np.where(q > 0, q, 1)) / np.log(base), 0)
    m = p.mean(0)
    h = [-(m[i] * lg(m[i])).sum() for i in range(n)]
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            q = (p[:, i, :, None] * p[:, j, None, :]).mean(0)
            out[i, j] = h[i] + h[j] + (q * lg(q)).sum()
    return out


def vals(df, n, what):
    true(isinstance(df, pd.DataFrame) and df.shape == (n, n), f"{what} is not an items x items table")
    true(list(df.columns) == list(df.index) == [f"Item {i + 1}" for i in range(n)], f"labels of {what}", got=list(df.columns))
    return df.to_numpy(dtype=float)


def sub_close(got, want, what, atol):
    ok = ~np.isnan(want)
    close(np.where(ok, got, 0), np.where(ok, want, 0), what, rtol=0, atol=atol)


@prop.facet("q3", crowded(cases()), 1500, 24000, NT, dtype="float64")
def q3(case):
    """Q3 against pairwise-complete correlations of independently computed residuals; symmetric, diagonal empty, permuted with the items; non-trivial: missing responses"""
    s, m, th, p, obs, S, E, V, mc = setup(case)
    n = obs.shape[1]
    want = pair_corr(resid(p, obs, mc))
    for coding in ("nan", "-1", "mixed"):
        data = data_t(case["data"], coding)
        keep = data.clone()
        df, none = m.evaluate.q3(data, th)
        got = vals(df, n, "Q3")
        true(none is None, "p-values without a test")
        true(np.isnan(np.diag(got)).all(), "Q3 of an item with itself")
        sub_close(got, want, f"Q3 ({coding})", 5.1e-4)
        sub_close(got, np.where(np.isnan(want), np.nan, got.T), f"Q3 symmetry ({coding})", 1e-9)
        exact(data, keep, "data after q3")


@prop.facet("mutual_information", crowded(cases()), 1500, 24000, NT, dtype="float64")
def mutual_information(case):
    """mutual information difference against the definition on observed counts and model probabilities, for several log bases"""
    s, m, th, p, obs, S, E, V, mc = setup(case)
    n = obs.shape[1]
    want = pair_mi(obs, case["base"]) - model_mi(p, case["base"])
    for coding in ("nan", "-1", "mixed"):
        data = data_t(case["data"], coding)
        keep = data.clone()
        mid, amid, none = m.evaluate.mutual_information_difference(data, th, log_base=case["base"])
        a, b = vals(mid, n, "MID"), vals(amid, n, "AMID")
        true(none is None, "p-values without a test")
        sub_close(a, want, f"MID ({coding})", 1e-6)
        true((np.isnan(a) == np.isnan(want)).all(), f"MID defined exactly for pairs with common respondents ({coding})", got=a, want=want)
        close(b, np.abs(a), "AMID is not the absolute MID", rtol=0, atol=1e-12)
        exact(data, keep, "data after mutual_information_difference")


def recorder(m):
    drawn, real = [], m.sample_test_data

    def rec(theta):
        d = real(theta)
        drawn.append((theta.clone(), d.clone()))
        return d
    m.sample_test_data = rec
    return drawn


@prop.facet("p_values", cases(samples=True), 500, 8000, lambda c: NT(c) and c["samples"] > 1, dtype="float64")
def p_values(case):
    """p-values are the stated shares of the simulated statistics: two-sided for Q3 (twice the smaller tail), upper tail for AMID; the simulated data sets are recorded and scored by the oracle"""
    s, m, th, p, obs, S, E, V, mc = setup(case)
    n, k = obs.shape[1], case["samples"]
    data = data_t(case["data"])
    drawn = recorder(m)
    torch.manual_seed(case["seed"])
    df, pv = m.evaluate.q3(data, th, sample_hypothesis_test=True, samples=k)
    true(len(drawn) == k, "number of simulated data sets", got=len(drawn), want=k)
    for t, _ in drawn:
        exact(t, th, "thetas the data were simulated from")
    want = pair_corr(resid(p, obs, mc))
    sub_close(vals(df, n, "Q3"), want, "Q3 with test", 5.1e-4)
    sims = np.stack([pair_corr(resid(p, d.double().numpy(), mc)) for _, d in drawn])
    safe = ~np.isnan(want) & ~np.isnan(sims).any(0) & (np.abs(sims - want) > 1e-7).all(0)
    low = (sims < want).sum(0)
    got = vals(pv, n, "p-values")
    true(np.isnan(np.diag(got)).all(), "p-value of an item with itself")
    sub_close(got, np.where(safe, 2 * np.minimum(low, k - low) / k, np.nan), "Q3 p-values", 5.1e-4)
    drawn.clear()
    mid, amid, pv = m.evaluate.mutual_information_difference(data, th, sample_hypothesis_test=True, samples=k, log_base=case["base"])
    true(len(drawn) == k, "number of simulated data sets", got=len(drawn), want=k)
    exp_ = model_mi(p, case["base"])
    o = np.abs(pair_mi(obs, case["base"]) - exp_)
    sims = np.stack([np.abs(pair_mi(d.double().numpy(), case["base"]) - exp_) for _, d in drawn])
    safe = ~np.isnan(o) & (np.abs(sims - o) > 1e-7).all(0) & ~np.eye(n, dtype=bool)
    got = vals(pv, n, "p-values")
    true(np.isnan(np.diag(got)).all(), "p-value of an item with itself")
    sub_close(got, np.where(safe, (sims > o).mean(0), np.nan), "AMID p-values", 5.1e-4)


@prop.facet("relabel", cases(), 400, 6000, NT, dtype="float64")
def relabel(case):
    """reversing the items of model and data reverses both matrices"""
    s = case["m"]
    if s["k"] in ("MIX",):
        r = dict(s, sub=[x for x in reversed(s["sub"])])
        m1, m2 = build(s), build(r)
        sizes = [len(x["cats"]) for x in s["sub"]]
        starts = np.cumsum([0] + sizes)
        perm = [i for b in reversed(range(len(sizes))) for i in range(starts[b], starts[b + 1])]
    else:
        # two copies of the model as a mixture in both orders: items swap as blocks
        m1, m2 = im.ModelMix([build(s), build(dict(s))]), None
        n = len(cats_of(s))
        with torch.no_grad():
            for p in m1.models[1].parameters():
                p.mul_(0.75)
        if s["k"] == "GRM":
            order_grm(m1.models[1])
        m2 = im.ModelMix([m1.models[1], m1.models[0]])
        case = dict(case, data=[row + [row[(j + 1) % n] for j in range(n)] for row in case["data"]])
        cats = cats_of(s)
        case["data"] = [[v if v is None else min(v, (cats + cats)[j] - 1) for j, v in enumerate(row)] for row in case["data"]]
        perm = list(range(n, 2 * n)) + list(range(n))
    th, data = theta_t(case["theta"]), data_t(case["data"])
    r = m1.evaluate.residuals(data, th).numpy()
    ok = ~np.isnan(pair_corr(r))
    a = m1.evaluate.q3(data, th)[0].to_numpy()
    b = m2.evaluate.q3(data[:, perm], th)[0].to_numpy()
    sub_close(b, np.where(ok, a, np.nan)[np.ix_(perm, perm)], "Q3 of permuted items", 1.1e-3)
    a = m1.evaluate.mutual_information_difference(data, th)[0].to_numpy()
    b = m2.evaluate.mutual_information_difference(data[:, perm], th)[0].to_numpy()
    close(b, a[np.ix_(perm, perm)], "MID of permuted items", rtol=0, atol=1e-7)


@prop.facet("defaults", default_cases(min_items=2), 90, 1500, lambda c: rich(c) and not c["given"], shard_min=15)
def defaults(case):
    """without thetas both measures use the model's theta-scale scores of the data by the named estimation method, without data the training data; non-trivial: no data given"""
    defaults_check(case, {
        "q3": lambda e, d, t, kw: e.q3(d, t, **kw),
        "mutual_information_difference": lambda e, d, t, kw: e.mutual_information_difference(d, t, **kw),
    })


PAIR_CALLS = {
    "Q3": lambda m, d, t: m.evaluate.q3(d, t),
    "Q3 by scoring": lambda m, d, t: m.evaluate.q3(d, theta_estimation="EAP"),
    "Q3 of the training data": lambda m, d, t: m.evaluate.q3(theta_estimation="EAP"),
    "Q3 p-values": lambda m, d, t: m.evaluate.q3(d, t, sample_hypothesis_test=True, samples=5),
    "mutual information": lambda m, d, t: m.evaluate.mutual_information_difference(d, t),
    "mutual information by scoring": lambda m, d, t: m.evaluate.mutual_information_difference(d, theta_estimation="EAP"),
    "mutual information in nats": lambda m, d, t: m.evaluate.mutual_information_difference(d, t, log_base=2.718281828),
    "mutual information p-values": lambda m, d, t: m.evaluate.mutual_information_difference(d, t, sample_hypothesis_test=True, samples=5),
}


@prop.facet("history", twin_cases(8, min_items=2), 150, 2500, lambda c: rich(c) and len(c["steps"]) > 3)
def history(case):
    """pairwise measures on one model between changes of parameters, data, thetas, codings, scales and training results: each equals that of a fresh model in the same state"""
    twin_check(case, PAIR_CALLS, 2e-3)
