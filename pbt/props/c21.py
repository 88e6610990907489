from ..gen import *
from .c04 import logp_matrix
from .c20 import observed, default_cases, defaults_check
from ..histlib import twin_cases, twin_check

prop = Property("C21", [
    "respondents tied on the chosen latent variable are left out (their order is not determined)",
    "at most as many groups as respondents",
    "the representative latent value may be the group's mean or its median",
])


@st.composite
def cases(draw, kinds=("rev", "rot"), with_scale=True):
    s = draw(spec_st(ALL, vmax=20))
    n = 15 - draw(ints(1, 14))
    L = s["L"]
    lv = draw(ints(1, L))
    th = draw(theta_st(L, n, n, -30, 30))
    vals = draw(st.lists(ints(-300, 300), min_size=n, max_size=n, unique=True))
    for i in range(n):
        th[i][lv - 1] = vals[i] / 10
    c = {"m": s, "theta": th, "lv": lv, "data": draw(data_st(cats_of(s), n)), "groups": n + 1 - draw(ints(1, n))}
    if draw(ints(1, 16)) == 16:
        n = draw(st.sampled_from(CROWDS))
        crowd(c, n)
        for i in range(n):
            c["theta"][i][lv - 1] = ((i * 7919 + vals[0] + 300) % 1103) / 20 - 27      # all different
        c["groups"] = draw(ints(1, 25))
    c["scales"] = draw(scales_st(L, kinds, int("flow" in kinds), 2)) if with_scale else []
    c["rescale"] = draw(st.sampled_from([True, False]))
    return c


def slices(n, g):
    """Consecutive groups whose sizes differ by at most one, larger groups first."""
    out, a = [], 0
    for i in range(g):
        b = a + n // g + (1 if i < n % g else 0)
        out.append(slice(a, b)); a = b
    return out


def expect(case, m, th, scales):
    """Order, and per group: observed shares, counts and mean model probabilities, straight from the definition."""
    t = th
    if case["rescale"]:
        with torch.no_grad():
            for sc in scales:
                t = sc.transform(t)
    x = t[:, case["lv"] - 1].double().numpy()
    order = np.argsort(x)
    if len(x) > 1 and np.diff(x[order]).min() < 1e-5:
        return None
    obs, p = observed(case["data"])[order], probs_of(m, th).double().numpy()[order]
    x = x[order]
    cats, C = cats_of(case["m"]), p.shape[2]
    G = slices(len(x), case["groups"])
    share = np.full((len(G), len(cats), C), np.nan)
    cnt = np.zeros((len(G), len(cats)))
    model = np.zeros_like(share)
    mid = []
    for g, sl in enumerate(G):
        model[g] = p[sl].mean(0)
        mid.append((x[sl].min(), x[sl].max(), x[sl].mean(), np.median(x[sl]), np.sort(x[sl])[(sl.stop - sl.start - 1) // 2]))
        for j in range(len(cats)):
            o = obs[sl, j]; o = o[~np.isnan(o)]
            cnt[g, j] = len(o)
            if len(o):
                share[g, j] = [np.mean(o == k) for k in range(C)]
    return order, share, cnt, model, mid, cats, G


def prepare(case, dtype):
    s = case["m"]
    m = build(s)
    th = torch.tensor(case["theta"], dtype=torch.get_default_dtype()) / 10.0
    with dflt(torch.float32):
        scales = [build_scale(d, m, rot_dtype=dtype) for d in case["scales"]]
    if dtype == torch.float64:
        scales = [to_double(x) for x in scales]
    m.scale = list(scales)
    return m, th, scales


def check(case, dtype, tol):
    m, th, scales = prepare(case, dtype)
    e = expect(case, m, th, scales)
    if e is None:
        return
    order, share, cnt, model, mid, cats, G = e
    kw = dict(rescale=case["rescale"], latent_variable=case["lv"], groups=case["groups"])
    for coding in ("nan", "-1", "mixed"):
        data = data_t(case["data"], coding)
        keep, keep_t = data.clone(), th.clone()
        dp, mp_, gm = m.evaluate.latent_group_probabilities(data=data, theta=th, **kw)
        raw, gm2 = m.evaluate.group_fit_residuals(data=data, theta=th, standardize=False, **kw)
        std, gm3 = m.evaluate.group_fit_residuals(data=data, theta=th, standardize=True, **kw)
        for x in (gm, gm2, gm3):
            true(tuple(x.shape) == (case["groups"],), "one mid point per group", got=tuple(x.shape))
            for g, (lo, hi, mean, med, low) in enumerate(mid):
                v = float(x[g])
                true(min(abs(v - mean), abs(v - med), abs(v - low)) <= tol * max(1, abs(v)), f"group mid point ({coding})", got=v, mean=mean, median=med, group=g)
        with np.errstate(all="ignore"):
            se = np.sqrt(model * (1 - model) / cnt[:, :, None])
        for j, c in enumerate(cats):
            close(dp[:, j, :c], share[:, j, :c], f"observed shares of item {j} ({coding})", rtol=0, atol=1e-6)
            close(mp_[:, j, :c], model[:, j, :c], f"mean model probabilities of item {j} ({coding})", rtol=0, atol=tol)
            close(raw[:, j, :c], (share - model)[:, j, :c], f"group residuals of item {j} ({coding})", rtol=0, atol=tol + 1e-6)
            ok = (se[:, j, :c] > 1e-2) & np.isfinite(se[:, j, :c])
            w = ((share - model)[:, j, :c] / np.where(ok, se[:, j, :c], 1))[ok]
            close(std[:, j, :c].double().numpy()[ok], w, f"standardised group residuals of item {j} ({coding})", rtol=1e3 * tol + 1e-5, atol=1e3 * tol + 1e-5)
            true(bool((dp[:, j, c:].nan_to_num() == 0).all()), "observed share of a category the item lacks")
        exact(data, keep, "data after group fit"); exact(th, keep_t, "thetas after group fit")


NT = lambda c: rich(c) and any(v is None for r in c["data"] for v in r) and 1 < c["groups"] < len(c["theta"])


@prop.facet("groups", cases(), 1200, 20000, NT, dtype="float64")
def groups(case):
    """group shares, model probabilities, mid points and residuals, with and without rescaling (reversed, rotated); non-trivial: missing responses and groups of several respondents"""
    check(case, torch.float64, 1e-7)


@prop.facet("groups_flow", cases(("flow", "rev", "rot")), 200, 3000, lambda c: NT(c) and c["scales"] and c["rescale"])
def groups_flow(case):
    """as groups, in single precision with spline scale transformations"""
    check(case, torch.float32, 2e-4)


@prop.facet("log_likelihood", cases(with_scale=False), 1200, 20000, NT, dtype="float64")
def log_likelihood(case):
    """group log-likelihoods: mean over the group's respondents of the sum of the log probabilities of their own observed responses"""
    m, th, _ = prepare(case, torch.float64)
    x = th[:, case["lv"] - 1]
    order = torch.argsort(x)
    lp = logp_matrix(m, th, case["data"])
    dress(m, case)
    if bool((lp[~lp.isnan()] < -25).any()):
        return
    per = lp.nansum(dim=1)[order]
    want = torch.stack([per[sl].mean() for sl in slices(len(x), case["groups"])])
    for coding in ("nan", "-1", "mixed"):
        data = data_t(case["data"], coding)
        keep, keep_t = data.clone(), th.clone()
        got = m.evaluate.group_fit_log_likelihood(data=data, theta=th, groups=case["groups"], latent_variable=case["lv"])
        close(got, want, f"group log-likelihoods ({coding})", rtol=1e-7, atol=1e-8)
        exact(data, keep, "data after group log-likelihood"); exact(th, keep_t, "thetas after group log-likelihood")


@prop.facet("defaults", default_cases(), 90, 1500, lambda c: rich(c) and not c["given"], shard_min=15)
def defaults(case):
    """without thetas the groups are formed from the model's scores of the data by the named estimation method, without data from the training data; non-trivial: no data given"""
    kws = dict(groups=2, latent_variable=case["m"]["L"])
    defaults_check(case, {
        "latent_group_probabilities": lambda e, d, t, kw: e.latent_group_probabilities(d, t, **kws, **kw),
        "group_fit_residuals": lambda e, d, t, kw: e.group_fit_residuals(d, t, **kws, **kw),
        "group_fit_log_likelihood": lambda e, d, t, kw: e.group_fit_log_likelihood(d, t, **kws, **kw),
    })


GROUP_CALLS = {
    "group probabilities": lambda m, d, t: m.evaluate.latent_group_probabilities(d, t, groups=2),
    "group probabilities by scoring": lambda m, d, t: m.evaluate.latent_group_probabilities(d, groups=2, theta_estimation="EAP"),
    "group probabilities of the training data": lambda m, d, t: m.evaluate.latent_group_probabilities(groups=2, theta_estimation="EAP", rescale=False),
    "group residuals": lambda m, d, t: m.evaluate.group_fit_residuals(d, t, groups=3),
    "group residuals by scoring": lambda m, d, t: m.evaluate.group_fit_residuals(d, groups=2, theta_estimation="EAP", latent_variable=m.latent_variables),
    "raw group residuals": lambda m, d, t: m.evaluate.group_fit_residuals(d, t, groups=2, standardize=False),
    "group log-likelihood": lambda m, d, t: m.evaluate.group_fit_log_likelihood(d, t, groups=2),
    "group log-likelihood by scoring": lambda m, d, t: m.evaluate.group_fit_log_likelihood(d, groups=3, theta_estimation="EAP"),
}


@prop.facet("history", twin_cases(8), 150, 2500, lambda c: rich(c) and len(c["steps"]) > 3)
def history(case):
    """grouped fit on one model between changes of parameters, data, thetas, codings, scales and training results: each equals that of a fresh model in the same state"""
    twin_check(case, GROUP_CALLS)
