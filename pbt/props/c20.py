from types import SimpleNamespace
from ..gen import *
from ..histlib import twin_cases, twin_check

prop = Property("C20", [
    "ties for the most likely category are left out",
    "statistics that divide by a zero information (probability exactly 0 or 1) are left out",
    "class averages of an item nobody answered are left out (undefined)",
])


def observed(rows):
    return np.array([[np.nan if v is None else v for v in r] for r in rows], dtype=float)


def reduce_mean(x, level):
    """Mean over the non-missing entries: NaN when there are none."""
    ax = {"item": 0, "respondent": 1, "all": None}[level]
    n = (~np.isnan(x)).sum(axis=ax)
    with np.errstate(all="ignore"):
        return np.nansum(x, axis=ax) / n


def setup(case):
    s = case["m"]
    m, th = build(s), theta_t(case["theta"])
    p = probs_of(m, th).numpy()
    obs = observed(case["data"])
    mc = mc_of(s)
    key = None if mc is None else np.array(mc)
    if key is None:
        E = (p * np.arange(p.shape[2])).sum(2)
        V = ((np.arange(p.shape[2])[None, None] - E[:, :, None]) ** 2 * p).sum(2)
        S = obs
    else:
        E = np.take_along_axis(p, np.broadcast_to(key[None, :, None], p.shape[:2] + (1,)), 2)[:, :, 0]
        V = E * (1 - E)
        S = np.where(np.isnan(obs), np.nan, (obs == key[None]).astype(float))
    dress(m, case)
    return s, m, th, p, obs, S, E, V, mc


def codings(case):
    return [(c, data_t(case["data"], c)) for c in ("nan", "-1", "mixed")]


CASE = case_data_st(many=True, min_n=1, max_n=7, vmax=20, lo=-30, hi=30)
NT = lambda c: rich(c) and any(v is None for r in c["data"] for v in r) and len(c["data"]) > 1


@prop.facet("residuals", CASE, 1500, 24000, NT, dtype="float64")
def residuals(case):
    """residuals and their averages; non-trivial: several respondents and a missing response"""
    s, m, th, p, obs, S, E, V, mc = setup(case)
    if mc is None:
        want = obs - E
    else:
        idx = np.where(np.isnan(obs), 0, obs).astype(int)
        want = np.where(np.isnan(obs), np.nan, 1 - np.take_along_axis(p, idx[:, :, None], 2)[:, :, 0])
    for coding, data in codings(case):
        keep = data.clone()
        kw = dict(rtol=1e-7, atol=1e-8)
        close(m.evaluate.residuals(data, th), want, f"residuals ({coding})", **kw)
        close(m.evaluate.residuals(data, th, average_over="respondents"), reduce_mean(want, "item"), f"residuals averaged over respondents ({coding})", **kw)
        close(m.evaluate.residuals(data, th, average_over="items"), reduce_mean(want, "respondent"), f"residuals averaged over items ({coding})", **kw)
        close(m.evaluate.residuals(data, th, average_over="everything"), reduce_mean(want, "all"), f"residuals averaged over everything ({coding})", **kw)
        exact(data, keep, "data after residuals")


@prop.facet("infit_outfit", CASE, 1500, 24000, NT, dtype="float64")
def infit_outfit(case):
    """infit = sum of squared residuals over sum of information, outfit = mean squared standardised residual, both over observed responses"""
    s, m, th, p, obs, S, E, V, mc = setup(case)
    seen = ~np.isnan(obs)
    if V[seen].size and V[seen].min() < 1e-7:
        return
    sq = (S - E) ** 2
    z = sq / V
    Vo = np.where(seen, V, np.nan)
    for coding, data in codings(case):
        keep = data.clone()
        for level, ax in (("item", 0), ("respondent", 1)):
            with np.errstate(all="ignore"):
                infit = np.nansum(sq, ax) / np.nansum(Vo, ax)
            got = m.evaluate.infit_outfit(data, th, level=level)
            close(got[0], infit, f"infit per {level} ({coding})", rtol=1e-6, atol=1e-7)
            close(got[1], reduce_mean(z, level), f"outfit per {level} ({coding})", rtol=1e-6, atol=1e-7)
        exact(data, keep, "data after infit_outfit")


def tied(p):
    q = np.sort(p, axis=2)
    return bool((q[:, :, -1] - q[:, :, -2] < 1e-7).any())


@prop.facet("accuracy", CASE, 1500, 24000, NT, dtype="float64")
def accuracy(case):
    """accuracy is the share of observed responses that equal the most likely category"""
    s, m, th, p, obs, S, E, V, mc = setup(case)
    if tied(p):
        return
    hit = np.where(np.isnan(obs), np.nan, (p.argmax(2) == obs).astype(float))
    for coding, data in codings(case):
        keep = data.clone()
        for level in ("item", "respondent", "all"):
            close(m.evaluate.accuracy(data, th, level=level), reduce_mean(hit, level), f"accuracy per {level} ({coding})", rtol=1e-6, atol=1e-7)
        exact(data, keep, "data after accuracy")


@prop.facet("predictions", case_data_st(many=True, min_n=1, max_n=12, vmax=20, lo=-30, hi=30), 1000, 16000, NT, dtype="float64")
def predictions(case):
    """precision, recall and F1 per category averaged with equal weight and by prevalence; a category never predicted right counts zero"""
    s, m, th, p, obs, S, E, V, mc = setup(case)
    if tied(p):
        return
    pred, cats = p.argmax(2), cats_of(s)
    names = ["precision", "recall", "f1", "w_precision", "w_recall", "w_f1"]
    for coding, data in codings(case):
        keep = data.clone()
        df = m.evaluate.predictions(data, th)
        true(len(df) == len(cats), "one row per item")
        for j, c in enumerate(cats):
            sel = ~np.isnan(obs[:, j])
            if not sel.any():
                continue
            o, q = obs[sel, j], pred[sel, j]
            want = np.zeros(6)
            for k in range(c):
                tp, npred, nobs = int(((o == k) & (q == k)).sum()), int((q == k).sum()), int((o == k).sum())
                P = tp / npred if npred else 0.0
                R = tp / nobs if nobs else 0.0
                F = 2 * tp / (npred + nobs) if tp else 0.0
                want[:3] += np.array([P, R, F]) / c
                want[3:] += np.array([P, R, F]) * nobs / len(o)
            close(df[names].iloc[j].to_numpy(dtype=float), want, f"precision/recall/F1 of item {j} ({coding})", rtol=1e-5, atol=1e-6)
        exact(data, keep, "data after predictions")


@prop.facet("subset", case_data_st(min_n=2, max_n=6, vmax=20, lo=-30, hi=30), 400, 6000, NT, dtype="float64")
def subset(case):
    """respondent statistics depend on the respondent's own row only, item statistics do not depend on the order of the respondents, and the training data are used when no data are given"""
    s = case["m"]
    m, th = build(s), theta_t(case["theta"])
    data = data_t(case["data"])
    kw = dict(rtol=1e-7, atol=1e-8)
    ev = m.evaluate
    fns = {
        "residuals": (lambda d, t: ev.residuals(d, t, average_over="items"), lambda d, t: ev.residuals(d, t, average_over="respondents")),
        "accuracy": (lambda d, t: ev.accuracy(d, t, level="respondent"), lambda d, t: ev.accuracy(d, t, level="item")),
        "infit": (lambda d, t: ev.infit_outfit(d, t, level="respondent")[0], lambda d, t: ev.infit_outfit(d, t, level="item")[0]),
        "outfit": (lambda d, t: ev.infit_outfit(d, t, level="respondent")[1], lambda d, t: ev.infit_outfit(d, t, level="item")[1]),
    }
    perm = torch.arange(len(th)).flip(0)
    for name, (by_row, by_item) in fns.items():
        full = by_row(data, th)
        single = torch.cat([by_row(data[i:i + 1], th[i:i + 1]) for i in range(len(th))])
        close(full, single, f"{name} per respondent, alone and together", **kw)
        close(by_row(data[perm], th[perm]), full[perm], f"{name} per respondent after reordering", **kw)
        close(by_item(data[perm], th[perm]), by_item(data, th), f"{name} per item after reordering", **kw)
    m.algorithm = SimpleNamespace(train_data=data)
    for name, (by_row, by_item) in fns.items():
        close(by_row(None, th), by_row(data, th), f"{name} with the training data", **kw)


@st.composite
def default_cases(draw, min_items=1):
    s = draw(spec_st(ALL, max_L=2, max_items=3, vmax=15))
    if len(cats_of(s)) < min_items:
        s = draw(spec_st(BASIC, vmax=15, max_L=2, items=draw(ints(min_items, 3))))
    n = draw(ints(3, 6))
    return {"m": s, "data": draw(data_st(cats_of(s), n)), "train": draw(theta_st(s["L"], n, n, -25, 25)), "est": draw(st.sampled_from([None, "ML", "MAP", "EAP"])),
            "given": draw(st.booleans()), "scales": draw(scales_st(s["L"], ("rev",), 0, 1)), "seed": draw(ints(0, 99))}


def defaults_check(case, calls):
    """Each call without thetas (or data) equals the same call with the model's own theta-scale scores of those (the training) data."""
    m, data = build(case["m"]), data_t(case["data"], "mixed")
    if any(all(v is None for v in r) for r in case["data"]):
        return
    m.scale = [build_scale(d, m) for d in case["scales"]]
    train = theta_t([[v + 7 * ((i * (l + 2)) % 5 - 2) for l, v in enumerate(r)] for i, r in enumerate(case["train"])])
    if case["est"] in ("MAP", "EAP") and float(torch.linalg.eigvalsh(torch.atleast_2d(train.T.cov())).min()) < 0.05:
        return      # no proper prior can be estimated from these
    m.algorithm = SimpleNamespace(train_data=data.clone(), training_theta_scores=train)
    kw = {} if case["est"] is None else {"theta_estimation": case["est"]}
    torch.manual_seed(case["seed"])
    theta = m.latent_scores(data.clone(), rescale=False, **kw)
    if not bool(torch.isfinite(theta).all()):
        return
    flat = lambda r: torch.cat([torch.as_tensor(np.asarray(x.detach() if isinstance(x, torch.Tensor) else x, dtype=float)).flatten() for x in (r if isinstance(r, tuple) else (r,)) if x is not None])
    for name, f in calls.items():
        torch.manual_seed(case["seed"])
        got = flat(f(m.evaluate, data.clone() if case["given"] else None, None, kw))
        torch.manual_seed(case["seed"])
        want = flat(f(m.evaluate, data.clone(), theta.clone(), {}))
        close(got, want, f"{name} without thetas{'' if case['given'] else ' or data'} ({case['est']})", rtol=1e-4, atol=1e-5)


@prop.facet("defaults", default_cases(), 90, 1500, lambda c: rich(c) and not c["given"], shard_min=15)
def defaults(case):
    """without thetas the statistics use the model's theta-scale scores of the data by the named estimation method, without data the training data; non-trivial: no data given"""
    defaults_check(case, {
        "residuals": lambda e, d, t, kw: e.residuals(d, t, **kw),
        "infit and outfit": lambda e, d, t, kw: e.infit_outfit(d, t, **kw),
        "accuracy": lambda e, d, t, kw: e.accuracy(d, t, **kw),
        "predictions": lambda e, d, t, kw: e.predictions(d, t, **kw)[["precision", "recall", "f1", "w_precision", "w_recall", "w_f1"]],
        "log-likelihood": lambda e, d, t, kw: e.log_likelihood(d, t, reduction="none", **kw),
    })


FIT_CALLS = {
    "residuals": lambda m, d, t: m.evaluate.residuals(d, t),
    "residuals by scoring": lambda m, d, t: m.evaluate.residuals(d, theta_estimation="EAP"),
    "residuals of the training data": lambda m, d, t: m.evaluate.residuals(theta_estimation="EAP", average_over="respondents"),
    "infit and outfit by scoring": lambda m, d, t: m.evaluate.infit_outfit(d, theta_estimation="EAP"),
    "infit and outfit": lambda m, d, t: m.evaluate.infit_outfit(d, t, level="respondent"),
    "accuracy": lambda m, d, t: m.evaluate.accuracy(d, t, level="item"),
    "accuracy by scoring": lambda m, d, t: m.evaluate.accuracy(d, theta_estimation="EAP", level="respondent"),
    "predictions": lambda m, d, t: m.evaluate.predictions(d, theta_estimation="EAP")[["precision", "recall", "f1", "w_precision", "w_recall", "w_f1"]],
    "log-likelihood": lambda m, d, t: m.evaluate.log_likelihood(d, theta_estimation="EAP", reduction="none"),
}


@prop.facet("history", twin_cases(9), 150, 2500, lambda c: rich(c) and len(c["steps"]) > 3)
def history(case):
    """fit statistics on one model between changes of parameters, data, thetas, codings, scales and training results: each equals that of a fresh model in the same state"""
    twin_check(case, FIT_CALLS)
