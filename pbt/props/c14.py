from ..gen import *
from ..histlib import twin_cases, twin_check

prop = Property("C14", ["ML and MAP optimality is judged for models with a log-concave likelihood (1PL, 2PL, graded response, partial credit) where every local maximum is global, and as a stationary point that beats its starting value otherwise",
                        "ML is judged for respondents whose maximum is interior (inside -5 to 5 with information above 0.15 in every direction), in batches of such respondents plus others"])
CONCAVE = ["1PL", "2PL", "GRM", "GPC"]


def ll_fn(m64, data):
    """Per-respondent log-likelihood in double precision from the item probabilities."""
    miss = data.isnan() | (data == -1)
    idx = torch.where(miss, torch.zeros_like(data), data).long().unsqueeze(2)

    def f(t):
        p = m64.item_probabilities(t).gather(2, idx).squeeze(2)
        return torch.where(miss, torch.zeros_like(p), p.clamp_min(1e-300).log()).sum(dim=1)
    return f


def newton(f, t0, steps=300):
    """Reference maximiser: damped Newton with backtracking, row by row, in double precision; returns optimum and Hessian."""
    t = t0.clone()
    N, L = t.shape
    for _ in range(steps):
        x = t.clone().requires_grad_(True)
        v = f(x)
        g, = torch.autograd.grad(v.sum(), x, create_graph=True)
        H = torch.zeros(N, L, L, dtype=t.dtype)
        for l in range(L):
            if g.requires_grad:
                h, = torch.autograd.grad(g[:, l].sum(), x, retain_graph=True, allow_unused=True)
                if h is not None:
                    H[:, l] = h
        g = g.detach()
        if float(g.abs().max()) < 1e-9:
            break
        A = -H + 1e-6 * torch.eye(L, dtype=t.dtype)
        e = torch.linalg.eigvalsh(A)[:, :1].clamp(max=0).abs()
        A = A + (e.view(-1, 1, 1) * 1.5) * torch.eye(L, dtype=t.dtype)
        step = torch.linalg.solve(A, g.unsqueeze(2)).squeeze(2)
        step = step * (2.0 / step.norm(dim=1, keepdim=True).clamp_min(2.0))
        s = torch.ones(N, 1, dtype=t.dtype)
        with torch.no_grad():
            v = v.detach()
            for _ in range(25):
                nv = f(t + s * step)
                worse = (nv < v - 1e-12).view(-1, 1)
                if not bool(worse.any()):
                    break
                s = torch.where(worse, s / 2, s)
            t = (t + s * step).clamp(-12, 12)
    return t.detach(), H.detach()


def doubled(case):
    with dflt(torch.float64):
        return build(case["m"])


def as64(fn, *a):
    with dflt(torch.float64):
        return fn(*a)


def sized(kinds, min_n, max_n, **kw):
    return case_data_st(kinds, min_n=min_n, max_n=max_n, vmax=15, **kw)


@prop.facet("ml_optimum", sized(CONCAVE, 1, 5, max_L=2, max_items=6), 240, 4000, lambda c: rich(c) and len(c["data"]) > 1, shard_min=20)
def ml(case):
    """ML scores vs a double-precision Newton maximiser of the log-likelihood; non-trivial: several respondents and a rich model"""
    m, m64 = build(case["m"]), doubled(case)
    data = data_t(case["data"], "mixed")
    keep = data.clone()
    got = m.latent_scores(data)
    exact(data, keep, "scoring changed the caller's data")
    true(tuple(got.shape) == (len(data), m.latent_variables), "score shape", got=tuple(got.shape))
    f = ll_fn(m64, data.double())
    best, H = as64(newton, f, torch.zeros(len(data), m.latent_variables, dtype=torch.float64))
    info = torch.linalg.eigvalsh(-H)[:, 0]
    ok = (best.abs().amax(dim=1) < 5) & (info > 0.15)
    with torch.no_grad(), dflt(torch.float64):
        gap = f(best) - f(got.double())
    bad = ok & ~(gap < 2e-3)
    if bool(bad.any()):
        r = int(torch.nonzero(bad)[0])
        fail(f"ML score {got[r].tolist()} of respondent {r} has a log-likelihood {float(gap[r])} below the maximum at {best[r].tolist()}")
    close(got[ok], best[ok], "ML score", atol=0.1)


def priors(case, m):
    """Attach a fitted state; returns the prior covariance and the training thetas (or None)."""
    from irtorch.estimation_algorithms import JML, MML
    L = m.latent_variables
    st_ = case["state"]
    if st_["t"] == "none":
        return torch.eye(L), None
    A = torch.eye(L) * 1.2 + torch.tensor(st_["a"][:L * L]).float().view(L, L) / 20
    if st_["t"] == "mml":
        m.algorithm = MML()
        m.algorithm.covariance_matrix = A @ A.T
        return A @ A.T, None
    t = (torch.tensor(st_["t0"]).float() / 10)[:, :L] @ A
    t = t + 0.05 * torch.arange(len(t) * L).float().view(len(t), L).sin()
    m.algorithm = JML()
    m.algorithm.training_theta_scores = t
    d = t - t.mean(dim=0)
    return d.T @ d / (len(t) - 1), t


@st.composite
def prior_st(draw, kinds=CONCAVE, **kw):
    more = kinds is ALL and draw(ints(0, 7)) in (3, 6)
    c = draw(sized(kinds, 1, 4, max_L=kw.pop("max_L", 2), max_items=9 if more else 5, max_cats=8 if more else 4, **kw))
    t = draw(st.sampled_from(["none", "mml", "train"]))
    c["state"] = {"t": t, "a": [draw(ints(-6, 6)) for _ in range(16)], "t0": [[draw(ints(-20, 20)) for _ in range(4)] for _ in range(draw(ints(6, 12)))]}
    c["points"] = draw(st.sampled_from([None, 5, 9]))
    c["copies"] = draw(st.sampled_from([1, 1, 1, 70]))
    return c


@prop.facet("map_optimum", prior_st(), 300, 4500, lambda c: rich(c) and c["state"]["t"] != "none", shard_min=20)
def map_(case):
    """MAP scores vs a double-precision maximiser of log-likelihood plus normal log prior (standard, marginal ML covariance, or training-theta covariance); non-trivial: fitted state"""
    m, m64 = build(case["m"]), doubled(case)
    cov, train = priors(case, m)
    if torch.linalg.cond(cov) > 30 or float(torch.linalg.eigvalsh(cov)[0]) < 0.1:
        return
    data = data_t(case["data"], "mixed")
    got = m.latent_scores(data, theta_estimation="MAP")
    f0, P = ll_fn(m64, data.double()), torch.linalg.inv(cov.double())
    f = lambda t: f0(t) - 0.5 * torch.einsum("ni,ij,nj->n", t, P, t)
    best, _ = as64(newton, f, torch.zeros_like(got).double())
    with torch.no_grad(), dflt(torch.float64):
        gap = f(best) - f(got.double())
    true(bool((gap < 2e-3).all()), "MAP score below the posterior maximum", got=got, best=best, gap=gap)
    close(got, best, "MAP score", atol=0.1)


@prop.facet("eap_mean", prior_st(ALL, max_L=4), 500, 7000, lambda c: rich(c) and c["state"]["t"] != "none")
def eap(case):
    """EAP scores vs posterior means summed over the grid (-3 to 3, or the training range widened by a quarter on each side) in double precision; all model families; non-trivial: fitted state"""
    m, m64 = build(case["m"]), doubled(case)
    cov, train = priors(case, m)
    if torch.linalg.cond(cov) > 100 or float(torch.linalg.eigvalsh(cov)[0]) < 0.05:
        return
    L = m.latent_variables
    data = data_t(case["data"], "mixed")
    k = case["points"]
    times = case.get("copies", 1)
    data = layout(data.repeat(times, 1))
    dress(m, case)
    got = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=k)
    raw = m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=k, rescale=False)
    close(got, m.transform_theta(raw), "EAP scores are the transformed EAP scores of the theta scale", rtol=1e-5, atol=1e-5)
    got = raw
    k = k or {1: 200, 2: 15, 3: 7, 4: 5}[L]
    if train is None:
        axes = [np.linspace(-3, 3, k)] * L
    else:
        lo, hi = train.double().min(dim=0).values, train.double().max(dim=0).values
        axes = [np.linspace(float(a - 0.25 * (b - a)), float(b + 0.25 * (b - a)), k) for a, b in zip(lo, hi)]
    grid = torch.tensor(np.stack([g.ravel() for g in np.meshgrid(*axes, indexing="ij")], axis=1))
    P = torch.linalg.inv(cov.double())
    lp = -0.5 * torch.einsum("gi,ij,gj->g", grid, P, grid)
    with torch.no_grad(), dflt(torch.float64):
        p = m64.item_probabilities(grid)
    want = torch.zeros(len(case["data"]), L, dtype=torch.float64)
    for r in range(len(want)):
        s = lp.clone()
        for i, v in enumerate(case["data"][r]):
            if v is not None:
                s = s + p[:, i, v].clamp_min(1e-300).log()
        w = (s - s.max()).exp()
        want[r] = (w / w.sum()) @ grid
    close(got, want.repeat(times, 1), "EAP score", rtol=5e-3, atol=5e-3)


@st.composite
def rel_st(draw):
    c = draw(prior_st(["1PL", "2PL", "3PL", "GRM", "GPC", "NRM", "MNN", "MBS", "NEST"], max_L=2))
    c["perm"] = draw(st.permutations(list(range(len(c["data"])))))
    return c


@prop.facet("relations", rel_st(), 70, 1500, lambda c: any(v is None for r in c["data"] for v in r) and len(c["data"]) > 1, shard_min=20)
def relations(case):
    """missing coding is irrelevant, respondents are scored independently and in the rows of the data, a single response vector is one row; non-trivial: missing responses and several respondents"""
    m = build(case["m"])
    m64 = doubled(case)
    cov, _ = priors(case, m)
    if torch.linalg.cond(cov) > 30:
        return
    a, b = data_t(case["data"], "nan"), data_t(case["data"], "-1")
    perm = list(case["perm"])
    for est in ("EAP", "MAP", "ML"):
        s = m.latent_scores(a, theta_estimation=est)
        exact(m.latent_scores(b, theta_estimation=est), s, f"{est} scores depend on the missing coding")
        exact(m.latent_scores(a[0], theta_estimation=est), m.latent_scores(a[:1], theta_estimation=est), f"{est} score of one response vector")
        sp = m.latent_scores(a[perm], theta_estimation=est)
        one = torch.cat([m.latent_scores(a[r:r + 1], theta_estimation=est) for r in range(len(a))])
        if est == "EAP":
            close(sp, s[perm], "EAP scores after reordering the respondents", rtol=1e-4, atol=1e-5)
            close(one, s, "EAP scores of respondents alone", rtol=1e-4, atol=1e-5)
            continue
        if case["m"]["k"] not in CONCAVE:
            continue            # several local maxima: only one of them need be found
        P = torch.linalg.inv(cov.double()) if est == "MAP" else torch.zeros_like(cov.double())
        f0 = ll_fn(m64, a.double())
        f = lambda t: f0(t) - 0.5 * torch.einsum("ni,ij,nj->n", t, P, t)
        best, H = as64(newton, f, torch.zeros_like(s).double())
        ok = (best.abs().amax(dim=1) < 5) & (torch.linalg.eigvalsh(-H)[:, 0] > 0.15)
        close(sp[torch.tensor([perm.index(i) for i in range(len(a))])][ok], s[ok], f"{est} scores after reordering the respondents", atol=0.1)
        close(one[ok], s[ok], f"{est} scores of respondents alone", atol=0.1)


@prop.facet("improves", prior_st(["3PL", "NRM", "MNN", "MBS", "MPOLY", "NEST", "MIX"]), 120, 2000, lambda c: rich(c) and len(c["data"]) > 1, shard_min=10)
def improves(case):
    """for every other family MAP scores have a total log posterior no lower than the all-zero start or the best training theta of each respondent; non-trivial: several respondents"""
    m, m64 = build(case["m"]), doubled(case)
    cov, train = priors(case, m)
    if torch.linalg.cond(cov) > 30 or float(torch.linalg.eigvalsh(cov)[0]) < 0.1:
        return
    data = data_t(case["data"], "mixed")
    got = m.latent_scores(data, theta_estimation="MAP", lbfgs_learning_rate=0.1)
    if not bool(torch.isfinite(got).all()):
        return
    f0, P = ll_fn(m64, data.double()), torch.linalg.inv(cov.double())
    f = lambda t: f0(t) - 0.5 * torch.einsum("ni,ij,nj->n", t, P, t)
    with torch.no_grad(), dflt(torch.float64):
        v = f(got.double())
        if train is None:
            start = f(torch.zeros_like(got).double())
        else:
            ll = torch.stack([f0(t.double().repeat(len(data), 1)) for t in train])
            start = f(train[ll.argmax(dim=0)].double())
    true(float((v - start).sum()) > -0.05 - 0.01 * float(start.abs().sum()), "MAP scores are worse than their start", got=v, start=start)


@st.composite
def large_st(draw):
    c = draw(sized(CONCAVE, 2, 6, max_L=2, max_items=3))
    c["n"] = draw(ints(505, 1100))
    c["train"] = draw(ints(1990, 2600))
    c["seed"] = draw(ints(0, 999))
    c["est"] = draw(st.sampled_from(["ML", "MAP"]))
    return c


@prop.facet("large", large_st(), 24, 300, lambda c: rich(c) and len({tuple(r) for r in c["data"]}) > 1, shard_min=8)
def large(case):
    """many respondents times many training thetas (the start values then come from a sample of the training thetas): scores still maximise the likelihood or posterior row by row; non-trivial: different response patterns"""
    from irtorch.estimation_algorithms import JML
    m, m64 = build(case["m"]), doubled(case)
    L, k, n = m.latent_variables, len(case["data"]), case["n"]
    g = torch.Generator().manual_seed(case["seed"])
    m.algorithm = JML()
    m.algorithm.training_theta_scores = torch.randn(case["train"], L, generator=g)
    t = m.algorithm.training_theta_scores
    small = data_t(case["data"], "mixed")
    rows = torch.randint(0, k, (n,), generator=g)
    data = small[rows]
    keep, keep_t = data.clone(), t.clone()
    torch.manual_seed(case["seed"])
    got = m.latent_scores(data, theta_estimation=case["est"])
    exact(data, keep, "scoring changed the caller's data")
    exact(m.algorithm.training_theta_scores, keep_t, "scoring changed the training thetas")
    true(tuple(got.shape) == (n, L), "score shape", got=tuple(got.shape))
    P = torch.linalg.inv(t.double().T.cov().reshape(L, L)) if case["est"] == "MAP" else torch.zeros(L, L, dtype=torch.float64)
    f0 = ll_fn(m64, small.double())
    f = lambda x: f0(x) - 0.5 * torch.einsum("ni,ij,nj->n", x, P, x)
    best, H = as64(newton, f, torch.zeros(k, L, dtype=torch.float64))
    ok = ((best.abs().amax(dim=1) < 5) & (torch.linalg.eigvalsh(-H)[:, 0] > 0.15))[rows]
    close(got[ok], best[rows][ok], f"{case['est']} score among many respondents", atol=0.1)


SCORE_CALLS = {
    "EAP": lambda m, d, t: m.latent_scores(d, theta_estimation="EAP"),
    "EAP without rescaling": lambda m, d, t: m.latent_scores(d, theta_estimation="EAP", rescale=False),
    "EAP on a chosen grid": lambda m, d, t: m.latent_scores(d, theta_estimation="EAP", eap_theta_integration_points=6),
    "ML": lambda m, d, t: m.latent_scores(d, theta_estimation="ML"),
    "ML with standard errors": lambda m, d, t: m.latent_scores(d, theta_estimation="ML", standard_errors=True),
}


@prop.facet("history", twin_cases(5), 90, 1200, lambda c: rich(c) and len(c["steps"]) > 3, shard_min=15)
def history(case):
    """scoring on one model between changes of parameters, data, codings, scales and training results: each result equals that of a fresh model in the same state"""
    twin_check(case, SCORE_CALLS)
