from ..gen import *
from scipy import stats as sps

prop = Property("C13", ["calibration samples have at least two distinct values per latent variable; mixture fitting is judged while every component keeps weight and a well-conditioned covariance"])


@st.composite
def sample_st(draw, min_n=3, max_n=25, max_L=3, ties=True, span=30):
    L = draw(ints(1, max_L))
    n = draw(ints(min_n, max_n))
    if ties:
        cols = [[draw(ints(-span, span)) for _ in range(n)] for _ in range(L)]
    else:
        cols = [draw(st.lists(ints(-10 * span, 10 * span), min_size=n, max_size=n, unique=True)) for _ in range(L)]
    if draw(ints(1, 16)) == 16:         # a large sample
        n = draw(st.sampled_from([60, 150, 400, 1100]))
        a = draw(ints(1, 50))
        if ties:
            cols = [[(i * i * 13 + i * (l + 3) * 7 + a) % (2 * span + 1) - span for i in range(n)] for l in range(L)]
        else:                           # distinct values, in another order for each latent variable
            cols = [[((i * (1 + 2 * l) * 509 + a * l) % 6007) / 10 - 300 for i in range(n)] for l in range(L)]
    return {"cols": cols, "unit": 10 if ties else 100}


def sample(c):
    return layout(torch.tensor(c["cols"], dtype=torch.get_default_dtype()).T.contiguous() / c["unit"])


def many(rows, L, h):
    """Sometimes many points to evaluate at, further out than the sample."""
    if h % 4 == 0:
        rows = rows + [[(i * 37 + l * 11 + h) % 161 - 80 for l in range(L)] for i in range(100)]
    return rows


@st.composite
def rank_st(draw):
    c = draw(sample_st(span=draw(st.sampled_from([3, 30]))))
    L = len(c["cols"])
    c["close"] = draw(st.sampled_from([1, 1, 1, 1e4]))      # calibration thetas very close to one another
    c["new"] = many(draw(theta_st(L, 1, 6, -80, 80)), L, draw(ints(1, 16)))
    d = lambda: draw(st.sampled_from(["normal", "logistic", "uniform", "shifted"]))
    mode = draw(st.sampled_from(["none", "one", "each"]))
    c["dist"] = None if mode == "none" else [d()] if mode == "one" else [d() for _ in range(L)]
    return c


TD = {"normal": (lambda: torch.distributions.Normal(0.0, 1.0), sps.norm()), "shifted": (lambda: torch.distributions.Normal(2.0, 0.5), sps.norm(2, 0.5)),
      "uniform": (lambda: torch.distributions.Uniform(-1.0, 3.0), sps.uniform(-1, 4)), "logistic": (lambda: torch.distributions.Laplace(0.0, 1.0), sps.laplace())}


@prop.facet("rank", rank_st(), 800, 12000, lambda c: len(c["cols"]) > 1 or len(set(c["cols"][0])) < len(c["cols"][0]))
def rank(c):
    """calibration thetas map to the reference quantile of their tie-averaged rank over n+1; new thetas take the rank of the nearest calibration value; non-decreasing; each variable alone; non-trivial: ties or several variables"""
    from irtorch.rescale import RankCDF
    cal = sample(c) / c.get("close", 1)
    n, L = cal.shape
    dist = c["dist"] if c["dist"] is not None else ["normal"]
    dist = dist * L if len(dist) == 1 else dist
    keep = cal.clone()
    s = RankCDF(cal, None if c["dist"] is None else [TD[d][0]() for d in c["dist"]])
    got = s.transform(cal)
    exact(cal, keep, "rank scaling changed the caller's thetas")
    want = np.stack([TD[dist[l]][1].ppf(sps.rankdata(cal[:, l].numpy(), method="average") / (n + 1)) for l in range(L)], axis=1)
    close(got, want, "rank-based score of the calibration sample", rtol=1e-4, atol=1e-4)
    true(not s.invertible, "rank scaling declared invertible")
    new = layout(theta_t(c["new"]) + 0.00317)
    out = s.transform(new)
    exact(s.transform(new[:1]), out[:1], "rank-based score of one respondent alone")
    for l in range(L):
        d = np.abs(cal[:, l].numpy()[None, :] - new[:, l].numpy()[:, None])
        for r in range(len(new)):
            near = want[np.isclose(d[r], d[r].min(), atol=1e-6), l]
            true(bool(np.isclose(near, float(out[r, l]), rtol=1e-4, atol=1e-4).any()), "new theta does not take the quantile of the nearest calibration value", got=float(out[r, l]), want=near)
        both = torch.cat([new[:, l], cal[:, l]]); vals = torch.cat([out[:, l], got[:, l]])
        o = both.argsort(stable=True)
        true(bool((vals[o][1:] >= vals[o][:-1] - 1e-6).all()), "rank-based scores are not non-decreasing", x=both[o], y=vals[o])
        one = RankCDF(cal[:, l:l + 1], [TD[dist[l]][0]()])
        exact(one.transform(new[:, l:l + 1]), out[:, l:l + 1], "rank-based score depends on the other latent variables")


@st.composite
def crowd_st(draw):
    n = draw(st.sampled_from([2047, 2049, 2600, 3001, 4097, 5000]))
    return {"n": n, "mul": draw(st.sampled_from([7, 101, 997])), "ties": draw(st.sampled_from([1, 1, 2, 3])), "at": draw(st.lists(ints(0, n - 1), min_size=3, max_size=8)), "L": draw(ints(1, 2))}


@prop.facet("rank_many", crowd_st(), 60, 800, lambda c: c["n"] > 2047, shard_min=20)
def rank_many(c):
    """thousands of calibration respondents: every one of them still has its own quantile; non-trivial: more than 2047 respondents"""
    from irtorch.rescale import RankCDF
    n, i = c["n"], np.arange(c["n"])
    v = (i // c["ties"])[np.argsort((i * c["mul"]) % 10007, kind="stable")] * 0.01 - n * 0.005
    cal = torch.tensor(np.stack([v if l == 0 else -v for l in range(c["L"])], axis=1)).float()
    s = RankCDF(cal)
    got = s.transform(cal[c["at"]])
    want = np.stack([sps.norm.ppf(sps.rankdata(cal[:, l].numpy()) / (n + 1)) for l in range(c["L"])], axis=1)
    close(got, want[c["at"]], "rank-based scores in a large calibration sample", rtol=1e-5, atol=2e-5)


@st.composite
def qmvn_st(draw):
    c = draw(sample_st(min_n=6, max_n=30, ties=False))
    c["new"] = many(draw(theta_st(len(c["cols"]), 1, 6, -40, 40)), len(c["cols"]), draw(ints(1, 16)))
    c["tie"] = draw(ints(0, 4))
    return c


@prop.facet("quantile_normal", qmvn_st(), 700, 10000, lambda c: len(c["cols"]) > 1)
def quantile_normal(c):
    """density = multivariate normal density (moments of the normal scores) at the linearly interpolated / extrapolated normal scores; finite with ties; non-trivial: several variables"""
    from irtorch.quantile_mv_normal import QuantileMVNormal
    X = sample(c)
    n, L = X.shape
    x = X.double().numpy()
    z = sps.norm.ppf(np.stack([sps.rankdata(x[:, l]) for l in range(L)], axis=1) / (n + 1))
    cov = np.cov(z.T).reshape(L, L)
    if np.linalg.cond(cov) > 1e3:
        return
    keep = X.clone()
    q = QuantileMVNormal()
    q.fit(X)
    exact(X, keep, "fitting the density changed the caller's data")
    close(q.mvnormal.mean, z.mean(axis=0), "mean of the normal scores", atol=1e-4)
    close(q.mvnormal.covariance_matrix, cov, "covariance of the normal scores", rtol=1e-3, atol=1e-4)
    new = layout(torch.cat([theta_t(c["new"]), X[:2], X.min(dim=0).values.view(1, -1), X.max(dim=0).values.view(1, -1)]))
    nn = new.double().numpy()
    zz = np.zeros_like(nn)
    for l in range(L):
        o = np.argsort(x[:, l]); xs, zs = x[o, l], z[o, l]
        zz[:, l] = np.interp(nn[:, l], xs, zs)
        lo, hi = nn[:, l] < xs[0], nn[:, l] > xs[-1]
        zz[lo, l] = zs[0] + (zs[1] - zs[0]) / (xs[1] - xs[0]) * (nn[lo, l] - xs[0])
        zz[hi, l] = zs[-1] + (zs[-1] - zs[-2]) / (xs[-1] - xs[-2]) * (nn[hi, l] - xs[-1])
    want = np.atleast_1d(sps.multivariate_normal(z.mean(axis=0), cov).pdf(zz))
    got = q.pdf(new)
    inner = np.abs(zz).max(axis=1) < 8
    close(got[torch.tensor(inner)], want[inner], "quantile normal density", rtol=2e-2, atol=1e-5)
    close(q.pdf(new[:1]), got[:1], "density of one point alone", rtol=1e-5, atol=1e-9)
    if c["tie"]:        # tied extremes (as for respondents with equal extreme patterns)
        Y = X.clone()
        o = Y[:, 0].argsort()
        k = 1 + c["tie"] % 2
        Y[o[:k + 1], 0] = Y[o[k], 0].clone(); Y[o[-k - 1:], 0] = Y[o[-k - 1], 0].clone()
        q = QuantileMVNormal(); q.fit(Y)
        p = q.pdf(new)
        true(bool(torch.isfinite(p).all()) and bool((p >= 0).all()), "density with tied extremes is not finite", p=p)


@st.composite
def gmm_st(draw):
    c = draw(sample_st(min_n=12, max_n=30, max_L=3, ties=False))
    c["K"] = draw(ints(1, 3)); c["iters"] = draw(ints(1, 6)); c["seed"] = draw(ints(0, 50))
    c["new"] = many(draw(theta_st(len(c["cols"]), 1, 5, -40, 40)), len(c["cols"]), draw(ints(1, 16)))
    return c


def gm_ref(g, x):
    """log of the mixture density at the rows of x, from the reported parameters"""
    w, mu, S = g.weights.detach().double().numpy(), g.means.detach().double().numpy(), g.covariances.detach().double().numpy()
    lp = np.stack([np.log(w[k]) + np.atleast_1d(sps.multivariate_normal(mu[k], S[k], allow_singular=True).logpdf(x)) for k in range(len(w))])
    return np.logaddexp.reduce(lp, axis=0)


@prop.facet("mixture", gmm_st(), 400, 6000, lambda c: c["K"] > 1, dtype="float64")
def mixture(c):
    """mixture density and log-likelihood vs their formulas at the reported parameters; every EM iteration is one exact EM step, never lowers the likelihood and keeps valid weights and covariances; non-trivial: several components"""
    from irtorch.torch_modules import GaussianMixtureModel
    X = sample(c) * [1.0, 0.03][c["seed"] % 2]
    n, L = X.shape
    x = X.double().numpy()
    torch.manual_seed(c["seed"])
    g = GaussianMixtureModel(c["K"], L)
    keep = X.clone()
    if c["iters"] % 2:      # well separated start: copies of data rows
        with torch.no_grad():
            g.means.copy_(X[:c["K"]])
    prev = gm_ref(g, x).sum()
    for it in range(c["iters"]):
        w, mu, S = [v.detach().double().numpy().copy() for v in (g.weights, g.means, g.covariances)]
        lp = np.stack([np.log(w[k]) + np.atleast_1d(sps.multivariate_normal(mu[k], S[k], allow_singular=True).logpdf(x)) for k in range(c["K"])])
        R = np.exp(lp - np.logaddexp.reduce(lp, axis=0))
        nk = R.sum(axis=1)
        g.fit(X, iterations=1)
        W, M, C = [v.detach().double() for v in (g.weights, g.means, g.covariances)]
        if (nk < 1.5).any() or not bool(torch.isfinite(C).all()) or any(np.linalg.cond(C[k].numpy()) > 1e3 or np.linalg.eigvalsh(C[k].numpy()).min() < 1e-7 for k in range(c["K"])):
            return          # a component is collapsing: singular mixtures are outside the property
        close(W, nk / n, "mixture weights after one step", rtol=1e-6, atol=1e-9)
        m2 = R @ x / nk[:, None]
        close(M, m2, "mixture means after one step", rtol=1e-6, atol=1e-9)
        C2 = np.stack([((x - m2[k]) * R[k][:, None]).T @ (x - m2[k]) / nk[k] for k in range(c["K"])])
        close(C, C2, "mixture covariances after one step", rtol=1e-5, atol=1e-9)
        true(abs(float(W.sum()) - 1) < 1e-4 and bool((W >= 0).all()), "weights are not a distribution", w=W)
        cur = gm_ref(g, x).sum()
        true(cur >= prev - 1e-7 - 1e-7 * abs(prev), "a fitting iteration lowered the log-likelihood", before=prev, after=cur)
        prev = cur
    exact(X, keep, "fitting the mixture changed the caller's data")
    new = layout(torch.cat([theta_t(c["new"]), X[:2]]))
    want = gm_ref(g, new.double().numpy())
    with torch.no_grad():
        close(g.pdf(new), np.exp(want), "mixture density", rtol=1e-6, atol=1e-12)
        close(g(new), want.sum(), "mixture log-likelihood", rtol=1e-6, atol=1e-6)
        for i in range(3):
            close(g(new[i:i + 1]), want[i], "mixture log-likelihood of one point", rtol=1e-6, atol=1e-6)
            close(g.pdf(new[i:i + 1]).reshape(-1), np.exp(want[i:i + 1]), "mixture density of one point", rtol=1e-6, atol=1e-12)
        close(g(new), want.sum(), "mixture log-likelihood, asked again", rtol=1e-6, atol=1e-6)
        close(g.pdf(new), np.exp(want), "mixture density, asked again", rtol=1e-6, atol=1e-12)
    # the same start and several iterations at once
    torch.manual_seed(c["seed"]); a = GaussianMixtureModel(c["K"], L)
    torch.manual_seed(c["seed"]); b = GaussianMixtureModel(c["K"], L)
    a.fit(X, iterations=2); b.fit(X, iterations=1); b.fit(X, iterations=1)
    exact(a.means.detach(), b.means.detach(), "two iterations differ from one and one more")


@st.composite
def outlier_st(draw):
    c = draw(sample_st(min_n=4, max_n=20, ties=True, span=10))
    L = len(c["cols"])
    for col in c["cols"]:
        if draw(st.booleans()):
            col[draw(ints(0, len(col) - 1))] = draw(st.sampled_from([-200, 150, 60, -45]))
    c["factor"] = draw(st.sampled_from([None, 10, 15, 20, 40])); c["new"] = draw(theta_st(L, 1, 5, -60, 60))
    c["sides"] = draw(st.sampled_from([(True, True), (True, False), (False, True)]))
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-5, 300.0]))
    return c


@prop.facet("outliers", outlier_st(), 900, 12000, lambda c: any(max(map(abs, col)) > 30 for col in c["cols"]))
def outliers(c):
    """flags exactly the values beyond quartile -/+ factor times the interquartile range; the extreme non-outliers are the smallest and largest unflagged values; non-trivial: an outlying value"""
    from irtorch.outlier_detector import OutlierDetector
    u = c.get("scale", 1.0)
    X = sample(c) * u
    x = X.double().numpy()
    f = 1.5 if c["factor"] is None else c["factor"] / 10
    det = OutlierDetector() if c["factor"] is None else OutlierDetector(factor=f)
    q1, q3 = np.quantile(x, 0.25, axis=0), np.quantile(x, 0.75, axis=0)
    lo, hi = q1 - f * (q3 - q1), q3 + f * (q3 - q1)
    up, low = c["sides"]
    new = theta_t(c["new"]) * u

    def ref(v):
        m = np.zeros_like(v, dtype=bool); edge = (np.abs(v - lo) < 1e-4 * u) | (np.abs(v - hi) < 1e-4 * u)
        if up: m |= v > hi
        if low: m |= v < lo
        return m, edge
    for what, got, v in (("identified outliers", det.identify_outliers(X, upper=up, lower=low), x),
                         ("new outliers", det.is_outlier(new, data=X, upper=up, lower=low), new.double().numpy())):
        want, edge = ref(v)
        true(tuple(got.shape) == v.shape and got.dtype == torch.bool, f"{what}: shape or type", got=got)
        bad = (got.numpy() != want) & ~edge
        true(not bad.any(), f"{what} differ from the fences", got=got, want=want)
    inner = (x >= lo - 1e-4 * u) & (x <= hi + 1e-4 * u)
    sure = (x >= lo + 1e-4 * u) & (x <= hi - 1e-4 * u)
    if not (inner == sure).all():
        return
    close(det.smallest_largest_non_outlier(X, smallest=True), np.where(inner, x, np.inf).min(axis=0)[None, :], "smallest non-outlier", atol=1e-5 * u)
    close(det.smallest_largest_non_outlier(X, smallest=False), np.where(inner, x, -np.inf).max(axis=0)[None, :], "largest non-outlier", atol=1e-5 * u)


@st.composite
def fence_st(draw):
    k = 7 - draw(ints(1, 6))
    L = draw(ints(1, 2))
    cols = [[draw(ints(-6, 6)) for _ in range(4 * k + 1)] for _ in range(L)]
    c = {"cols": cols, "unit": 1, "factor": draw(st.sampled_from([4, 6, 8, 12])), "near": [draw(ints(-2, 2)) for _ in range(3)],
         "sides": draw(st.sampled_from([(True, True), (True, False), (False, True)])), "pow": draw(st.sampled_from([0, 0, -12, -20, 9])),
         "shift": draw(st.sampled_from([0, 0, -2048, 4096, -65536]))}
    put = draw(st.sampled_from(["both", "high", "low", "none"]))
    for col, lo, hi in zip(cols, *fences(c)):           # an extreme value moved onto the fence leaves the quartiles where they are
        if put in ("both", "high") and hi > lo:
            col[col.index(max(col))] = float(hi)
        if put in ("both", "low") and hi > lo:
            col[col.index(min(col))] = float(lo)
    return c


def fences(c):
    x = np.array(c["cols"], dtype=float)
    q1, q3 = np.sort(x, axis=1)[:, x.shape[1] // 4], np.sort(x, axis=1)[:, 3 * (x.shape[1] // 4)]
    return q1 - c["factor"] / 4 * (q3 - q1), q3 + c["factor"] / 4 * (q3 - q1)


@prop.facet("fences", fence_st(), 300, 5000, lambda c: any(v in (lo, hi) for col, lo, hi in zip(c["cols"], *fences(c)) for v in col))
def fence(c):
    """samples whose quartiles and fences are exact: values on a fence are no outliers, values past it are, wherever they lie; non-trivial: a sample value on a fence"""
    from irtorch.outlier_detector import OutlierDetector
    u = 2.0 ** c.get("pow", 0)          # exact in every unit
    X = (sample(c) + c.get("shift", 0)) * u
    x = X.double().numpy()
    lo, hi = fences(c)
    lo, hi = (lo + c.get("shift", 0)) * u, (hi + c.get("shift", 0)) * u
    det = OutlierDetector(factor=c["factor"] / 4)
    up, low = c["sides"]
    # on a fence, and up to two quarters to either side of it
    new = torch.tensor(np.stack([side + d / 4 * u for side in (lo, hi) for d in (0, -1, 1, *c["near"])])).float()
    for what, got, v in (("identified", det.identify_outliers(X, upper=up, lower=low), x), ("new", det.is_outlier(new, data=X, upper=up, lower=low), new.double().numpy())):
        want = ((v > hi) & up) | ((v < lo) & low)
        true((got.numpy() == want).all(), f"{what} outliers differ from the exact fences", got=got, want=want, fences=[lo.tolist(), hi.tolist()])
    inner = (x >= lo) & (x <= hi)
    exact(det.smallest_largest_non_outlier(X, smallest=True).double(), torch.tensor(np.where(inner, x, np.inf).min(axis=0)[None, :]), "smallest non-outlier")
    exact(det.smallest_largest_non_outlier(X, smallest=False).double(), torch.tensor(np.where(inner, x, -np.inf).max(axis=0)[None, :]), "largest non-outlier")
