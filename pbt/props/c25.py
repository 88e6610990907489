import itertools, math
from .c04 import logp_matrix
from ..fitlib import *

prop = Property("C25", [
    "quadrature is exact to single precision of the covariance's Cholesky factor (tolerance 1e-5 relative to the size of the integrand)",
    "the IMV is defined for mean log-likelihoods strictly between -log 2 and 0 (coin weights between one half and one)",
])


def normal_moment(mean, cov, powers):
    """E of a product of powers of jointly normal variables: Isserlis' recursion about the mean."""
    from functools import lru_cache

    @lru_cache(None)
    def E(pw):
        for i, k in enumerate(pw):
            if k:
                q = list(pw); q[i] -= 1
                tot = mean[i] * E(tuple(q))
                for j, kj in enumerate(q):
                    if kj:
                        r = list(q); r[j] -= 1
                        tot += cov[i][j] * kj * E(tuple(r))
                return tot
        return 1.0
    return E(tuple(powers))


@st.composite
def quad_cases(draw):
    d = draw(ints(1, 4))
    n = draw(ints(1, [32, 15, 7, 4][d - 1]))
    A = [[draw(ints(-10, 10)) for _ in range(d)] for _ in range(d)]
    return {"n": n, "mean": [draw(ints(-20, 20)) for _ in range(d)], "A": A, "diag": [draw(ints(2, 20)) for _ in range(d)],
            "powers": [draw(ints(0, 2 * n - 1)) for _ in range(d)], "dtype": draw(st.sampled_from(["float32", "float64"])), "intmean": draw(st.booleans())}


@prop.facet("quadrature", quad_cases(), 1500, 30000, lambda c: c["n"] > 1 and sum(c["powers"]) > 0 and (len(c["mean"]) == 1 or any(x for i, r in enumerate(c["A"]) for j, x in enumerate(r) if i != j)))
def quadrature(case):
    """weights are positive and sum to one; products of powers up to 2n-1 per standardised coordinate are integrated exactly, and so is every moment of total degree up to 2n-1 of the correlated variables; non-trivial: correlated or one-dimensional with a positive power"""
    from irtorch.utils import gauss_hermite
    d, n = len(case["mean"]), case["n"]
    dt = getattr(torch, case["dtype"])
    A = torch.tensor(case["A"], dtype=torch.float64) / 10
    cov = A @ A.T + torch.diag(torch.tensor(case["diag"], dtype=torch.float64) / 10)
    cov = cov.to(dt)
    mean = torch.tensor(case["mean"], dtype=dt) / 10 if not case["intmean"] else torch.tensor([x // 10 for x in case["mean"]])
    keep = cov.clone(), mean.clone()
    x, w = gauss_hermite(n, mean, cov)
    exact(cov, keep[0], "covariance afterwards"); exact(mean, keep[1], "mean afterwards")
    true(tuple(x.shape) == (n ** d, d) and tuple(w.shape) == (n ** d,), "number of quadrature points", got=tuple(x.shape))
    true(bool((w > 0).all()), "weights are not positive")
    X, W = x.double().numpy(), w.double().numpy()
    mu, S = mean.double().numpy(), cov.double().numpy()
    close(W.sum(), np.array(1.0), "weights do not sum to one", rtol=1e-9)
    tol = 1e-4 if dt == torch.float32 else 1e-8
    # coordinates in which the rule is a product rule: up to degree 2n-1 in each
    Lc = np.linalg.cholesky(S)
    Z = np.linalg.solve(Lc, (X - mu).T).T
    f = np.prod(Z ** np.array(case["powers"]), axis=1)
    want = math.prod(0.0 if k % 2 else float(math.prod(range(k - 1, 0, -2))) for k in case["powers"])
    scale = float((np.abs(f) * W).sum()) + 1
    true(abs(float((f * W).sum()) - want) <= tol * scale * (1 + sum(case["powers"])), "product of powers of the standardised coordinates", got=float((f * W).sum()), want=want, powers=case["powers"])
    # moments of the variables themselves, total degree at most 2n-1
    pw = list(case["powers"])
    while sum(pw) > 2 * n - 1:
        pw[int(np.argmax(pw))] -= 1
    f = np.prod(X ** np.array(pw), axis=1)
    want = normal_moment(mu, S, pw)
    scale = float((np.abs(f) * W).sum()) + 1
    true(abs(float((f * W).sum()) - want) <= tol * scale * (1 + sum(pw)), "moment of the normal variables", got=float((f * W).sum()), want=want, powers=pw)


def coin(ll):
    """The coin weight in (0.5, 1) whose entropy is the mean log-likelihood, by bisection."""
    f = lambda w: w * math.log(w) + (1 - w) * math.log(1 - w)
    a, b = 0.5, 1 - 1e-15
    for _ in range(200):
        m = (a + b) / 2
        if f(m) < ll:
            a = m
        else:
            b = m
    return (a + b) / 2


@st.composite
def imv_cases(draw):
    top = draw(st.sampled_from([2, 2, 4, 7]))
    big = draw(ints(0, 7)) in (3, 6)
    s1 = draw(spec_st(["1PL", "2PL", "3PL", "GRM", "NRM"] if top == 2 else ["GRM", "NRM", "GPC"], max_L=3, max_cats=top, max_items=9 if big else 3, masks=False, vmax=20))
    n = several(draw, 1, 6)
    if top == 2:
        s2 = draw(spec_st(["2PL", "3PL"], L=s1["L"], items=len(s1["cats"]), masks=False, vmax=20))
    else:
        s2 = dict(s1, k=draw(st.sampled_from(["NRM", "GPC"] if s1.get("mc") is None else ["NRM"])), par=draw(st.lists(ints(-20, 20), min_size=1, max_size=12)))
    lean = draw(ints(0, 30))
    c = {"m": s1, "m2": s2, "theta": draw(theta_st(s1["L"], n, n, -20, 20)), "theta2": draw(theta_st(s1["L"], n, n, -20, 20)), "data": draw(data_st(s1["cats"], n)), "lean": lean}
    if draw(ints(0, 11)) in (5, 9):
        c = crowd(c, draw(st.sampled_from([40, 70, 130])), span=9)
        c["theta2"] = [c["theta2"][i % n] for i in range(len(c["theta"]))]
    return c


@prop.facet("imv", imv_cases(), 1200, 20000, lambda c: rich(c) and len(c["data"]) > 1, dtype="float64")
def imv_(case):
    """the IMV is (w2 - w1)/w1 for the coin weights (found by bisection) with entropies equal to the models' mean log-likelihoods over observed responses"""
    from irtorch.utils import imv
    m1, m2 = build(case["m"]), build(case["m2"])
    with torch.no_grad():           # push the probabilities towards the observed responses, so that both models beat a fair coin
        for m in (m1, m2):
            for p in m.parameters():
                p.mul_(1 + case["lean"] / 10)
        for m in (m1, m2):
            if m.__class__.__name__ == "GradedResponse":
                order_grm(m)
    t1, t2 = theta_t(case["theta"]), theta_t(case["theta2"])
    p = probs_of(m1, t1)
    # responses likely under the first model where the generated ones are missing-free
    rows = [[None if v is None else int(p[i, j].argmax()) if (i + j + case["lean"]) % 4 else v for j, v in enumerate(r)] for i, r in enumerate(case["data"])]
    if all(v is None for r in rows for v in r):
        return
    lls = []
    for m, t in ((m1, t1), (m2, t2)):
        lp = logp_matrix(m, t, rows)
        if bool((lp[~lp.isnan()] < -25).any()):
            return
        lls.append(float(lp.nanmean()))
    if not all(-0.6925 < x < -1e-4 for x in lls):
        return
    w1, w2 = coin(lls[0]), coin(lls[1])
    for coding in ("nan", "-1", "mixed"):
        data = data_t(rows, coding)
        keep = data.clone()
        got = float(imv(m1, m2, data, t1, t2))
        true(abs(got - (w2 - w1) / w1) < 2e-4, f"IMV ({coding})", got=got, want=(w2 - w1) / w1, mean_ll=lls)
        back = float(imv(m2, m1, data, t2, t1))
        true(abs(back - (w1 - w2) / w2) < 2e-4, f"IMV with the models exchanged ({coding})", got=back, want=(w1 - w2) / w2)
        exact(data, keep, "data after imv")


@prop.facet("newton", st.lists(ints(1, 6900), min_size=1, max_size=5).map(lambda v: {"v": v}), 1000, 16000, lambda c: len(c["v"]) > 1, dtype="float64")
def newton(case):
    """the solved coin weights have the requested entropies, for the whole range of mean log-likelihoods"""
    from irtorch.utils import _imv_newton_raphson
    ll = -torch.tensor(case["v"], dtype=torch.float64) / 10000
    keep = ll.clone()
    w = _imv_newton_raphson(ll)
    exact(ll, keep, "input afterwards")
    true(tuple(w.shape) == tuple(ll.shape), "one weight per value")
    want = np.array([coin(float(x)) for x in ll])
    close(w, want, "coin weights", rtol=0, atol=2e-5)


@prop.facet("near_fair", st.lists(ints(3, 4990), min_size=1, max_size=5).map(lambda v: {"w": v}), 600, 8000, lambda c: len(c["w"]) > 1, dtype="float64")
def near_fair(case):
    """the solved coin weights are the ones the entropies were computed from, down to coins within 0.0003 of a fair one"""
    from irtorch.utils import _imv_newton_raphson
    want = 0.5 + np.array(case["w"], dtype=float) / 10000
    ll = torch.tensor(want * np.log(want) + (1 - want) * np.log1p(-want), dtype=torch.float64)
    close(_imv_newton_raphson(ll), want, "coin weights", rtol=0, atol=2e-5)


@prop.facet("entropy", st.tuples(st.lists(st.lists(ints(0, 30), min_size=3, max_size=3), min_size=1, max_size=4), st.sampled_from([2.0, 10.0, 2.718281828459045, 3.5])).map(lambda t: {"rows": t[0], "base": t[1]}),
            1200, 20000, lambda c: any(sum(r) > max(r) for r in c["rows"]))
def entropy_(case):
    """entropy equals -sum p log p in the given base, with zero probabilities contributing nothing; probabilities that do not sum to one are refused"""
    from irtorch._internal_utils import entropy
    rows = np.array([r if sum(r) else [1, 0, 0] for r in case["rows"]], dtype=float)
    if sum(case["rows"][0]) % 8 == 3:       # many distributions
        rows = np.concatenate([rows] + [np.roll(rows, k, axis=1) + k for k in range(1, 40)])
    if sum(case["rows"][0]) % 4 == 1:       # very improbable categories
        rows = rows * np.array([1.0, 100.0, 3000.0])
    p = rows / rows.sum(1, keepdims=True)
    want = -np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0).sum(1) / math.log(case["base"])
    for dt, tol in ((torch.float32, 1e-5), (torch.float64, 1e-5)):
        with dflt(dt):
            t = layout(torch.tensor(p, dtype=dt))
            keep = t.clone()
            close(entropy(t, case["base"]), want, f"entropy ({dt})", rtol=0, atol=tol)
            close(entropy(t.unsqueeze(0), case["base"]), want[None], "entropy of stacked probabilities", rtol=0, atol=tol)
            exact(t, keep, "probabilities afterwards")
            raises((RuntimeError, ValueError), lambda: entropy(t * 0.5, case["base"]), "entropy of values that do not sum to one")


@st.composite
def grids(draw):
    names = draw(st.lists(st.sampled_from(["max_epochs", "learning_rate", "batch_size", "patience", "x", "y"]), min_size=0, max_size=4, unique=True))
    fixed = draw(st.lists(st.sampled_from(["device_x", "algorithm", "seed"]), max_size=2, unique=True))
    return {"grid": {k: draw(st.lists(ints(-9, 9), min_size=1, max_size=4)) for k in names}, "fixed": {k: draw(ints(0, 9)) for k in fixed}}


@prop.facet("grid", grids(), 600, 8000, lambda c: len(c["grid"]) > 1)
def grid(case):
    """the cross-validation grid holds every combination of values exactly once, each with the fixed arguments, and independent of one another"""
    from irtorch.utils import _create_param_grid
    g = {k: list(v) for k, v in case["grid"].items()}
    got = _create_param_grid(g, dict(case["fixed"]))
    true(g == case["grid"], "grid argument changed")
    keys = list(case["grid"])
    want = sorted(tuple(c) for c in itertools.product(*[case["grid"][k] for k in keys]))
    true(all(set(d) == set(keys) | set(case["fixed"]) for d in got), "arguments of a combination", got=got)
    true(sorted(tuple(d[k] for k in keys) for d in got) == want, "combinations of the grid", got=got, want=want)
    true(all(d[k] == v for d in got for k, v in case["fixed"].items()), "fixed arguments", got=got)
    if got:
        got[0]["probe"] = 1
        true(all("probe" not in d for d in got[1:]), "combinations share one dictionary")


OPS = ["init", "sample", "split", "guess", "impute", "random", "numpy", "torch", "jml", "mml", "ae", "vae", "gmm", "cv", "sumscore"]


@prop.facet("seed", st.tuples(st.lists(st.sampled_from(OPS), min_size=1, max_size=4), ints(0, 2 ** 31 - 1), ints(1, 50)).map(lambda t: {"ops": t[0], "seed": t[1], "noise": t[2]}),
            160, 2400, lambda c: any(o in ("jml", "mml", "ae", "vae", "gmm", "cv", "sumscore") for o in c["ops"]), shard_min=30)
def seed(case):
    """after seeding, a sequence of random operations (initialisation, sampling, splitting, guessing, imputation, fitting by every algorithm, mixture densities, cross-validation) gives identical results whatever ran before; non-trivial: contains a fit"""
    import random as pyrandom
    import irtorch.estimation_algorithms as ea
    from irtorch.utils import set_seed, split_data, impute_missing, cross_validation
    from irtorch._internal_utils import random_guessing_data
    base = torch.tensor([[0., 1, 2], [1, 0, 1], [1, 1, 0], [0, 0, 2], [1, 1, 1], [0, 1, 0], [1, 0, 2], [0, 0, 1]])

    def run():
        out = []
        for op in case["ops"]:
            m = im.GeneralizedPartialCredit(latent_variables=1, item_categories=[2, 2, 3])
            if op == "init":
                for k in (im.NominalResponse, im.MonotoneNN, im.MonotonePolynomial, im.MonotoneBSpline, im.SurprisalSpline, im.GradedResponse):
                    x = k(latent_variables=1, item_categories=[2, 3]); out += [v.detach().clone() for v in x.state_dict().values()]
            elif op == "sample":
                out.append(m.sample_test_data(torch.linspace(-2, 2, 9).view(-1, 1)))
            elif op == "split":
                out += list(split_data(base, 0.5))
            elif op == "guess":
                out.append(random_guessing_data([3, 4], 20, mc_correct=[0, 1]))
            elif op == "impute":
                out.append(impute_missing(torch.full((6, 2), float("nan")), "random incorrect", mc_correct=[0, 1], item_categories=[4, 4]))
            elif op == "random":
                out.append(torch.tensor([pyrandom.random() for _ in range(3)]))
            elif op == "numpy":
                out.append(torch.tensor(np.random.rand(3)))
            elif op == "torch":
                out.append(torch.randn(3))
            elif op in ("jml", "mml", "ae", "vae"):
                kw = {"max_epochs": 2, "device": "cpu", "learning_rate": 0.05}
                if op == "mml":
                    kw["quadrature_points"] = 16
                else:
                    kw["batch_size"] = 3
                m.fit(base, getattr(ea, op.upper())(), **kw)
                out += [v.detach().clone() for v in m.state_dict().values()]
                out.append(torch.tensor(m.algorithm.training_history["train_loss"], dtype=torch.float64))
            elif op == "gmm":
                m.evaluate.approximate_latent_density(torch.linspace(-2, 2, 40).view(-1, 1) ** 3, "gmm", [2])
                out += [v.detach().clone() for v in m.evaluate.latent_density.state_dict().values()]
            elif op == "cv":
                r = cross_validation(m, base, 2, {"learning_rate": [0.01, 0.1]}, device="cpu", multiprocessing=False, theta_estimation="EAP", algorithm=ea.MML(), max_epochs=1, quadrature_points=16)
                out.append(torch.tensor(r["log_likelihood"].to_numpy(dtype=float)))
            elif op == "sumscore":
                m.fit(base, ea.MML(), max_epochs=1, device="cpu", quadrature_points=16)
                out.append(m.evaluate.sum_score_probabilities())
        return out
    set_seed(case["seed"])
    first = run()
    torch.randn(case["noise"]); np.random.rand(case["noise"]); [pyrandom.random() for _ in range(case["noise"])]
    set_seed(case["seed"])
    second = run()
    true(len(first) == len(second), "results of the two runs")
    for a, b in zip(first, second):
        exact(b, a, "result after seeding again")
