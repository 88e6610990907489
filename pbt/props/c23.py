import itertools, os, tempfile
from types import SimpleNamespace
from .. import core
from ..fitlib import *

prop = Property("C23", [
    "density approximations ('qmvn', 'gmm') are judged given the density: the distribution must be the density-weighted average over the integration grid (training thetas' range widened by one standard deviation)",
    "a Gaussian mixture whose components collapse onto tied thetas has no density to average over",
    "thetas are finite (maximum likelihood can leave the parameter space on tiny populations)",
])


def exact_distribution(p, cats, mc, w):
    """Sum score distribution by enumerating every pattern of item scores."""
    p, w = np.asarray(p, dtype=float), np.asarray(w, dtype=float)
    scored = []
    for j, c in enumerate(cats):
        if mc is None:
            scored.append([p[:, j, k] for k in range(c)])
        else:
            scored.append([sum(p[:, j, k] for k in range(c) if k != mc[j]), p[:, j, mc[j]]])
    out = np.zeros(sum(len(x) - 1 for x in scored) + 1)
    if np.prod([len(x) for x in scored], dtype=float) > 3000:       # too many patterns: item by item
        dist = np.ones((len(w), 1))
        for x in scored:
            new = np.zeros((len(w), dist.shape[1] + len(x) - 1))
            for k, q in enumerate(x):
                new[:, k:k + dist.shape[1]] += dist * q[:, None]
            dist = new
        return w @ dist
    for pat in itertools.product(*[range(len(x)) for x in scored]):
        q = w.copy()
        for j, k in enumerate(pat):
            q = q * scored[j][k]
        out[sum(pat)] += q.sum()
    return out


def judge(m, s, got, th, w, what, tol):
    p = probs_of(m, th).double().numpy()
    cats, mc = cats_of(s), mc_of(s)
    want = exact_distribution(p, cats, mc, w)
    close(got, want, what, rtol=0, atol=tol)
    true(float(got.min()) >= -1e-9, f"{what}: negative probability", got=got)
    close(got.sum(), np.array(1.0), f"{what}: does not sum to one", rtol=0, atol=10 * tol)
    with torch.no_grad():
        E = m.expected_scores(th, return_item_scores=False).double().numpy()
    mean = float((got.detach().double().numpy() * np.arange(len(want))).sum())
    true(abs(mean - float((E * w).sum())) < 20 * tol * len(want), f"{what}: mean is not the population's expected sum score", got=mean, want=float((E * w).sum()))


def equal(n):
    return np.ones(n) / n


@prop.facet("data", crowded(case_st(min_n=1, max_n=5, vmax=20, lo=-30, hi=30)), 1500, 24000, rich, dtype="float64")
def data(case):
    """averages over the training thetas, against enumeration of all response patterns"""
    s = case["m"]
    m, th = build(s), theta_t(case["theta"])
    m.algorithm = SimpleNamespace(training_theta_scores=th.clone())
    dress(m, case)
    got = m.evaluate.sum_score_probabilities("data")
    judge(m, s, got, th, equal(len(th)), "sum score distribution", 1e-7)
    exact(m.algorithm.training_theta_scores, th, "training thetas afterwards")


@prop.facet("order", case_st(["MIX"], min_n=1, max_n=4, vmax=20, lo=-30, hi=30), 400, 6000, lambda c: rich(c) and len(c["m"]["sub"]) > 1, dtype="float64")
def order(case):
    """a mixed model with its components in reverse order has the same distribution"""
    s = case["m"]
    th = theta_t(case["theta"])
    res = []
    for spec in (s, dict(s, sub=s["sub"][::-1])):
        m = build(spec)
        m.algorithm = SimpleNamespace(training_theta_scores=th)
        res.append(m.evaluate.sum_score_probabilities())
    close(res[1], res[0], "distribution after reordering the items", rtol=0, atol=1e-9)


def grid_of(th, n):
    lo, hi, sd = th.min(0).values, th.max(0).values, th.std(0)
    ax = [torch.linspace(float(lo[i] - sd[i]), float(hi[i] + sd[i]), n) for i in range(th.shape[1])]
    return torch.stack(torch.meshgrid(*ax, indexing="ij"), dim=-1).reshape(-1, th.shape[1])


def gmm_pdf(g, x):
    x = x.double().numpy()
    out = np.zeros(len(x))
    for w, mu, cov in zip(g.weights.detach().double().numpy(), g.means.detach().double().numpy(), g.covariances.detach().double().numpy()):
        d = x - mu
        out += w * np.exp(-0.5 * np.einsum("ni,ij,nj->n", d, np.linalg.inv(cov), d)) / np.sqrt(np.linalg.det(2 * np.pi * cov))
    return out


def density_weights(m, method, th, n):
    """Weights of the integration grid: the latent density now held (Gaussian mixture), or one approximated here (quantile normal)."""
    from irtorch.quantile_mv_normal import QuantileMVNormal
    g = grid_of(th, n)
    if method == "gmm":
        w = gmm_pdf(m.evaluate.latent_density, g)
    else:
        d = QuantileMVNormal()
        d.fit(th)
        w = d.pdf(g).double().numpy()
    return g, w / w.sum()


@st.composite
def density_cases(draw):
    s = draw(spec_st(max_L=2, max_items=3, vmax=20))
    n = draw(ints(8, 25))
    return {"m": s, "theta": [[draw(ints(-25, 25)) + (i % 7) for _ in range(s["L"])] for i in range(n)], "segments": draw(ints(3, 25)),
            "method": draw(st.sampled_from(["qmvn", "gmm"])), "k": draw(ints(1, 2)), "seed": draw(ints(0, 99))}


@prop.facet("density", density_cases(), 500, 8000, rich)
def density(case):
    """approximated densities: the distribution is the density-weighted average over the grid; the mixture density is recomputed by the oracle"""
    s = case["m"]
    m, th = build(s), theta_t(case["theta"])
    if float(torch.linalg.matrix_rank(th - th.mean(0), tol=0.3)) < s["L"] or float(th.std(0).min()) < 0.3:
        return
    m.algorithm = SimpleNamespace(training_theta_scores=th.clone())
    dress(m, case)
    torch.manual_seed(case["seed"])
    if case["method"] == "gmm":
        try:
            m.evaluate.approximate_latent_density(th, "gmm", [case["k"]])
        except ValueError as e:     # a mixture component collapsed onto tied thetas
            if "PositiveDefinite" in str(e):
                return
            raise
        dens = m.evaluate.latent_density
        ev = torch.linalg.eigvalsh(dens.covariances.detach())
        if not bool(torch.isfinite(dens.means).all()) or float(ev.min()) < 1e-3:
            return
    try:
        got = m.evaluate.sum_score_probabilities(case["method"], trapezoidal_segments=case["segments"])
    except ValueError as e:     # degenerate covariance of the quantile normal: nothing to integrate
        if "covariance" in str(e) or "positive" in str(e).lower():
            return
        raise
    if case["method"] == "gmm":
        true(m.evaluate.latent_density is dens, "the density approximated by the user is not used")
    g, w = density_weights(m, case["method"], th, case["segments"])
    if not np.isfinite(w).all():
        return
    judge(m, s, got, g, w, f"sum score distribution ({case['method']})", 2e-5)


@st.composite
def history_cases(draw):
    s = draw(spec_st(["2PL", "GRM", "GPC", "NRM", "MIX"], max_L=2, max_items=3, vmax=10, masks=False))
    n = draw(ints(6, 12))
    L = s["L"]
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(["fit", "load"]), ints(0, 9)),
        st.tuples(st.sampled_from(["data", "qmvn"]), st.just(0)),
        st.tuples(st.sampled_from(["data_pop", "qmvn_pop"]), ints(0, 9)),
        st.tuples(st.just("preset"), ints(0, 9)),
        st.tuples(st.just("gmm"), st.just(0)),
    ), min_size=2, max_size=6))
    return {"m": s, "n": n, "rows": draw(fit_data_st(cats_of(s), n, n)), "ops": [list(o) for o in ops]}


@prop.facet("history", history_cases(), 250, 4000, lambda c: sum(o[0] not in ("fit", "load") for o in c["ops"]) > 1 and len(c["rows"]) > 3)
def history(case):
    """sequences of fits, loads of saved models, distributions over training thetas or given populations and user-approximated densities: each distribution describes the latent population of that call, never an earlier one"""
    from irtorch.estimation_algorithms import JML
    s = case["m"]
    m = build(s)
    L, n = s["L"], case["n"]

    def thetas(k):
        g = torch.Generator().manual_seed(k)
        return torch.randn(n, L, generator=g) * (0.5 + 0.1 * k) + 0.2 * (k - 5)
    m.algorithm = SimpleNamespace(training_theta_scores=thetas(3))
    preset = None
    ref_kind = {}
    for op, k in case["ops"]:
        torch.manual_seed(17 + k)
        if op == "fit":
            m.fit(data_t(case["rows"]), JML(), max_epochs=1, learning_rate=0.01, start_thetas=thetas(k), device="cpu", batch_size=n)
            preset = None
            if not bool(torch.isfinite(m.algorithm.training_theta_scores).all()):
                return
            continue
        if op == "load":
            other = build(s)
            other.algorithm = SimpleNamespace(training_theta_scores=thetas(k))
            with tempfile.TemporaryDirectory() as d:
                other.save_model(os.path.join(d, "m.pt"))
                m.load_model(os.path.join(d, "m.pt"))
            preset = None
            continue
        train = m.algorithm.training_theta_scores.detach().clone()
        if op == "preset":
            m.evaluate.approximate_latent_density(train, "gmm", [1])
            preset = "gmm"
            continue
        if op == "gmm":
            if preset != "gmm":
                continue
            got = m.evaluate.sum_score_probabilities("gmm", trapezoidal_segments=9)
            d = train - train.mean(0)
            cov = (d.T @ d / len(d)).double().numpy()
            g = grid_of(train, 9)
            dd = (g - train.mean(0)).double().numpy()
            w = np.exp(-0.5 * np.einsum("ni,ij,nj->n", dd, np.linalg.inv(cov), dd))
            judge(m, s, got, g, w / w.sum(), "gmm distribution", 5e-5)
            continue
        pop, used = None, train
        if op.endswith("_pop"):
            used = thetas(k)
            pop = torch.full((n, len(cats_of(s))), float(k % 2))
            seen = []
            real = m.latent_scores

            def fake(data, *a, **kw):
                seen.append((data, kw)); return used.clone()
            m.latent_scores = fake
        try:
            got = m.evaluate.sum_score_probabilities(op.split("_")[0], population_data=pop, trapezoidal_segments=9)
        finally:
            if pop is not None:
                m.latent_scores = real
        if pop is not None:
            true(len(seen) == 1, "the population is scored once", got=len(seen))
            exact(seen[0][0], pop, "scored population data")
            true(seen[0][1].get("rescale") is False, "population thetas must be on the model's own scale")
        if op.startswith("data"):
            judge(m, s, got, used, equal(len(used)), f"{op} distribution", 2e-5)
            continue
        g, w = density_weights(m, "qmvn", used, 9)
        if np.isfinite(w).all():
            judge(m, s, got, g, w, f"{op} distribution", 5e-5)
        if pop is None:
            preset = "qmvn"


@st.composite
def pop_cases(draw):
    s = draw(spec_st(["2PL", "GRM", "GPC", "NRM"], max_L=2, max_items=3, vmax=10, masks=False))
    return {"m": s, "rows": draw(fit_data_st(cats_of(s), 6, 9)), "pop": draw(fit_data_st(cats_of(s), 2, 6)),
            "alg": draw(st.sampled_from(["JML", "MML", "AE", "VAE"])), "seed": draw(ints(0, 99)), "n": draw(ints(1, 30)), "use_pop": draw(st.booleans()),
            "cov": draw(st.lists(ints(-9, 9), min_size=s["L"] ** 2, max_size=s["L"] ** 2))}


@prop.facet("population", pop_cases(), 120, 1600, lambda c: rich({"m": c["m"]}), shard_min=25)
def population(case):
    """every algorithm, briefly fitted: training thetas, population data (scored by the model itself, missing responses included) and encoder samples; recorded thetas are averaged by enumeration"""
    import irtorch.estimation_algorithms as ea
    s = case["m"]
    m = build(s)
    data, alg = data_t(case["rows"]), getattr(ea, case["alg"])()
    torch.manual_seed(case["seed"])
    if case["alg"] == "MML":
        root = 0.4 * torch.eye(s["L"]) + torch.tensor(case["cov"], dtype=torch.float32).view(s["L"], s["L"]) / 10
        cov = root @ root.T + 0.05 * torch.eye(s["L"])
        m.fit(data, alg, max_epochs=1, quadrature_points=16, device="cpu", learning_rate=0.01, covariance_matrix=cov)
    elif case["alg"] == "JML":
        m.fit(data, alg, max_epochs=1, device="cpu", learning_rate=0.01, batch_size=len(data))
    else:
        m.fit(data, alg, max_epochs=1, device="cpu", learning_rate=0.01, batch_size=len(data), one_hot_encoded=True, hidden_layers_encoder=[4])
    rec = {"scores": [], "samples": []}
    real = m.latent_scores

    def scores(*a, **k):
        t = real(*a, **k)
        rec["scores"].append((a, k, t)); return t
    m.latent_scores = scores
    pop = data_t(case["pop"], "mixed")
    if case["n"] % 4 == 0:
        pop = pop.repeat(1 + 70 // len(pop), 1)
    train = m.algorithm.training_theta_scores
    if case["use_pop"]:
        got = m.evaluate.sum_score_probabilities("data", population_data=pop)
        true(len(rec["scores"]) == 1, "population scored once")
        th = rec["scores"][0][2]
        true(tuple(th.shape) == (len(pop), s["L"]), "thetas of the population", got=tuple(th.shape))
    elif train is not None:
        got, th = m.evaluate.sum_score_probabilities("data"), train
    else:       # marginal likelihood: a sample of the normal population
        got = m.evaluate.sum_score_probabilities("data").double()
        true(torch.isfinite(got).all() and abs(float(got.sum()) - 1) < 1e-4, "distribution over the sampled population", got=got)
        g = torch.Generator().manual_seed(5)
        th = torch.randn(4000, s["L"], generator=g) @ torch.linalg.cholesky(cov).T
        want = exact_distribution(probs_of(m, th).double().numpy(), cats_of(s), mc_of(s), equal(4000))
        close(got, want, "distribution over the normal population", rtol=0, atol=0.06)
        return
    if not bool(torch.isfinite(th).all()):
        return
    judge(m, s, got, th.detach(), equal(len(th)), f"distribution for {case['alg']}", 2e-5)
    if case["alg"] == "VAE":
        real_s = alg.sample_latent_variables

        def sample(*a, **k):
            t = real_s(*a, **k)
            rec["samples"].append(t.clone()); return t
        alg.sample_latent_variables = sample
        torch.manual_seed(case["seed"])
        got = m.evaluate.sum_score_probabilities("encoder sampling", population_data=pop if case["use_pop"] else None, sample_size=case["n"])
        true(len(rec["samples"]) == 1 and len(rec["samples"][0]) == case["n"], "number of encoder samples", got=[len(x) for x in rec["samples"]])
        judge(m, s, got, rec["samples"][0], equal(case["n"]), "distribution over encoder samples", 2e-5)
        # with (almost) no posterior variance every sample is the encoder mean of a row of the population asked for
        alg.encoder = Certain(alg.encoder)
        rows = real(pop if case["use_pop"] else data, theta_estimation="NN", rescale=False)
        m.evaluate.sum_score_probabilities("encoder sampling", population_data=pop if case["use_pop"] else None, sample_size=case["n"])
        far = (rec["samples"][-1].unsqueeze(1) - rows.unsqueeze(0)).abs().amax(dim=2).amin(dim=1)
        true(float(far.max()) < 1e-4, "encoder samples do not come from the population asked for", far=far)


class Certain(torch.nn.Module):
    """The encoder with its posterior variances shrunk to nothing."""

    def __init__(self, encoder):
        super().__init__()
        self.encoder = encoder

    def forward(self, x):
        mean, logvar = self.encoder(x)
        return mean, torch.full_like(logvar, -60.0)


@st.composite
def modes_cases(draw):
    L = draw(ints(1, 2))
    return {"L": L, "gap": draw(ints(30, 60)), "n": draw(ints(20, 45)), "cands": draw(st.sampled_from([[1, 2], [2, 1], [1, 2, 3], [3, 1], None])),
            "seed": draw(ints(0, 9999)), "dir": [draw(ints(1, 3)) * draw(st.sampled_from([-1, 1])) for _ in range(L)], "m": draw(spec_st(["2PL", "GRM", "GPC"], L=L, max_items=3, vmax=15))}


@prop.facet("components", modes_cases(), 60, 800, lambda c: c["cands"] is None or len(c["cands"]) > 1, shard_min=15)
def components(case):
    """Gaussian mixture density of clearly two-peaked thetas with several candidate numbers of components: a candidate with at least two components is chosen (a single normal has far lower held-out likelihood), and the final mixture is fitted to all thetas (their mean is its mean)"""
    g = torch.Generator().manual_seed(case["seed"])
    n, L = case["n"], case["L"]
    d = torch.tensor(case["dir"], dtype=torch.float32)
    d = d / d.norm()
    sign = torch.tensor([1.0 if i % 2 else -1.0 for i in range(2 * n)])[:, None]
    th = sign * d * case["gap"] / 20 + 0.3 * torch.randn(2 * n, L, generator=g)
    m = build(case["m"])
    m.algorithm = SimpleNamespace(training_theta_scores=th.clone())
    keep = th.clone()
    torch.manual_seed(case["seed"])
    try:
        if case["cands"] is None:
            m.evaluate.approximate_latent_density(th, "gmm")
        else:
            m.evaluate.approximate_latent_density(th, "gmm", list(case["cands"]))
    except ValueError as e:
        if "Expected parameter" in str(e):     # a component without respondents, or collapsed onto one
            return
        raise
    exact(th, keep, "thetas after approximating their density")
    dens = m.evaluate.latent_density
    k = len(dens.weights)
    true(k in (case["cands"] or [2, 3, 4, 5, 10]), "number of components is not a candidate", got=k)
    true(k > 1, "a single normal chosen for two clearly separated peaks", got=k)
    w = dens.weights.detach().double()
    true(bool((w >= 0).all()) and abs(float(w.sum()) - 1) < 1e-4, "weights of the chosen mixture", got=w.tolist())
    mean = (w[:, None] * dens.means.detach().double()).sum(0)
    if bool(torch.isfinite(mean).all()):       # one EM step already matches the mean of the data it was fitted to: all respondents
        close(mean, th.double().mean(0), "mean of the chosen mixture vs mean of all thetas", rtol=0, atol=1e-3)



@st.composite
def single_cases(draw):
    L = draw(ints(1, 2))
    k = draw(ints(2, 5))
    return {"L": L, "n": draw(ints(25, 60)), "cands": draw(st.sampled_from([[1, k], [k, 1]])), "seed": draw(ints(0, 9999)), "m": draw(spec_st(["2PL", "GRM", "GPC"], L=L, max_items=3, vmax=15))}


def held_out(th, k, seed):
    """Average held-out log-likelihood over five consecutive parts of the sample."""
    from irtorch.torch_modules import GaussianMixtureModel
    torch.manual_seed(seed)
    parts, got = th.chunk(5), []
    for i, part in enumerate(parts):
        g = GaussianMixtureModel(n_components=k, n_features=th.shape[1])
        with torch.no_grad():
            g.fit(torch.cat([x for j, x in enumerate(parts) if j != i], dim=0))
            got.append(float(g(part)))
    return sum(got) / len(got)


@prop.facet("single_normal", single_cases(), 30, 400, lambda c: max(c["cands"]) > 2, shard_min=8)
def single_normal(case):
    """thetas from one normal where several components predict left-out respondents clearly worse, whichever of eight starts they are fitted from: one component is chosen, wherever it stands among the candidates (judged over four attempts)"""
    g = torch.Generator().manual_seed(case["seed"])
    th = torch.randn(case["n"], case["L"], generator=g)
    k = max(case["cands"])
    try:
        alone, others = held_out(th, 1, 0), [held_out(th, k, s) for s in range(8)]
    except ValueError:      # a component collapsed
        return
    if not (np.isfinite(others).all() and alone > max(others) + 0.7):
        return
    m = build(case["m"])
    m.algorithm = SimpleNamespace(training_theta_scores=th.clone())
    chosen = []
    for a in range(4):
        torch.manual_seed(case["seed"] + a)
        try:
            m.evaluate.approximate_latent_density(th, "gmm", list(case["cands"]))
        except ValueError as e:
            if "Expected parameter" in str(e):
                return
            raise
        chosen.append(len(m.evaluate.latent_density.weights))
        if chosen[-1] == 1:
            return
    fail(f"{k} components chosen where one predicts left-out respondents better", chosen=chosen, one=alone, several=others)
