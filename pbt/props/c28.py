from ..gen import *
from irtorch import rescale as RS, estimation_algorithms as EA
from irtorch.outlier_detector import OutlierDetector
from irtorch.irt_dataset import PytorchIRTDataset
from irtorch.utils import impute_missing, cross_validation
from irtorch import _internal_utils as IU
import irtorch.torch_modules as tm

prop = Property("C28", ["any exception counts as a rejection; only documented limits are judged",
                        "every invalid call is one step away from a valid call that is made first and must be accepted"])

# A rule gets a deck of drawn integers and returns [(valid call, invalid call), ...].
# The valid call is made first: it must not raise (else the limit is too tight), the invalid one must.


class Deck:
    def __init__(self, ints):
        self.v, self.i = ints, 0

    def int(self, lo, hi):
        x = self.v[self.i % len(self.v)]
        self.i += 1
        return lo + x % (hi - lo + 1)

    def bool(self):
        return bool(self.int(0, 1))

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def some(self, seq, most=3):
        """Several of the variants, another few in every case."""
        start = self.int(0, len(seq) - 1)
        for i in range(min(most, len(seq))):
            yield seq[(start + i) % len(seq)]


RULES = {"models": {}, "estimation": {}, "scales": {}, "scoring": {}, "utilities": {}, "plots": {}}


def rule(group):
    def deco(fn):
        RULES[group][fn.__name__] = fn
        return fn
    return deco


def sizes(d, max_cats=4):
    n, L = d.int(1, 4), d.int(1, 3)
    return n, L, [d.int(2, max_cats) for _ in range(n)]


def mask_of(d, n, L):
    m = torch.tensor([[d.bool() for _ in range(L)] for _ in range(n)]).view(n, L)
    for i in range(n):
        if not m[i].any():
            m[i, d.int(0, L - 1)] = True
    return m


def make(kind, n, L, cats, **kw):
    """a constructor call, with the sizes left out when n is None"""
    size = {} if n is None else ({"items": n} if kind in LOGISTIC else {"item_categories": list(cats)})
    if kind == "1PL":
        return im.OneParameterLogistic(**size, **kw)
    if kind == "NEST":
        m = len(cats)
        kw = {"mc_correct": [0] * m, "correct_response_model": im.TwoParameterLogistic(latent_variables=L, items=m), **kw}
    cls = {"2PL": im.TwoParameterLogistic, "3PL": im.ThreeParameterLogistic, "GRM": im.GradedResponse, "GPC": im.GeneralizedPartialCredit, "NRM": im.NominalResponse,
           "MNN": im.MonotoneNN, "MPOLY": im.MonotonePolynomial, "MBS": im.MonotoneBSpline, "SURP": im.SurprisalSpline, "NEST": im.NestedLogit}[kind]
    return cls(latent_variables=L, **size, **kw)


def small(d, L=None, n=None, kinds=("2PL", "GRM", "NRM")):
    L = L or d.int(1, 2)
    n = n or d.int(2, 3)
    return make(d.pick(kinds), n, L, [3] * n)


def answers(m, N=6):
    g = torch.Generator().manual_seed(3)
    x = torch.stack([torch.randint(0, c, (N,), generator=g) for c in m.item_categories], dim=1).float()
    x[0] = 0.
    x[1] = torch.tensor(m.item_categories).float() - 1
    return x


# ------------------------------------------------------------------ models
@rule("models")
def no_size_information(d):
    k = d.pick(BASIC + ["NEST"])
    n, L, cats = sizes(d)
    if k == "1PL":
        L = 1
    yield lambda: make(k, n, L, cats), lambda: make(k, None, L, cats), k


@rule("models")
def mask_shape(d):
    k = d.pick(MASKABLE)
    n, L, cats = sizes(d)
    m = mask_of(d, n, L)
    grown = torch.cat((m, m[:1])) if d.bool() else torch.cat((m, m[:, :1]), dim=1)
    for wrong in d.some([grown] + ([m[:, :-1]] if L > 1 else []) + ([m[:-1]] if n > 1 else []) + ([torch.ones(L, n, dtype=torch.bool)] if n != L else []) + [m.unsqueeze(0)]):
        yield lambda: make(k, n, L, cats, item_theta_relationships=m), lambda: make(k, n, L, cats, item_theta_relationships=wrong), f"{k} {tuple(wrong.shape)} for {(n, L)}"


@rule("models")
def mask_type(d):
    k = d.pick([x for x in MASKABLE if x != "NEST"])
    n, L, cats = sizes(d)
    m = mask_of(d, n, L)
    t = d.pick([torch.float32, torch.int64, torch.int32, torch.uint8])
    yield lambda: make(k, n, L, cats, item_theta_relationships=m), lambda: make(k, n, L, cats, item_theta_relationships=m.to(t)), f"{k} {t}"


@rule("models")
def item_without_latent_variable(d):
    k = d.pick(MASKABLE)
    n, L, cats = sizes(d)
    m = mask_of(d, n, L)
    w = m.clone()
    w[d.int(0, n - 1)] = False
    yield lambda: make(k, n, L, cats, item_theta_relationships=m), lambda: make(k, n, L, cats, item_theta_relationships=w), k


@rule("models")
def correct_option_outside(d):
    k = d.pick(["NRM", "MNN", "NEST"])
    n, L, cats = sizes(d)
    i = d.int(0, n - 1)
    mc = [d.int(0, c - 1) for c in cats]
    edge = list(mc)
    edge[i] = d.pick([0, cats[i] - 1])
    w = list(mc)
    w[i] = d.pick([cats[i], -1, cats[i] + d.int(0, 3), max(cats)])
    if w[i] == max(cats) and w[i] < cats[i]:
        w[i] = cats[i]
    yield lambda: make(k, n, L, cats, mc_correct=edge), lambda: make(k, n, L, cats, mc_correct=w), f"{k} {w} for {cats}"


@rule("models")
def correct_option_for_every_item(d):
    k = d.pick(["NRM", "MNN", "NEST"])
    n, L, cats = sizes(d)
    mc = [d.int(0, c - 1) for c in cats]
    w = mc + [0] if d.bool() or n == 1 else mc[:-1]
    yield lambda: make(k, n, L, cats, mc_correct=mc), lambda: make(k, n, L, cats, mc_correct=w), f"{k} {len(w)} correct options for {n} items"


@rule("models")
def even_degree(d):
    n, L, cats = sizes(d)
    k = d.int(0, 2)
    neg = d.bool()
    sep = d.pick(["items", "categories"])
    mk = lambda deg: make("MPOLY", n, L, cats, degree=deg, negative_latent_variable_item_relationships=neg, separate=sep)
    yield lambda: mk(2 * k + 1), lambda: mk(2 * k + 2), f"degree {2 * k + 2}"
    yield lambda: tm.MonotonePolynomialModule(degree=2 * k + 1, in_features=L, out_features=n), lambda: tm.MonotonePolynomialModule(degree=2 * k + 2, in_features=L, out_features=n), "module"


@rule("models")
def hidden_sizes(d):
    n, L, cats = sizes(d)
    b, sep = d.bool(), d.pick(["items", "categories"])
    unit = 3 if b else 2
    h = [unit * d.int(1, 3) for _ in range(d.int(1, 3))]
    w = list(h)
    w[d.int(0, len(h) - 1)] += d.int(1, unit - 1)
    mk = lambda x: make("MNN", n, L, cats, hidden_dim=x, use_bounded_activation=b, separate=sep)
    yield lambda: mk(h), lambda: mk(w), f"{w} bounded={b}"


@rule("models")
def separate_name(d):
    k = d.pick(["MNN", "MPOLY"])
    n, L, cats = sizes(d)
    for w in d.some(["none", "item", "category", "Items", "", "latent_variables"]):
        yield lambda: make(k, n, L, cats, separate=d.pick(["items", "categories"])), lambda: make(k, n, L, cats, separate=w), f"{k} {w!r}"


@rule("models")
def mixed_dimensions(d):
    L = d.int(1, 3)
    subs = [small(d, L, kinds=("2PL", "GRM", "GPC", "NRM", "SURP")) for _ in range(d.int(1, 3))]
    other = small(d, L % 3 + 1)
    where = d.int(0, len(subs))
    yield lambda: im.ModelMix(list(subs)), lambda: im.ModelMix(subs[:where] + [other] + subs[where:]), f"{len(subs)} with {L}, one with {L % 3 + 1}"


@rule("models")
def incorrect_model_name(d):
    n, L, cats = sizes(d)
    for w in d.some(["nom", "spline", "NOMINAL", "", "b-spline", None]):
        yield lambda: make("NEST", n, L, cats, incorrect_response_model=d.pick(["nominal", "bspline"])), lambda: make("NEST", n, L, cats, incorrect_response_model=w), repr(w)


@rule("models")
def irt_format_dimensions(d):
    k = d.pick(["2PL", "3PL"])
    n, L = d.int(1, 4), d.int(2, 3)
    yield lambda: make(k, n, 1, None).item_parameters(irt_format=True), lambda: make(k, n, L, None).item_parameters(irt_format=True), k
    yield lambda: make(k, n, L, None).item_parameters(irt_format=False), lambda: make(k, n, L, None).item_parameters(irt_format=True), k


@rule("models")
def nominal_directions_without_theta(d):
    n, L, cats = sizes(d)
    m = make("NRM", n, L, cats)
    yield lambda: m.item_theta_relationship_directions(torch.randn(12, L)), lambda: m.item_theta_relationship_directions(), "NRM"


@rule("models")
def loss_reduction_name(d):
    k = d.pick(["GRM", "NEST", "3PL", "SURP", "2PL", "NRM", "MNN"])
    n, L, cats = sizes(d)
    m = make(k, n, L, cats)
    x, out = torch.zeros(2, n), m(torch.zeros(2, L))
    for w in d.some(["", "average", "SUM", "total"]):
        yield lambda: m.log_likelihood(x, out, loss_reduction=d.pick(["sum", "none"])), lambda: m.log_likelihood(x, out, loss_reduction=w), f"{k} {w!r}"


# ------------------------------------------------------------------ estimation
@rule("estimation")
def mml_covariance(d):
    m = small(d, d.int(1, 3))
    L, x = m.latent_variables, answers(m)
    for w in d.some([torch.eye(L + 1), torch.eye(L + 1)[:L], torch.eye(L + 1)[:, :L]] + ([torch.eye(L - 1)] if L > 1 else [])):
        meth = d.pick(["quasi_mc", "gauss_hermite"])
        f = lambda cov: m.fit(x, EA.MML(), max_epochs=1, covariance_matrix=cov, integration_method=meth, quadrature_points=3, device="cpu")
        yield lambda: f(torch.eye(L)), lambda: f(w), f"{tuple(w.shape)} with {L} latent variables, {meth}"


@rule("estimation")
def mml_dimensions(d):
    m = small(d, 4)
    x = answers(m)
    f = lambda **k: m.fit(x, EA.MML(), max_epochs=1, device="cpu", **k)
    yield lambda: f(quadrature_points=2), lambda: f(), "4 latent variables without quadrature points"


@rule("estimation")
def mml_method(d):
    m = small(d)
    x = answers(m)
    for w in d.some(["", "mc", "gauss-hermite", "QUASI_MC", None]):
        f = lambda v: m.fit(x, EA.MML(), max_epochs=1, integration_method=v, device="cpu")
        yield lambda: f(d.pick(["quasi_mc", "gauss_hermite"])), lambda: f(w), repr(w)


@rule("estimation")
def jml_start(d):
    m = small(d)
    L, x = m.latent_variables, answers(m)
    good = torch.randn(len(x), L)
    for w in d.some([good[:-1], torch.cat((good, good[:1])), torch.cat((good, good[:, :1]), dim=1), good[:1]] + ([good[:, :1]] if L > 1 else [])):
        f = lambda s: m.fit(x, EA.JML(), max_epochs=1, start_thetas=s, device="cpu")
        yield lambda: f(good), lambda: f(w), f"{tuple(w.shape)} for {tuple(good.shape)}"


@rule("estimation")
def autoencoder_imputation(d):
    m = small(d)
    x = answers(m)
    A = d.pick([EA.AE, EA.VAE])
    f = lambda one_hot, imp: m.fit(x, A(), max_epochs=1, batch_size=4, one_hot_encoded=one_hot, imputation_method=imp, hidden_layers_encoder=[4], device="cpu")
    yield lambda: f(*d.pick([(True, None), (False, "zero"), (False, "mean")])), lambda: f(False, None), A.__name__
    yield lambda: f(False, "zero"), lambda: f(False, d.pick(["median", "", "foo"])), f"{A.__name__} unknown imputation"


# ------------------------------------------------------------------ scoring and evaluation
@rule("scoring")
def estimation_name(d):
    m = small(d)
    x = answers(m, 2)
    for w in d.some(["ml", "WLE", "", "map", "Eap", "MLE"]):
        yield lambda: m.latent_scores(x, theta_estimation=d.pick(["ML", "MAP", "EAP"]), device="cpu"), lambda: m.latent_scores(x, theta_estimation=w, device="cpu"), repr(w)


@rule("scoring")
def standard_error_method(d):
    m = small(d)
    x = torch.tensor([[0., 1.] + [1.] * (m.items - 2)])
    for w in d.some(["EAP", "MAP"]):
        yield lambda: m.latent_scores(x, standard_errors=True, theta_estimation="ML", device="cpu"), lambda: m.latent_scores(x, standard_errors=True, theta_estimation=w, device="cpu"), w


@rule("scoring")
def encoder_needed(d):
    m = small(d)
    x = answers(m)
    if d.bool():
        m.fit(x, d.pick([EA.MML, EA.JML])(), max_epochs=1, device="cpu")
    a = make("2PL", 2, 1, None)
    y = answers(a)
    a.fit(y, d.pick([EA.AE, EA.VAE])(), max_epochs=1, hidden_layers_encoder=[4], device="cpu")
    se = d.bool()
    yield lambda: a.latent_scores(y, theta_estimation="NN", device="cpu"), lambda: m.latent_scores(x, theta_estimation="NN", standard_errors=se, device="cpu"), f"NN after {type(m.algorithm).__name__}"


@rule("scoring")
def eap_dimensions(d):
    n = d.int(1, 3)
    x = torch.zeros(1, n)
    f = lambda L: make("2PL", n, L, None).latent_scores(x, theta_estimation="EAP", eap_theta_integration_points=2, device="cpu")
    over = d.int(5, 7)
    yield lambda: f(d.int(1, 4)), lambda: f(over), f"EAP with {over} latent variables"
    yield lambda: f(4), lambda: f(5), "EAP with 5 latent variables"


@rule("scoring")
def information_degrees(d):
    L = d.int(1, 3)
    m = small(d, L)
    theta = torch.zeros(1, L)
    deg = [d.int(0, 90) for _ in range(L)]
    for w in d.some([deg + [0], deg[:-1], []]):
        yield lambda: m.information(theta, degrees=deg), lambda: m.information(theta, degrees=w), f"{len(w)} degrees for {L}"


@rule("scoring")
def density_method(d):
    m = small(d)
    x = answers(m, 8)
    m.fit(x, EA.MML(), max_epochs=1, device="cpu")
    pop = torch.randn(8, m.latent_variables)
    f = lambda v: m.evaluate.sum_score_probabilities(latent_density_method=v, population_data=x)
    for w in d.some(["encoder sampling", "", "normal", "GMM", "DATA"]):
        yield lambda: f("data"), lambda: f(w), repr(w)


@rule("scoring")
def latent_density(d):
    m = small(d)
    theta = torch.randn(30, m.latent_variables)
    for w in d.some(["", "normal", "QMVN", "mvn"]):
        yield lambda: m.evaluate.approximate_latent_density(theta, approximation="qmvn"), lambda: m.evaluate.approximate_latent_density(theta, approximation=w), repr(w)


@rule("scoring")
def infit_level(d):
    m = small(d)
    x, theta = answers(m), torch.randn(6, m.latent_variables)
    for w in d.some(["", "all", "items", "respondents"]):
        yield lambda: m.evaluate.infit_outfit(x, theta, level=d.pick(["item", "respondent"])), lambda: m.evaluate.infit_outfit(x, theta, level=w), repr(w)


# ------------------------------------------------------------------ scales
@rule("scales")
def rotation(d):
    L = d.int(2, 3)
    m = small(d, L)
    big = torch.eye(4)
    for w in d.some([big[:L + 1, :L + 1], big[:L - 1, :L - 1], big[:L, :L + 1], big[:L + 1, :L], big[:L, :L - 1]]):
        yield lambda: RS.Rotate(m, rotation_matrix=torch.eye(L)), lambda: RS.Rotate(m, rotation_matrix=w), f"{tuple(w.shape)} for {L}"
        load = torch.tensor([[d.int(1, 9) / 5 for _ in range(L)] for _ in range(4)])
        yield lambda: RS.Rotate(m, loadings=load + torch.eye(4)[:, :L], rotation_method="varimax"), lambda: RS.Rotate(m), "nothing to rotate by"


@rule("scales")
def linking(d):
    a, b = small(d, 1, 3), small(d, 1, 3)
    a2 = small(d, 2, 3)
    b2 = small(d, 2, 3)
    idx = [0, 1, 2][:d.int(1, 3)]
    f = lambda f_=a, t_=b, i=idx, j=idx, meth=d.pick(["spline", "neuralnet"]): RS.LinkCommonItems(f_, t_, i, j, method=meth)
    bad = [("one model with two latent variables", lambda: f(t_=b2)), ("the other model with two latent variables", lambda: f(f_=a2)), ("two latent variables", lambda: f(f_=a2, t_=b2)),
           ("no item indices", lambda: f(i=None)), ("no item indices", lambda: f(j=None)), ("more items on one side", lambda: f(i=idx + [2])), ("more items on the other side", lambda: f(j=idx + [0])),
           ("no common items", lambda: f(i=[], j=[])), ("unknown method", lambda: f(meth=d.pick(["", "linear", "Spline"])))]
    for what, call in bad:
        yield (lambda: f()), call, what


@rule("scales")
def rank_distributions(d):
    L = d.int(2, 4)
    theta = torch.randn(5, L)
    D = [torch.distributions.Normal(float(i), 1.) for i in range(6)]
    for k in d.some([x for x in (0, 2, 3, 4, 5) if x != L]):
        yield lambda: RS.RankCDF(theta, D[:d.pick([1, L])]), lambda: RS.RankCDF(theta, D[:k]), f"{k} distributions for {L}"
        s = RS.RankCDF(theta)
        yield lambda: s.transform(theta), lambda: s.inverse(theta), "inverse of ranks"
        yield lambda: s.transform(theta), lambda: s.jacobian(theta), "gradients of ranks"


@rule("scales")
def unfitted_flow(d):
    L = d.int(1, 3)
    theta = torch.randn(12, L)
    ok = RS.Flow(L)
    ok.fit(theta, max_epochs=1, batch_size=12, num_bins=4, device="cpu")
    f = RS.Flow(L)
    for what in ("transform", "inverse", "jacobian"):
        yield lambda: getattr(ok, what)(theta), lambda: getattr(f, what)(theta), what
    for wrong in d.some([x for x in (2, 3, 4, 5) if x != L]):
        dist = lambda k: torch.distributions.Normal(torch.zeros(k), torch.ones(k))
        yield lambda: RS.Flow(L).fit(theta, distribution=dist(d.pick([1, L])), max_epochs=1, num_bins=4, device="cpu"), lambda: RS.Flow(L).fit(theta, distribution=dist(wrong), max_epochs=1, num_bins=4, device="cpu"), f"distribution over {wrong} for {L}"


@rule("scales")
def bit_arguments(d):
    L = d.int(1, 3)
    n = d.int(2, 4)
    m = make(d.pick(["NRM", "MNN"]), n, L, [3] * n)
    g = d.pick([0, -1, -100])
    yield lambda: RS.Bit(m, grid_points=d.pick([1, 20])), lambda: RS.Bit(m, grid_points=g), f"grid_points={g}"
    for w in d.some([(0, 1), [0.0, 1.0], "01", torch.tensor([0]), [0, 1.5]]):
        yield lambda: RS.Bit(m, items=[0, n - 1]), lambda: RS.Bit(m, items=w), f"items={w}"
        k = d.pick([x for x in (1, 2, 3, 4) if x != L])
        yield lambda: RS.Bit(m, start_theta=torch.zeros(L)), lambda: RS.Bit(m, start_theta=torch.zeros(k)), f"start of size {k} for {L}"
        b = RS.Bit(m, grid_points=20)
        yield lambda: b.set_start_theta(torch.zeros(L)), lambda: b.set_start_theta(torch.zeros(k)), f"start of size {k} for {L}"
        yield lambda: RS.Bit(m), lambda: RS.Bit(m, mc_start_theta_approx=True), "guessing approximation without correct options"
        yield lambda: b.transform(torch.zeros(1, L)), lambda: b.inverse(torch.zeros(1, L)), "inverse"
        if L > 1:
            yield lambda: b.transform(torch.zeros(1, L)), lambda: b.jacobian(torch.zeros(1, L)), "multidimensional gradients"


@rule("scales")
def bit_guessing(d):
    n = d.int(2, 3)
    m = make(d.pick(["NRM", "MNN"]), n, 1, [3] * n, mc_correct=[d.int(0, 2) for _ in range(n)])
    f = lambda p: RS.Bit(m, grid_points=20, mc_start_theta_approx=True, guessing_probabilities=p, guessing_iterations=5, theta_estimation="EAP", ml_map_device="cpu")
    ok = [d.int(1, 9) / 10 for _ in range(n)]
    i = d.int(0, n - 1)
    for w in d.some([ok + [0.5], ok[:-1], ok[:i] + [1.0] + ok[i + 1:], ok[:i] + [-0.1] + ok[i + 1:], ok[:i] + [1.5] + ok[i + 1:]]):
        yield lambda: f(ok), lambda: f(w), f"{w} for {n} items"


# ------------------------------------------------------------------ utilities
@rule("utilities")
def outliers(d):
    x = torch.randn(d.int(2, 6), d.int(1, 3))
    o = OutlierDetector(factor=d.pick([1, 1.0, 1.5, 4]))
    for w in d.some([0.99, 0.5, 0, -1]):
        yield lambda: OutlierDetector(factor=1), lambda: OutlierDetector(factor=w), f"factor {w}"
        yield lambda: setattr(o, "factor", 2), lambda: setattr(o, "factor", w), f"factor set to {w}"
        wrong = d.pick([x[:, 0], x.unsqueeze(0)])
        yield lambda: o.identify_outliers(x), lambda: o.identify_outliers(wrong), f"{wrong.dim()} dimensions"
        yield lambda: o.is_outlier(x, x), lambda: o.is_outlier(wrong, x), f"{wrong.dim()} dimensions"
        yield lambda: o.is_outlier(x, x), lambda: o.is_outlier(x, wrong), f"{wrong.dim()} dimensions"
        yield lambda: o.smallest_largest_non_outlier(x), lambda: o.smallest_largest_non_outlier(wrong), f"{wrong.dim()} dimensions"
        more = torch.cat((x, x[:, :1]), dim=1)
        yield lambda: o.is_outlier(x, x), lambda: o.is_outlier(more, x), "other number of columns"
        yield lambda: o.is_outlier(x, x), lambda: o.is_outlier(x, more), "other number of columns"
        u = d.bool()
        yield lambda: o.identify_outliers(x, upper=u, lower=not u), lambda: o.identify_outliers(x, upper=False, lower=False), "no side"
        yield lambda: o.is_outlier(x, x, upper=u, lower=not u), lambda: o.is_outlier(x, x, upper=False, lower=False), "no side"


@rule("utilities")
def mixture_density(d):
    F = d.int(1, 3)
    for w in d.some([0, -1]):
        yield lambda: tm.GaussianMixtureModel(1, F), lambda: tm.GaussianMixtureModel(w, F), f"{w} components"
        yield lambda: tm.GaussianMixtureModel(2, 1), lambda: tm.GaussianMixtureModel(2, w), f"{w} features"
        g = tm.GaussianMixtureModel(1, F)
        x = torch.randn(9, F)
        yield lambda: g.fit(x, iterations=1), lambda: g.fit(x[:0], iterations=1), "no data"
        yield lambda: g.fit(x, iterations=1), lambda: g.fit(torch.randn(9, F + 1), iterations=1), "one feature too many"
        if F > 1:
            yield lambda: g.fit(x, iterations=1), lambda: g.fit(x[:, :-1], iterations=1), "one feature too few"


@rule("utilities")
def imputation(d):
    n = d.int(2, 4)
    mcm = make(d.pick(["NRM", "NEST"]), n, 1, [3] * n, mc_correct=[d.int(0, 2) for _ in range(n)])
    plain = make(d.pick(["GRM", "NRM"]), n, 1, [3] * n)
    x = answers(plain)
    x[d.int(2, 5), d.int(0, n - 1)] = float("nan")
    x[3, 0] = d.pick([-1.0, float("nan")])
    for w in d.some(["median", "", "Zero", "random"]):
        yield lambda: impute_missing(x, method=d.pick(["zero", "mean"])), lambda: impute_missing(x, method=w), repr(w)
        yield lambda: impute_missing(x, method="random incorrect", model=mcm), lambda: impute_missing(x, method="random incorrect", model=plain), "model without correct options"
        yield lambda: impute_missing(x, method="random incorrect", mc_correct=[1] * n, item_categories=[3] * n), lambda: impute_missing(x, method="random incorrect"), "no correct options"
        yield lambda: impute_missing(x, method="prior expected", model=plain), lambda: impute_missing(x, method="prior expected"), "no model"
        yield lambda: impute_missing(x, method="prior expected", model=plain), lambda: impute_missing(x, method="prior expected", model=mcm), "multiple choice model"


@rule("utilities")
def dataset(d):
    n = d.int(1, 4)
    x = torch.randint(0, 3, (5, n)).float()
    yield lambda: PytorchIRTDataset(x, one_hot_encoded=True, item_categories=[3] * n), lambda: PytorchIRTDataset(x, one_hot_encoded=True), "one-hot without categories"
    for w in d.some([[3] * (n + 1), [3] * (n - 1)]):
        yield lambda: PytorchIRTDataset(x, one_hot_encoded=True, item_categories=[3] * n), lambda: PytorchIRTDataset(x, one_hot_encoded=True, item_categories=w), "one-hot with other categories"
        yield lambda: PytorchIRTDataset(x, imputation_method="zero"), lambda: PytorchIRTDataset(x, imputation_method="foo"), "imputation"


@rule("utilities")
def verbosity(d):
    from irtorch.config import set_verbosity
    level = logging.getLogger("irtorch").level
    for w in d.some([0, 6, -1, "debug", None, 10, 2.5]):
        try:
            yield lambda: set_verbosity(d.int(1, 5)), lambda: set_verbosity(w), repr(w)
        finally:
            logging.getLogger("irtorch").setLevel(level)


@rule("utilities")
def linear_groups(d):
    G = d.int(1, 3)
    gi = torch.tensor([d.int(1, 3) for _ in range(G)])
    go = torch.tensor([d.int(1, 3) for _ in range(G)])
    I, O = int(gi.sum()), int(go.sum())
    f = lambda **k: tm.SoftplusLinear(I, O, **k)
    step = d.pick([1, -1])
    bump = lambda v: torch.cat((v[:-1], v[-1:] + step))
    yield lambda: f(separate_inputs=gi), lambda: f(separate_inputs=bump(gi)), "input groups"
    yield lambda: f(separate_inputs=gi, separate_outputs=go), lambda: f(separate_inputs=gi, separate_outputs=bump(go)), "output groups"
    yield lambda: f(separate_inputs=gi, separate_outputs=go), lambda: f(separate_outputs=go), "output groups without input groups"


@rule("utilities")
def polynomial_directions(d):
    I, s, k = d.int(1, 3), d.int(2, 4), d.int(1, 3)
    f = lambda out, sh: tm.MonotonePolynomialModule(degree=3, in_features=I, out_features=out, negative_relationships=True, shared_directions=sh)
    yield lambda: f(s * k, s), lambda: f(s * k + d.int(1, s - 1), s), "outputs not divisible"
    yield lambda: f(s * k, 1), lambda: f(s * k, 0), "no shared directions"


@rule("utilities")
def spline_bins(d):
    b = d.int(2, 9)
    f = lambda w, h: tm.RationalQuadraticSpline(1, num_bins=b, lower_input_bound=-1., upper_input_bound=1., min_bin_width=w, min_bin_height=h)(torch.zeros(2, 1))
    big = 1 / b + 0.01 * d.int(1, 5)
    wide = d.bool()
    yield lambda: f(0.9 / b, 0.9 / b), lambda: f(*((big, 0.01) if wide else (0.01, big))), f"{b} bins of at least {big}"


@rule("utilities")
def matrices(d):
    x = torch.randint(0, 3, (6, d.int(2, 4))).float()
    for wrong in d.some([x[:, 0], x.unsqueeze(0)]):
        yield lambda: IU.correlation_matrix(x), lambda: IU.correlation_matrix(wrong), "correlations"
        yield lambda: IU.joint_entropy_matrix(x), lambda: IU.joint_entropy_matrix(wrong), "joint entropies"
        n = x.shape[1]
        yield lambda: IU.one_hot_encode_test_data(x, [3] * n), lambda: IU.one_hot_encode_test_data(wrong, [3] * n), "one-hot"
        p = torch.tensor([[d.int(1, 9) / 1. for _ in range(3)] for _ in range(2)])
        p = p / p.sum(dim=1, keepdim=True)
        bad = p.clone()
        bad[d.int(0, 1), d.int(0, 2)] += d.pick([0.1, -0.05, 0.5])
        yield lambda: IU.entropy(p), lambda: IU.entropy(bad), "probabilities that do not sum to one"


@rule("utilities")
def guessing(d):
    n = d.int(1, 4)
    x, cats = torch.zeros(5, n), [3] * n
    mc = [d.int(0, 2) for _ in range(n)]
    ok = [d.int(0, 9) / 10 for _ in range(n)]
    i = d.int(0, n - 1)
    for w in d.some([ok + [0.5], ok[:i] + [1.0] + ok[i + 1:], ok[:i] + [-0.1] + ok[i + 1:]] + ([ok[:-1]] if n > 1 else [])):
        yield lambda: IU.random_guessing_data(cats, 5, guessing_probabilities=ok, mc_correct=mc), lambda: IU.random_guessing_data(cats, 5, guessing_probabilities=w, mc_correct=mc), f"{w}"


@rule("utilities")
def cuda(d):
    from irtorch.models import TwoParameterLogistic
    if torch.cuda.is_available():
        return
    m = make("2PL", 2, 1, None)
    x = answers(m, 6)
    f = lambda dev: cross_validation(m, x, folds=2, params_grid={"learning_rate": [0.1]}, theta_estimation="EAP", device=dev, max_epochs=1, algorithm=EA.MML())
    yield (lambda: None), lambda: f("cuda"), "no cuda here"


# ------------------------------------------------------------------ plots
@rule("plots")
def plotted_variables(d):
    L = d.int(1, 2)
    m = small(d, L)
    ok = tuple(range(1, L + 1)) if d.bool() else (1,)
    for w in d.some([(1, 2, 3), (L + 1,), (1,) * (L + 1), (1, L + 1)]):
        calls = {
            "item_probabilities": lambda lv, **k: m.plot.item_probabilities(1, latent_variables=lv, steps=3, **k),
            "expected_sum_score": lambda lv, **k: m.plot.expected_sum_score(latent_variables=lv, steps=3, **k),
            "information": lambda lv, **k: m.plot.information(latent_variables=lv, steps=3, degrees=[0] * L if L > 1 else None, **k),
            "log_likelihood": lambda lv, **k: m.plot.log_likelihood(answers(m)[:1], latent_variables=lv, steps=3, **k),
        }
        name = d.pick(sorted(calls))
        f = calls[name]
        kw = {"theta_range": (-1.0, 1.0), "second_theta_range": (-1.0, 1.0)}
        yield (lambda: f(ok, **kw)), (lambda: f(w, **kw)), f"{name} latent variables {w} with {L}"
        yield (lambda: f(ok, **kw)), (lambda: f(ok, **{**kw, "theta_range": d.pick([(-1.0,), (-1.0, 0.0, 1.0), ()])})), f"{name} range"
        yield (lambda: f(ok, **kw)), (lambda: f(ok, **{**kw, "second_theta_range": d.pick([(-1.0,), (-1.0, 0.0, 1.0)])})), f"{name} second range, {len(ok)} variables"


@rule("plots")
def fixed_values(d):
    L = d.int(2, 4)
    m = small(d, L)
    lv = (1, 2) if d.bool() else (d.int(1, L),)
    rest = L - len(lv)
    for k in d.some([x for x in (0, 1, 2, 3, 4) if x != rest]):
        f = lambda j: m.plot.item_probabilities(1, latent_variables=lv, steps=3, theta_range=(-1., 1.), second_theta_range=(-1., 1.), fixed_thetas=torch.zeros(j))
        yield (lambda: f(rest)), (lambda: f(k)), f"{k} fixed values for {rest} remaining variables"


@rule("plots")
def degrees_needed(d):
    L = d.int(2, 3)
    m = small(d, L)
    f = lambda **k: m.plot.information(latent_variables=(1,), steps=3, theta_range=(-1., 1.), **k)
    yield lambda: f(degrees=[0] * L), lambda: f(), "information without degrees"


def case_st(group):
    names = sorted(RULES[group])
    return st.fixed_dictionaries({"rule": st.sampled_from(names), "d": st.lists(ints(0, 59), min_size=24, max_size=24)})


def run_rule(group, c):
    n = 0
    for valid, invalid, what in RULES[group][c["rule"]](Deck(c["d"])):
        try:
            valid()
        except Exception as e:
            raise Violation(f"{c['rule']}: a valid call is rejected next to {what!r}: {type(e).__name__}: {_short_(e)}")
        raises((ValueError, TypeError, AssertionError, NotImplementedError), invalid, f"{c['rule']}: {what}")
        n += 1
    return n


def _short_(e):
    return str(e)[:200]


def add(group, quick, thorough):
    def check(c):
        run_rule(group, c)
    check.__doc__ = f"{group}: the valid neighbour of every documented limit is accepted, the invalid one raises; rules: {', '.join(sorted(RULES[group]))}; non-trivial: every case"
    prop.facet(group, case_st(group), quick, thorough)(check)


for g_, q_, t_ in (("models", 3000, 40000), ("estimation", 250, 4000), ("scoring", 700, 8000), ("scales", 800, 10000), ("utilities", 1500, 20000), ("plots", 250, 3000)):
    add(g_, q_, t_)


# ------------------------------------------------------------------ what is accepted reports what it was built with
@st.composite
def built_st(draw):
    s = draw(spec_st())
    return {"m": s, "extra": draw(ints(0, 3)), "seed": draw(ints(0, 999)), "missing": draw(ints(0, 5))}


def key_of(s):
    if s["k"] == "MIX":
        ks = [key_of(x) for x in s["sub"]]
        return None if any(k is None for k in ks) else sum(ks, [])
    return list(s["mc"]) if s.get("mc") is not None else None


@prop.facet("reported", built_st(), 900, 12000, lambda c: c["m"]["L"] > 1 or len(set(cats_of(c["m"]))) > 1)
def reported(c):
    """a built model reports its latent variables, items, categories and correct options, and answers with probabilities of that size; sizes taken from data (missing as nan) give the same model as sizes given; non-trivial: several latent variables or unequal categories"""
    s = c["m"]
    m = build(s)
    L, cats, mc = s["L"], cats_of(s), key_of(s)
    true(m.latent_variables == L, "latent variables", got=m.latent_variables, want=L)
    true(list(m.item_categories) == cats, "item categories", got=m.item_categories, want=cats)
    true(m.items == len(cats) and m.max_item_responses == max(cats), "items or largest number of categories", got=(m.items, m.max_item_responses), want=cats)
    true((m.mc_correct is None and mc is None) or (mc is not None and m.mc_correct is not None and list(m.mc_correct) == mc), "correct options", got=m.mc_correct, want=mc)
    with torch.no_grad():
        p = m.item_probabilities(torch.zeros(2, L))
        e = m.expected_scores(torch.zeros(2, L), return_item_scores=True)
    true(tuple(p.shape) == (2, len(cats), max(cats)) and tuple(e.shape) == (2, len(cats)), "size of the answers", got=tuple(p.shape), scores=tuple(e.shape))
    for j, k in enumerate(cats):
        true(bool((p[:, j, :k] >= 0).all()) and bool((p[:, j, k:] == 0).all()), f"probabilities of item {j} with {k} categories", p=p[:, j])
    if s["k"] in ("MIX", "NEST"):
        return
    g = torch.Generator().manual_seed(c["seed"])
    N = max(cats) + c["extra"]
    x = torch.stack([torch.cat((torch.randint(0, k, (N - 1,), generator=g), torch.tensor([k - 1])))[torch.randperm(N, generator=g)] for k in cats], dim=1).float()
    hide = (torch.rand(x.shape, generator=g) < c["missing"] / 10) & (x != torch.tensor(cats).float() - 1)
    x[hide] = float("nan")
    keep = x.clone()
    kw = {}
    if s.get("mask") is not None:
        kw["item_theta_relationships"] = torch.tensor(s["mask"], dtype=torch.bool)
    o = s.get("opt", {})
    if s["k"] == "MNN":
        kw.update(hidden_dim=list(o["hidden"]), separate=o["separate"], negative_latent_variable_item_relationships=o["neg"], use_bounded_activation=o["bounded"])
    if s["k"] == "MPOLY":
        kw.update(degree=o["degree"], separate=o["separate"], negative_latent_variable_item_relationships=o["neg"])
    if s["k"] in ("MBS", "SURP"):
        kw["degree"] = o["degree"]
        if o.get("knots"):
            kw["knots"] = [v / 10 for v in o["knots"]]
    if s["k"] == "MBS":
        kw["separate"] = o["separate"]
    if s.get("mc") is not None:
        kw["mc_correct"] = list(s["mc"])
    f = make(s["k"], None, L, cats, data=x, **kw)
    exact(x, keep, "building a model changed the data")
    true(list(f.item_categories) == cats and f.items == len(cats) and f.max_item_responses == max(cats) and f.latent_variables == L, "sizes taken from the data", got=f.item_categories, want=cats)
    shapes = lambda z: {k: tuple(v.shape) for k, v in z.state_dict().items()}
    true(shapes(f) == shapes(m), "a model sized by data differs from one sized by hand", got=shapes(f), want=shapes(m))
    f.load_state_dict(m.state_dict())
    with torch.no_grad():
        close(f.item_probabilities(torch.zeros(2, L)), p, "probabilities of the model sized by data")
