from ..gen import *

prop = Property("C05", ["derivatives are judged by central differences in double precision at points where left and right differences agree"])


def fd(f, theta, h=1e-4):
    """(n, ..., L) numerical derivative of f (rowwise) and a mask of rows/variables that look smooth."""
    cols, smooth = [], []
    for l in range(theta.shape[1]):
        e = torch.zeros_like(theta); e[:, l] = 1.0
        fp, fm, f0 = f(theta + h * e), f(theta - h * e), f(theta)
        fp2, fm2 = f(theta + 2 * h * e), f(theta - 2 * h * e)
        d = (8 * (fp - fm) - (fp2 - fm2)) / (12 * h)
        second = (fp - 2 * f0 + fm).abs() / h          # jump of the slope inside the stencil
        second2 = (fp2 - 2 * f0 + fm2).abs() / (2 * h)
        cols.append(d)
        smooth.append(torch.maximum(second, second2))
    return torch.stack(cols, dim=-1), torch.stack(smooth, dim=-1)


def shifted(case):
    return layout(theta_t(case["theta"]) + 0.0317)


def compare(got, want, jump, what):
    """Slopes agree up to rounding plus a multiple of the curvature seen inside the stencil."""
    true(tuple(got.shape) == tuple(want.shape), f"{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}")
    true(torch.isfinite(got).all(), f"{what}: not finite", got=got)
    err = (got.double() - want).abs()
    kink = jump > 2e-2 * (1 + want.abs())
    tol = 1e-6 * (1 + want.abs()) + 1e-4 * jump
    bad = (err > tol) & ~kink
    if bool(bad.any()):
        i = tuple(torch.nonzero(bad)[0].tolist())
        fail(f"{what}: {float(got[i])} instead of {float(want[i])} at {list(i)}", got=got, want=want)


@prop.facet("scores", crowded(case_st(max_n=4), one_in=30), 1600, 20000, rich, dtype="float64")
def scores(case):
    """expected item scores are the weighted category scores (probability of the correct option for multiple-choice items) and the sum score is their total"""
    s = case["m"]
    m, theta = dress(lived(build(s), case), case), theta_t(case["theta"])
    p, cats, mc = probs_of(m, theta), cats_of(s), mc_of(s)
    with torch.no_grad():
        got, tot = m.expected_scores(theta.clone()), m.expected_scores(theta.clone(), return_item_scores=False)
        exact(m.expected_scores(theta=theta.clone(), return_item_scores=True), got, "expected item scores asked for by name")
    want = torch.stack([p[:, i, mc[i]] if mc is not None else sum(k * p[:, i, k] for k in range(c)) for i, c in enumerate(cats)], dim=1)
    close(got, want, "expected item scores", rtol=1e-9, atol=1e-10)
    close(tot, want.sum(dim=1), "expected sum score", rtol=1e-9, atol=1e-10)
    w = torch.stack([1 - (want[:, i] if mc is not None else want[:, i] / (c - 1)) for i, c in enumerate(cats)], dim=1).mean(dim=0)
    with torch.no_grad():
        close(m.population_difficulty(theta.clone()), w, "population difficulty", rtol=1e-9, atol=1e-10)


@prop.facet("probability_gradients", crowded(case_st(max_n=3, vmax=20, lo=-30, hi=30), one_in=60), 1500, 12000, rich, dtype="float64")
def pgrad(case):
    """probability gradients vs central differences of the item probabilities"""
    m, theta = lived(build(case["m"]), case), shifted(case)
    want, jump = fd(lambda t: probs_of(m, t), theta)
    compare(m.probability_gradients(theta.clone()).detach(), want, jump, "probability gradient")


@prop.facet("score_gradients", crowded(case_st(max_n=3, vmax=20, lo=-30, hi=30), one_in=60), 1500, 12000, rich, dtype="float64")
def egrad(case):
    """expected-score gradients (raw and divided by the maximum item score) vs central differences of the expected scores; discrimination is their mean"""
    s = case["m"]
    m, theta = lived(build(s), case), shifted(case)
    p_scores = lambda t: m.expected_scores(t.clone()).detach()
    want, jump = fd(p_scores, theta)
    compare(m.expected_item_score_gradients(theta.clone(), rescale_by_item_score=False), want, jump, "expected score gradient")
    mx = torch.tensor([1.0 if mc_of(s) is not None else c - 1.0 for c in cats_of(s)], dtype=theta.dtype).view(1, -1, 1)
    g = m.expected_item_score_gradients(theta.clone())
    compare(g, want / mx, jump / mx, "normalised expected score gradient")
    compare(m.population_discrimination(theta.clone()).detach(), (want / mx).mean(dim=0), (jump / mx).amax(dim=0), "population discrimination")


@prop.facet("finite", case_st(max_n=3, lo=-100, hi=100), 700, 9000, rich)
def finite(case):
    """single precision, thetas up to 10 in absolute value: gradients are finite"""
    m, theta = lived(build(case["m"]), case), theta_t(case["theta"])
    g, e = m.probability_gradients(theta.clone()).detach(), m.expected_item_score_gradients(theta.clone())
    true(torch.isfinite(g).all(), "probability gradient is not finite", got=g)
    true(torch.isfinite(e).all(), "expected score gradient is not finite", got=e)


def far(name, what):
    return prop.facet(name, case_st(max_n=3, vmax=12, lo=-150, hi=150), 200, 4000, lambda c: any(abs(v) > 80 for r in c["theta"] for v in r), rule=what, dtype="float64")


far("probability_gradients_far", "probability gradients vs central differences for thetas up to 15 in absolute value; non-trivial: a theta beyond 8")(pgrad)
far("score_gradients_far", "expected-score gradients and discrimination vs central differences for thetas up to 15 in absolute value; non-trivial: a theta beyond 8")(egrad)
