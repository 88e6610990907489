from ..gen import *

prop = Property("C01", ["graded response thresholds are generated in the model's admissible (ordered) region"])


def check_probs(m, s, theta):
    cats = cats_of(s)
    p = probs_of(m, theta)
    true(tuple(p.shape) == (theta.shape[0], len(cats), max(cats)), "probability shape", got=tuple(p.shape))
    true(torch.isfinite(p).all(), "non-finite probability", p=p)
    eps = 1e-6 if p.dtype == torch.float32 else 1e-12
    true((p >= -eps).all() and (p <= 1 + eps).all(), "probability outside [0,1]", p=p)
    close(p.sum(dim=2), torch.ones(p.shape[:2]), "category probabilities do not sum to one", rtol=0, atol=2e-5 if p.dtype == torch.float32 else 1e-9)
    for i, c in enumerate(cats):
        true((p[:, i, c:] == 0).all(), f"item {i} has {c} categories but probability outside them", p=p[:, i])
    if theta.shape[0] % 2 == 0:
        q = m.item_probabilities(theta.clone().requires_grad_(True)).detach()
        close(q, p, "probabilities of thetas that require gradients", rtol=1e-5, atol=1e-6)


@prop.facet("axioms", case_st(), 2400, 40000, rich)
def axioms(case):
    """any model/parameters/theta in [-4,4]: shape, finite, [0,1], sum one, absent categories zero; non-trivial: >1 item, category or latent variable with non-zero parameters"""
    check_probs(dress(lived(build(case["m"]), case), case), case["m"], theta_t(case["theta"]))


@prop.facet("axioms64", case_st(), 1000, 16000, rich, dtype="float64")
def axioms64(case):
    """the same in double precision"""
    check_probs(dress(lived(build(case["m"]), case), case), case["m"], theta_t(case["theta"]))


@prop.facet("extreme", case_st(lo=-1000, hi=1000), 1600, 20000, rich)
def extreme(case):
    """thetas up to 100 in absolute value"""
    check_probs(dress(lived(build(case["m"]), case), case), case["m"], theta_t(case["theta"]))


@prop.facet("fresh", case_st(), 600, 6000, lambda c: True)
def fresh(case):
    """the model as constructed, before any parameter is set"""
    if case["m"]["k"] == "MIX":
        m = im.ModelMix([_construct(x) for x in case["m"]["sub"]])
    else:
        m = _construct(case["m"])
    check_probs(m, case["m"], theta_t(case["theta"]))


@prop.facet("sampling", case_st(max_n=3), 600, 8000, rich)
def sampling(case):
    """sampled responses are existing categories, one row per theta; impossible categories are never drawn; chi-square-like bound on frequencies"""
    m, s = build(case["m"]), case["m"]
    theta = theta_t(case["theta"])
    reps = 200
    big = theta.repeat_interleave(reps, dim=0)
    x = m.sample_test_data(big)
    cats = cats_of(s)
    true(tuple(x.shape) == (big.shape[0], len(cats)), "sample shape", got=tuple(x.shape))
    p = probs_of(m, theta)
    for i, c in enumerate(cats):
        col = x[:, i]
        true(((col >= 0) & (col < c) & (col == col.round())).all(), f"sampled a response item {i} does not have", col=col.unique())
        for r in range(theta.shape[0]):
            f = torch.stack([(col[r * reps:(r + 1) * reps] == k).double().mean() for k in range(max(cats))])
            q = p[r, i].double()
            tol = 6 * (q * (1 - q) / reps).clamp(min=0).sqrt() + 6.0 / reps
            true(((f - q).abs() <= tol).all(), "sampled frequencies disagree with the probabilities", freq=f, probs=q)


from ..gen import _construct  # noqa: E402
