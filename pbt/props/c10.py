from ..gen import *
from ..histlib import twin_cases, twin_check

prop = Property("C10", ["relations are judged at thetas where the Jacobian of the transformation is well conditioned (condition below 300 and slopes above 0.02), which keeps single-precision solves accurate"])


@st.composite
def scaled_st(draw, kinds=ALL, max_n=3, data=False, scale_kinds=("rev", "rot", "flow", "link"), **kw):
    c = draw((case_data_st if data else case_st)(kinds, max_n=max_n, vmax=15, lo=-30, hi=30, **kw))
    c["scales"] = draw(scales_st(c["m"]["L"], scale_kinds, 1, 3))
    return c


def setup(case):
    m, bare = build(case["m"]), build(case["m"])
    for d in case["scales"]:
        m.add_scale_transformation(build_scale(d, m))
    return m, bare, theta_t(case["theta"]) + 0.0123


def good(J):
    s = torch.linalg.svdvals(J.double())
    return (s[:, -1] > 0.02) & (s[:, 0] / s[:, -1] < 300)


def nontriv(c):
    return rich(c) and any(d["t"] != "rev" for d in c["scales"])


@prop.facet("gradients", scaled_st(), 700, 9000, nontriv)
def gradients(case):
    """rescaled gradients times the Jacobian give the theta-scale gradients (probabilities, expected scores, discrimination); non-trivial: a rotation, flow or link is attached"""
    m, bare, theta = setup(case)
    with torch.no_grad():
        J = m.theta_transform_jacobian(theta).double()
    ok = good(J)
    if not bool(ok.any()):
        return
    for name, call in (("probability gradients", lambda mm, r: mm.probability_gradients(theta.clone(), rescale=r).detach()),
                       ("normalised expected-score gradients", lambda mm, r: mm.expected_item_score_gradients(theta.clone(), rescale=r)),
                       ("expected-score gradients", lambda mm, r: mm.expected_item_score_gradients(theta.clone(), rescale_by_item_score=False, rescale=r))):
        plain, off = call(bare, True), call(m, False)
        exact(off, plain, f"{name} with rescale=False differ from the model without scales")
        got = call(m, True)
        true(tuple(got.shape) == tuple(plain.shape), f"{name}: shape changed by scales", got=tuple(got.shape))
        back = torch.einsum("n...l,nlk->n...k", got.double(), J)
        close(back[ok], plain[ok], f"rescaled {name} times the Jacobian", rtol=1e-3, atol=2e-4 * (1 + float(plain.abs().max())))
    plain_d, got_d = bare.population_discrimination(theta).detach(), m.population_discrimination(theta).detach()
    exact(m.population_discrimination(theta, rescale=False).detach(), plain_d, "discrimination with rescale=False")
    close(got_d, m.expected_item_score_gradients(theta.clone()).mean(dim=0), "rescaled discrimination", rtol=1e-5, atol=1e-6)


@st.composite
def units_st(draw):
    c = draw(case_st(["1PL", "2PL", "3PL", "GRM", "GPC", "NRM", "MNN", "MIX"], max_n=3, vmax=15, lo=-30, hi=30))
    c["pow"] = [draw(ints(-6, 4)) for _ in range(c["m"]["L"])]
    c["order"] = draw(st.permutations(range(c["m"]["L"])))
    return c


@prop.facet("units", units_st(), 300, 4000, lambda c: rich(c) and max(map(abs, c["pow"])) > 2)
def units(c):
    """latent variables in other units (up to a million times larger or smaller) and another order: gradients, information, discrimination and standard errors in those units; non-trivial: a unit at least a thousand times off"""
    from irtorch.rescale import Rotate
    m, bare, theta = build(c["m"]), build(c["m"]), theta_t(c["theta"]) + 0.0123
    L, o = c["m"]["L"], c["order"]
    u = torch.tensor([10.0 ** p for p in c["pow"]])
    R = torch.zeros(L, L)
    R[torch.tensor(o), torch.arange(L)] = u        # new variable k is old variable o[k] in units of u[k]
    m.add_scale_transformation(Rotate(m, rotation_matrix=R))
    for name, call in (("probability gradients", lambda mm: mm.probability_gradients(theta.clone()).detach()),
                       ("expected-score gradients", lambda mm: mm.expected_item_score_gradients(theta.clone())),
                       ("discrimination", lambda mm: mm.population_discrimination(theta.clone()))):
        plain = call(bare)
        close(call(m) * u, plain[..., o], f"{name} in other units", rtol=1e-4, atol=1e-5)
    plain, got = bare.information(theta.clone(), item=True), m.information(theta.clone(), item=True)
    if bool(torch.isfinite(plain).all()):
        close(got.double() * u.double()[:, None] * u.double(), plain[..., o, :][..., o], "information in other units", rtol=1e-3, atol=1e-4)


@prop.facet("information", scaled_st(), 500, 7000, nontriv)
def information(case):
    """J^T I(rescaled) J = I(theta) for items and the test, symmetric; rescale=False ignores the scales"""
    m, bare, theta = setup(case)
    with torch.no_grad():
        J = m.theta_transform_jacobian(theta).double()
    ok = good(J)
    for item in (True, False):
        plain = bare.information(theta.clone(), item=item)
        exact(m.information(theta.clone(), item=item, rescale=False), plain, "information with rescale=False")
        if not bool(ok.any()):
            continue
        got = m.information(theta.clone(), item=item).double()
        JJ = J.unsqueeze(1) if item else J
        back = JJ.transpose(-1, -2) @ got @ JJ
        close(back[ok], plain[ok], "congruence of the rescaled information", rtol=2e-3, atol=5e-4 * (1 + float(plain.abs().max())))
        if item:
            close(m.information(theta.clone(), item=False).double()[ok], got.sum(dim=1)[ok], "rescaled test information", rtol=1e-4, atol=1e-4 * (1 + float(got[ok].abs().max())))
    if m.latent_variables > 1:
        deg = [30 * (i + 1) for i in range(m.latent_variables)]
        exact(m.information(theta.clone(), degrees=deg, rescale=False), bare.information(theta.clone(), degrees=deg), "directional information with rescale=False")
        a = torch.tensor(deg).double().deg2rad().cos()
        got = m.information(theta.clone(), degrees=deg).double()
        want = torch.einsum("i,nkij,j->nk", a, m.information(theta.clone()).double(), a)
        if bool(ok.any()):
            close(got[ok], want[ok], "rescaled directional information", rtol=1e-3, atol=1e-3 * (1 + float(want[ok].abs().max())))


@prop.facet("invariants", scaled_st(data=True), 400, 6000, nontriv)
def invariants(case):
    """probabilities, likelihoods and expected scores do not change when scales are attached; the scores of the evaluator take theta on the original scale"""
    m, bare, theta = setup(case)
    data = data_t(case["data"], "nan")
    with torch.no_grad():
        exact(m.item_probabilities(theta), bare.item_probabilities(theta), "probabilities changed by scales")
        exact(m.expected_scores(theta), bare.expected_scores(theta), "expected scores changed by scales")
        exact(m.population_difficulty(theta), bare.population_difficulty(theta), "difficulty changed by scales")
        miss = data.isnan()
        exact(m.log_likelihood(data, m(theta), miss), bare.log_likelihood(data, bare(theta), miss), "log-likelihood changed by scales")
        exact(m.evaluate.log_likelihood(data, theta, reduction="none"), bare.evaluate.log_likelihood(data, theta, reduction="none"), "evaluator log-likelihood changed by scales")
        exact(m.evaluate.residuals(data, theta, average_over="none"), bare.evaluate.residuals(data, theta, average_over="none"), "residuals changed by scales")
    torch.manual_seed(3); a = m.sample_test_data(theta)
    torch.manual_seed(3); b = bare.sample_test_data(theta)
    exact(a, b, "sampled data changed by scales")


@prop.facet("scores", scaled_st(["1PL", "2PL", "3PL", "GRM", "GPC", "NRM", "MNN", "MBS", "MIX"], data=True, max_L=2, max_n=4), 120, 1800, nontriv)
def scores(case):
    """rescaled latent scores are the transformed theta-scale scores, and their standard errors the inverse root diagonal of the rescaled information"""
    m, bare, _ = setup(case)
    data = data_t(case["data"], "mixed")
    raw, raw_se = bare.latent_scores(data, standard_errors=True)
    if not bool(torch.isfinite(raw).all()) or float(raw.abs().max()) > 30:
        return      # no interior maximum: the search ran off to infinity
    off, off_se = m.latent_scores(data, standard_errors=True, rescale=False)
    exact(off, raw, "scores with rescale=False")
    exact(off_se, raw_se, "standard errors with rescale=False")
    got, se = m.latent_scores(data, standard_errors=True)
    with torch.no_grad():
        close(got, m.transform_theta(raw), "rescaled scores", rtol=1e-6, atol=1e-6)
        J = m.theta_transform_jacobian(raw).double()
    ok = good(J) & (raw.abs().amax(dim=1) < 6)
    if bool(ok.any()):
        info = bare.information(raw, item=False).double()[ok]
        Ji = torch.linalg.inv(J[ok])
        d = torch.einsum("nji,njk,nki->ni", Ji, info, Ji)
        keep = d > 1e-3
        close(se[ok][keep], d[keep].rsqrt(), "rescaled standard error", rtol=2e-2, atol=1e-3)
    for est in ("MAP", "EAP"):
        a, b = bare.latent_scores(data, theta_estimation=est), m.latent_scores(data, theta_estimation=est)
        exact(m.latent_scores(data, theta_estimation=est, rescale=False), a, f"{est} scores with rescale=False")
        with torch.no_grad():
            close(b, m.transform_theta(a), f"rescaled {est} scores", rtol=1e-6, atol=1e-6)


@st.composite
def varimax_st(draw):
    L = draw(ints(2, 3))
    return {"m": draw(spec_st(["2PL", "GRM", "GPC", "NRM", "MNN"], L=L, items=draw(ints(4, 6)), vmax=15, masks=False)), "theta": draw(theta_st(L, 3, 5, -20, 20)),
            "method": draw(st.sampled_from(["varimax", "quartimax"])), "scales": draw(scales_st(L, ("rev", "flow"), 0, 1))}


@prop.facet("rotated_loadings", varimax_st(), 120, 1500, rich)
def rotated(case):
    """after an orthogonal rotation found at thetas, the average score gradients on the rotated scale are the reported rotated loadings"""
    from irtorch.rescale import Rotate
    from factor_analyzer import Rotator
    m, bare, theta = setup(case)
    with torch.no_grad():
        J = m.theta_transform_jacobian(theta)
    loads = m.expected_item_score_gradients(theta).mean(dim=0)
    if not bool(good(J).all()) or torch.linalg.cond(loads) > 30 or (loads.abs().sum(dim=1) < 1e-3).any():
        return
    try:
        Rotator(method=case["method"]).fit_transform(loads.numpy().copy())
    except Exception:
        return
    r = Rotate(m, theta=theta, rotation_method=case["method"])
    R = r.rotation_matrix.double()
    if not bool(torch.allclose(R @ R.T, torch.eye(R.shape[0], dtype=R.dtype), atol=1e-3)):
        return
    m.add_scale_transformation(r)
    close(m.expected_item_score_gradients(theta).mean(dim=0), r.rot_loadings, "average gradients on the rotated scale", rtol=1e-2, atol=1e-3 * (1 + float(loads.abs().max())))


SCALED_CALLS = {
    "probability gradients": lambda m, d, t: m.probability_gradients(t),
    "score gradients": lambda m, d, t: m.expected_item_score_gradients(t, rescale_by_item_score=False),
    "information": lambda m, d, t: m.information(t, item=False),
    "item information": lambda m, d, t: m.information(t, degrees=[20] * m.latent_variables),
    "discrimination": lambda m, d, t: m.population_discrimination(t),
    "unscaled information": lambda m, d, t: m.information(t, rescale=False),
}


@prop.facet("history", twin_cases(6), 120, 1800, lambda c: rich(c) and len(c["steps"]) > 3)
def history(case):
    """rescaled quantities on one model between attaching and detaching scales and other changes: each equals that of a fresh model in the same state"""
    twin_check(case, SCALED_CALLS)
