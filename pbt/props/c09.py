from ..gen import *
from .c05 import fd

prop = Property("C09", ["rotation matrices are well conditioned up to the scaling of their columns; spline links and flows have increasing bounds",
                        "reference derivatives are central differences of the same scales converted to double precision"])
NONMIX = ["2PL", "GRM", "GPC", "NRM", "MNN"]


def chain_st(kinds=("rev", "rot", "flow"), max_n=4, max_L=4, lo=-60, hi=60):
    @st.composite
    def inner(draw):
        L = draw(ints(1, max_L))
        return {"L": L, "scales": draw(scales_st(L, kinds, 1, max_n)), "theta": draw(theta_st(L, 1, 4, lo, hi))}
    return inner()


def model_for(case):
    return im.TwoParameterLogistic(latent_variables=case["L"], items=2)


def several(case):
    return len({s["t"] for s in case["scales"]}) > 1 or (len(case["scales"]) > 1 and case["L"] > 1)


def setup(case, rot_dtype=torch.float32):
    m = model_for(case)
    return lived(m, case), [build_scale(d, m, rot_dtype) for d in case["scales"]]


@prop.facet("compose", chain_st(("rev", "rot", "flow", "link")), 400, 6000, several)
def compose(case):
    """transform_theta is the scales one after another in order (also for added-later and detached scales); non-trivial: two or more different scales"""
    m, sc = setup(case)
    theta = theta_t(case["theta"])
    keep = theta.clone()
    want = theta.clone()
    exact(m.transform_theta(theta), theta, "no scales: transformed theta is not theta")
    with torch.no_grad():
        for s in sc:
            m.add_scale_transformation(s)
            want = s.transform(want.clone())
            close(m.transform_theta(theta), want, "transformed theta after adding a scale", rtol=1e-6, atol=1e-6)
        exact(theta, keep, "transforming changed the caller's theta")
        for r in range(theta.shape[0]):
            close(m.transform_theta(theta[r:r + 1]), want[r:r + 1], "row transformed alone", rtol=1e-5, atol=1e-5)
    m.detach_scale_transformations()
    exact(m.transform_theta(theta), theta, "detached scales still transform")
    exact(m.inverse_transform_theta(theta), theta, "detached scales still transform back")


@prop.facet("reverse_rotate", chain_st(("rev", "rot")), 800, 12000, several)
def reverse_rotate(case):
    """reversal and rotation vs explicit sign flips and matrix products in double precision: values, inverse, Jacobian"""
    m, sc = setup(case)
    theta = theta_t(case["theta"])
    A = torch.eye(case["L"], dtype=torch.float64)
    for d in case["scales"]:
        A = A @ (torch.diag(torch.tensor([-1.0 if f else 1.0 for f in d["f"]], dtype=torch.float64)) if d["t"] == "rev" else rot_matrix(d).double())
    for s in sc:
        m.add_scale_transformation(s)
    t = m.transform_theta(theta)
    close(t, theta.double() @ A, "linear chain", rtol=1e-4, atol=1e-4)
    close(m.inverse_transform_theta(t), theta, "inverse of a linear chain", rtol=1e-3, atol=1e-3)
    close(m.theta_transform_jacobian(theta), A.T.unsqueeze(0).repeat(theta.shape[0], 1, 1), "Jacobian of a linear chain", rtol=1e-4, atol=1e-4)
    true(all(s.invertible for s in sc), "reversal and rotation are declared invertible")


@prop.facet("inverse", chain_st(("rev", "rot", "flow", "link")), 500, 8000, several, dtype="float64")
def inverse(case):
    """the inverse transformation undoes the chain and the chain undoes the inverse, in double precision (links with a spline)"""
    case = dict(case, scales=[d for d in case["scales"] if not (d["t"] == "link" and d["method"] == "neuralnet")])
    with dflt(torch.float32):
        m, sc = setup(case, torch.float64)
    for s in sc:
        m.add_scale_transformation(to_double(s))
    theta = theta_t(case["theta"])
    with torch.no_grad():
        back = m.inverse_transform_theta(m.transform_theta(theta))
        close(back, theta, "inverse of the transformed theta", rtol=1e-5, atol=1e-5)
        # the other way round only for the image: splines map the whole line onto the whole line
        fwd = m.transform_theta(m.inverse_transform_theta(theta))
        close(fwd, theta, "transform of the inverse-transformed theta", rtol=1e-5, atol=1e-5)


@st.composite
def uneven_st(draw):
    L = draw(ints(2, 4))
    return {"L": L, "r": [[draw(ints(-3, 3)) for _ in range(L)] for _ in range(L)], "pow": [draw(ints(-5, 3)) for _ in range(L)], "rows": draw(st.booleans()), "theta": draw(theta_st(L, 1, 4, -40, 40))}


@prop.facet("uneven_rotation", uneven_st(), 300, 4000, lambda c: max(c["pow"]) - min(c["pow"]) >= 3, dtype="float64")
def uneven_rotation(c):
    """rotation matrices whose columns (or rows) are of very different sizes: values, inverse and Jacobian in double precision; non-trivial: at least three orders of magnitude"""
    from irtorch.rescale import Rotate
    R = rot_matrix(c).double()
    f = torch.tensor([10.0 ** e for e in c["pow"]])
    R = R * f[:, None] if c["rows"] else R * f
    m = im.TwoParameterLogistic(latent_variables=c["L"], items=2)
    s = Rotate(m, rotation_matrix=R)
    theta = theta_t(c["theta"])
    y = s.transform(theta)
    exact_rows = (theta.numpy() @ R.numpy())
    close(y / R.abs().amax(dim=0), exact_rows / R.abs().amax(dim=0).numpy(), "rotated thetas", rtol=1e-9, atol=1e-9)
    close(s.inverse(y), theta, "inverse of an unevenly scaled rotation", rtol=1e-6, atol=1e-6)
    J = s.jacobian(theta)
    close(J, R.T.expand(len(theta), -1, -1), "Jacobian of an unevenly scaled rotation", rtol=1e-9, atol=0)


@st.composite
def narrow_st(draw):
    L = draw(ints(1, 3))
    d = draw(scales_st(L, ("flow",), 1, 1))[0]
    return {"L": L, "flow": d, "units": [draw(ints(-4, 3)) for _ in range(L)], "theta": draw(theta_st(L, 1, 4, -40, 40))}


@prop.facet("units_of_flow", narrow_st(), 200, 3000, lambda c: any(abs(u) > 1 for u in c["units"]), dtype="float64")
def units_of_flow(c):
    """flows fitted to thetas in very small or large units: inverse and Jacobian relative to those units in double precision; non-trivial: a unit at least ten times off"""
    from irtorch.rescale import Flow
    d, L = c["flow"], c["L"]
    unit = torch.tensor([10.0 ** u for u in c["units"]])
    std, mean = torch.tensor(d["std"]) / 10.0 * unit, torch.tensor(d["mean"]) / 10.0 * unit
    f = Flow(L)
    base = torch.linspace(-2.5, 2.5, 25).repeat(L, 1).T
    b = d["out"] / 10.0
    with dflt(torch.float32):
        f.fit((base * std + mean).float(), max_epochs=1, num_bins=d["bins"], lower_output_bound=-b, upper_output_bound=b, device="cpu")
        fill(f.flow, d["p"])
    f = to_double(f)
    z = theta_t(c["theta"]) + 0.0123
    theta = z * std + mean
    with torch.no_grad():
        y = f.transform(theta)
        close((f.inverse(y) - mean) / std, z, "inverse of a flow, in units of the fitted thetas", rtol=1e-5, atol=1e-5)
        for k in range(L):
            e = torch.zeros(L)
            e[k] = 1e-6
            a, bb = (f.transform(theta + e * std) - f.transform(theta - e * std)) / 2e-6, (f.transform(theta + 2 * e * std) - f.transform(theta - 2 * e * std)) / 4e-6
            if not torch.allclose(a, bb, rtol=1e-4, atol=1e-4):
                return      # a kink
            got = f.jacobian(theta)[:, :, k] * std[k]
            close(got, a, "Jacobian of a flow, in units of the fitted thetas", rtol=1e-3, atol=1e-3)


@prop.facet("jacobian", chain_st(("rev", "rot", "flow", "link"), lo=-45, hi=45), 600, 9000, several)
def jacobian(case):
    """the chain's Jacobian vs central differences of the chain in double precision"""
    m, sc = setup(case)
    ds = [to_double(s) for s in sc]
    for s in sc:
        m.add_scale_transformation(s)
    theta = layout(theta_t(case["theta"]) + 0.0123)
    got = m.theta_transform_jacobian(theta.clone())

    def f(t):
        with torch.no_grad(), dflt(torch.float64):
            for s in ds:
                t = s.transform(t)
        return t
    want, jump = fd(f, theta.double(), h=2e-4)
    true(tuple(got.shape) == tuple(want.shape), f"Jacobian shape {tuple(got.shape)} instead of {tuple(want.shape)}")
    # single precision: the slope is compared up to the change of slope within the stencil and rounding of the input
    tol = 2e-3 * (1 + want.abs().amax(dim=(1, 2), keepdim=True)) + 0.5 * jump.amax(dim=(1, 2), keepdim=True)
    bad = (got.double() - want).abs() > tol
    if bool(bad.any()):
        i = tuple(torch.nonzero(bad)[0].tolist())
        fail(f"Jacobian {float(got[i])} instead of {float(want[i])} at {list(i)}", got=got, want=want)


@st.composite
def rotdata_st(draw):
    L = draw(ints(2, 3))
    return {"L": L, "load": [[draw(ints(-20, 20)) for _ in range(L)] for _ in range(draw(ints(4, 6)))],
            "method": draw(st.sampled_from(["varimax", "promax", "quartimax"])), "theta": draw(theta_st(L, 1, 3)),
            "rev": [draw(st.booleans()) for _ in range(L)], "par": [draw(ints(-20, 20)) for _ in range(30)]}


@prop.facet("rotation_from_loadings", rotdata_st(), 200, 3000, lambda c: any(any(r) for r in c["load"]))
def rotation_from(case):
    """rotation found from loadings maps theta by the matrix it reports and the loadings to the rotated loadings; from thetas it equals the rotation of the average score gradients on the current scale"""
    from irtorch.rescale import Rotate, Reverse
    load = torch.tensor(case["load"], dtype=torch.float32) / 10 + 0.01 * torch.arange(len(case["load"])).view(-1, 1)
    if torch.linalg.matrix_rank(load) < case["L"] or (load.abs().sum(dim=1) < 0.3).any() or torch.linalg.cond(load) > 50:
        return
    from factor_analyzer import Rotator
    try:
        Rotator(method=case["method"]).fit_transform(load.numpy().copy())
    except Exception:       # the rotation library itself gives up on these loadings
        return
    m = model_for(case)
    keep = load.clone()
    r = Rotate(m, loadings=load, rotation_method=case["method"])
    exact(load, keep, "rotation changed the caller's loadings")
    theta = theta_t(case["theta"])
    if not torch.isfinite(r.rotation_matrix).all() or torch.linalg.cond(r.rotation_matrix) > 100:
        return
    close(r.transform(theta), theta.double() @ r.rotation_matrix.double(), "rotated theta", rtol=1e-4, atol=1e-4)
    close(load @ r.rotation_matrix, r.rot_loadings, "rotated loadings", rtol=1e-3, atol=1e-3)
    close(r.inverse(r.transform(theta)), theta, "inverse rotation", rtol=1e-3, atol=1e-3)
    if case["method"] == "promax":
        return
    # built from data on a model that is already reversed
    n = 5
    mm = im.TwoParameterLogistic(latent_variables=case["L"], items=n)
    fill(mm, case["par"])
    mm.add_scale_transformation(Reverse(case["rev"]))
    th = torch.cat([theta, theta + 0.5])
    loads = mm.expected_item_score_gradients(th).mean(dim=0)
    if torch.linalg.cond(loads) > 50:
        return
    try:
        Rotator(method=case["method"]).fit_transform(loads.numpy().copy())
    except Exception:
        return
    a = Rotate(mm, theta=th, rotation_method=case["method"])
    b = Rotate(mm, loadings=loads, rotation_method=case["method"])
    close(a.rotation_matrix, b.rotation_matrix, "rotation from thetas", rtol=1e-3, atol=1e-3)
    from unittest import mock
    data = (torch.arange(len(th) * n).view(len(th), n) % 2).float()

    def scores(d, *args, rescale=True, **kw):      # a respondent's theta, rescaled only when asked (default)
        return mm.transform_theta(th) if rescale else th.clone()
    with mock.patch.object(mm, "latent_scores", scores):
        c = Rotate(mm, data=data, rotation_method=case["method"])
    close(c.rotation_matrix, b.rotation_matrix, "rotation from data", rtol=1e-3, atol=1e-3)


@st.composite
def usage_st(draw):
    L = draw(st.sampled_from([1, 2, 4, 3]))
    n = draw(st.sampled_from([3, 4, 70, 130]))
    t = draw(theta_st(L, 2, 3, -60, 60))
    c = {"L": L, "scales": draw(scales_st(L, ("flow", "rot", "rev", "link", "link", "flow"), 1, 2)), "theta": t, "twice": draw(st.sampled_from([True, False])),
         "grad": draw(st.sampled_from([True, False])), "calls": draw(ints(0, 3)), "out": draw(ints(40, 90)) * draw(st.sampled_from([1, -1]))}
    if n > 4:
        c = crowd(c, n)
    if c["twice"]:
        c["theta"] = c["theta"] + c["theta"][::-1]
    return c


@prop.facet("usage", usage_st(), 350, 5000, lambda c: len(c["theta"]) > 2)
def usage(case):
    """values, inverses and Jacobians do not depend on the number of respondents, repeated respondents, outlying thetas in the batch, earlier calls or whether the thetas require gradients: a batch vs single respondents of an untouched twin; non-trivial: more than two respondents"""
    import copy
    m, sc = setup(case)
    twin = model_for(case)
    for s in sc:
        m.add_scale_transformation(s)
        twin.add_scale_transformation(copy.deepcopy(s))
    rows = case["theta"] + [[case["out"]] * case["L"]]
    theta = theta_t(rows)
    pick = sorted({0, 1, len(rows) // 2, len(rows) - 2, len(rows) - 1})
    can = not any(d["t"] == "link" and d["method"] == "neuralnet" for d in case["scales"])      # no inverse offered
    for k in range(case["calls"]):
        m.transform_theta(theta[:k + 1].clone())
        m.theta_transform_jacobian(theta[:k + 1].clone())
        if can:
            m.inverse_transform_theta(theta[:k + 1].clone())

    def arg():
        t = layout(theta.clone())
        return t.requires_grad_(True) if case["grad"] else t
    fwd = m.transform_theta(arg()).detach()
    jac = m.theta_transform_jacobian(arg()).detach()
    inv = m.inverse_transform_theta(arg()).detach() if can else None
    for r in pick:
        one = torch.tensor([rows[r]], dtype=torch.get_default_dtype()) / 10
        close(fwd[r:r + 1], twin.transform_theta(one.clone()).detach(), f"transformed theta of respondent {r} of {len(rows)}", rtol=1e-4, atol=1e-4)
        close(jac[r:r + 1], twin.theta_transform_jacobian(one.clone()).detach(), f"Jacobian of respondent {r} of {len(rows)}", rtol=1e-3, atol=1e-3)
        if inv is not None:
            close(inv[r:r + 1], twin.inverse_transform_theta(one.clone()).detach(), f"inverse of respondent {r} of {len(rows)}", rtol=1e-3, atol=1e-3)
