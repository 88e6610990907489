from ..gen import *

prop = Property("C06", ["angles are in degrees, one per latent variable; directional information is only asked for with two or more latent variables"])


def jac(m, theta):
    """Slopes of the item probabilities (n, items, cats, L), one backward pass per entry."""
    t = theta.clone().requires_grad_(True)
    p = m.item_probabilities(t)
    out = torch.zeros(*p.shape, theta.shape[1], dtype=theta.dtype)
    for i in range(p.shape[1]):
        for k in range(p.shape[2]):
            if p[:, i, k].requires_grad:
                g, = torch.autograd.grad(p[:, i, k].sum(), t, retain_graph=True, allow_unused=True)
                if g is not None:
                    out[:, i, k] = g
    return p.detach(), out


def info_oracle(m, s, theta):
    p, g = jac(m, theta)
    n, I, _ = p.shape
    L = theta.shape[1]
    out = torch.zeros(n, I, L, L, dtype=p.dtype)
    small = False
    for i, c in enumerate(cats_of(s)):
        for k in range(c):
            q = p[:, i, k]
            small = small or bool((q < 1e-200).any())
            out[:, i] += (g[:, i, k].unsqueeze(2) * g[:, i, k].unsqueeze(1)) / q.view(-1, 1, 1)
    return out, small


@prop.facet("matrix", crowded(case_st(max_n=3, vmax=20, lo=-30, hi=30), one_in=60), 1500, 16000, rich, dtype="float64")
def matrix(case):
    """item information vs sum of slope products over probabilities; symmetric, positive semidefinite; test information is the sum"""
    s = case["m"]
    m, theta = lived(build(s), case), layout(theta_t(case["theta"]) + 0.0317)
    want, small = info_oracle(m, s, theta)
    if small:
        return
    got = m.information(theta.clone())
    scale = float(want.abs().max()) if want.numel() else 0.0
    close(got, want, "item information", rtol=1e-6, atol=1e-9 * (1 + scale))
    tot = m.information(theta.clone(), item=False)
    close(tot, want.sum(dim=1), "test information", rtol=1e-6, atol=1e-9 * (1 + scale))
    close(got, got.transpose(2, 3), "information is not symmetric", rtol=1e-9, atol=1e-12 * (1 + scale))
    true((torch.linalg.eigvalsh(got) >= -1e-8 * (1 + scale)).all(), "information is not positive semidefinite", info=got)


@st.composite
def dir_st(draw):
    L = draw(ints(2, 3))
    c = draw(case_st(max_n=3, vmax=15, lo=-30, hi=30, L=L, kinds=[k for k in ALL if k != "1PL"]))
    c["deg"] = [draw(ints(0, 360)) for _ in range(L)]
    return c


@prop.facet("directional", dir_st(), 800, 9000, lambda c: rich(c) and len(set(c["deg"])) > 1)
def directional(case):
    """directional information vs the quadratic form with the direction cosines; non-trivial: different angles"""
    import math
    s = case["m"]
    m, theta = lived(build(s), case), layout(theta_t(case["theta"]) + 0.0317)
    info = m.information(theta.clone()).double()
    a = torch.tensor([math.cos(math.radians(d)) for d in case["deg"]], dtype=torch.float64)
    want = torch.stack([torch.stack([a @ info[r, i] @ a for i in range(info.shape[1])]) for r in range(info.shape[0])])
    scale = float(info.abs().max())
    got = m.information(theta.clone(), degrees=list(case["deg"]))
    close(got, want, "directional item information", rtol=1e-4, atol=1e-5 * (1 + scale))
    close(m.information(theta.clone(), item=False, degrees=list(case["deg"])), want.sum(dim=1), "directional test information", rtol=1e-4, atol=3e-5 * (1 + scale))


@prop.facet("standard_errors", case_data_st(min_n=1, max_n=3, vmax=15, kinds=[k for k in ALL], max_L=2), 200, 3000, rich)
def standard_errors(case):
    """standard errors of ML scores vs the inverse square roots of the diagonal test information at the scores"""
    s = case["m"]
    m, data = build(s), data_t(case["data"], "mixed")
    theta, se = m.latent_scores(data, standard_errors=True, theta_estimation="ML")
    m64 = build(s).double()
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    try:
        want, small = info_oracle(m64, s, theta.double())
    finally:
        torch.set_default_dtype(old)
    d = torch.einsum("nii->ni", want.sum(dim=1))
    true(tuple(se.shape) == tuple(theta.shape), "standard error shape", got=tuple(se.shape))
    ok = (d > 1e-4) & (theta.abs().amax(dim=1, keepdim=True) < 6)
    if small or not bool(ok.any()):
        return
    close(se[ok], d[ok].rsqrt(), "ML standard error", rtol=2e-2, atol=1e-4)
