from ..gen import *

prop = Property("C07", ["mixed models are judged through their components; non-correct options of multiple-choice models are not monotone"])
KINDS = ["1PL", "2PL", "3PL", "GRM", "GPC", "MNN", "MPOLY", "MBS", "NEST"]


@st.composite
def mono_st(draw, vmax=25):
    c = draw(case_st(kinds=KINDS, max_n=2, vmax=vmax, lo=-40, hi=40))
    if c["m"]["k"] == "NEST" and c["m"]["corr"]["k"] not in KINDS:
        c["m"]["corr"]["k"] = "2PL"
    c["var"] = draw(ints(0, c["m"]["L"] - 1))
    c["steps"] = sorted(draw(st.lists(ints(-80, 80), min_size=2, max_size=6, unique=True)))
    return c


def path(case):
    theta = theta_t(case["theta"])
    out = []
    for r in theta:
        t = r.repeat(len(case["steps"]), 1)
        t[:, case["var"]] = theta_t(case["steps"])
        out.append(t)
    return torch.stack(out)          # (rows, steps, L)


def check(case, tol):
    s = case["m"]
    m = lived(build(s), case)
    p_ = path(case)
    l = case["var"]
    with torch.no_grad():
        dirs = m.item_theta_relationship_directions(p_[0])
    true(tuple(dirs.shape) == (len(cats_of(s)), s["L"]), "direction matrix shape", got=tuple(dirs.shape))
    mc = mc_of(s)
    for t in p_:
        p = probs_of(m, t)
        with torch.no_grad():
            e = m.expected_scores(t.clone())
        for i, c in enumerate(cats_of(s)):
            sign = int(dirs[i, l].sign())
            curves = {"expected score": e[:, i]}
            if mc is None:
                for k in range(1, c):
                    curves[f"P(X >= {k})"] = p[:, i, k:c].sum(dim=1)
            else:
                curves["P(correct)"] = p[:, i, mc[i]]
            for name, y in curves.items():
                d = (y[1:] - y[:-1])
                if sign == 0:
                    true((d.abs() <= tol).all(), f"{name} of item {i} changes with variable {l} although the reported direction is zero", curve=y)
                else:
                    true((d * sign >= -tol).all(), f"{name} of item {i} is not monotone in variable {l} in the reported direction {sign}", curve=y, theta=t[:, l])


NT = lambda c: rich(c) and len(c["steps"]) > 2


@prop.facet("monotone64", mono_st(), 2400, 30000, NT, dtype="float64")
def monotone64(case):
    """along a random increasing path of one latent variable (others fixed) expected score and every P(X>=k), or P(correct), move with the reported sign; non-trivial: 3+ steps, non-zero parameters"""
    check(case, 1e-9)


@prop.facet("monotone32", mono_st(), 800, 8000, NT)
def monotone32(case):
    """the same in single precision"""
    check(case, 3e-5)


@prop.facet("steep64", mono_st(120), 800, 10000, NT, dtype="float64")
def steep64(case):
    """the same with parameters of up to 12 either way: steep and nearly flat curves"""
    check(case, 1e-9)


@st.composite
def slopes_st(draw):
    c = draw(case_st(kinds=["1PL", "2PL", "3PL", "GRM", "GPC"], max_n=2, masks=False))
    return c


@prop.facet("sign_of_slope", slopes_st(), 600, 6000, rich, dtype="float64")
def sign_of_slope(case):
    """for logistic, graded and partial credit models the reported direction is the sign of the reported slope and the score moves strictly that way"""
    s = case["m"]
    m = build(s)
    dirs = m.item_theta_relationship_directions(theta_t(case["theta"]))
    cols = [c for c in m.item_parameters().columns if str(c).startswith("a")]
    slopes = torch.tensor(m.item_parameters()[cols].to_numpy().astype(float)) if s["k"] != "1PL" else torch.ones(len(cats_of(s)), 1, dtype=torch.float64)
    true(slopes.shape == dirs.shape, "slopes and directions", slopes=slopes, dirs=dirs)
    exact(dirs.double().sign(), slopes.sign(), "reported directions vs reported slopes")
    theta = theta_t(case["theta"]).clamp(-1, 1)
    for l in range(s["L"]):
        up = theta.clone(); up[:, l] += 0.5
        with torch.no_grad():
            d = m.expected_scores(up) - m.expected_scores(theta)
        for i in range(len(cats_of(s))):
            if abs(float(slopes[i, l])) > 0.05:
                true((d[:, i] * slopes[i, l].sign() > -1e-15).all(), f"item {i} does not move with the sign of its slope", d=d[:, i], slope=slopes[i, l])
