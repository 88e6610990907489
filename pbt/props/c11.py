from ..gen import *

prop = Property("C11", ["beyond the range covered by the grid (-7 to 7, or the non-outlying range of the population) entropy changes may be counted in one jump, so that only the bounds of the score are judged there",
                        "agreement is up to the grid resolution: the reported score lies between the change accumulated with the grid's first jump and the total variation, with a small allowance"])
KINDS = ["2PL", "3PL", "GRM", "GPC", "NRM", "MNN", "MBS", "SURP", "MIX", "NEST"]
DENSE = 3001


def entropies(m64, grid):
    """Item entropies in bits, from the probabilities (double precision)."""
    with torch.no_grad(), dflt(torch.float64):
        p = m64.item_probabilities(grid)
    return torch.where(p > 0, -p * torch.log2(p.clamp_min(1e-300)), torch.zeros_like(p)).sum(dim=2)


def tv(H):
    return (H[1:] - H[:-1]).abs().sum(dim=0)


def ends(c):
    return sorted({round(x, 6) for x in c})


@st.composite
def bit_st(draw, kinds=KINDS, max_L=3, pop=None):
    s = draw(spec_st(kinds, max_L=max_L, max_items=3, vmax=15))
    L, n = s["L"], len(cats_of(s))
    c = {"m": s, "theta": draw(theta_st(L, 1, 4, -65, 65))}
    c["items"] = sorted(draw(st.sets(ints(0, n - 1), min_size=1))) if draw(st.booleans()) else None
    c["start"] = [draw(ints(-40, 40)) for _ in range(L)] if draw(st.booleans()) else None
    if (draw(st.booleans()) if pop is None else pop):
        c["pop"] = draw(theta_st(L, 5, 8, -30, 30))
    return c


def make(case, m, **kw):
    from irtorch.rescale import Bit
    if case["start"] is not None:
        kw["start_theta"] = torch.tensor(case["start"]) / 10.0
    if case.get("pop"):
        kw["population_theta"] = theta_t(case["pop"])
    kw.setdefault("items", case["items"])
    return Bit(m, grid_points=2000, **kw)


def multiplier(m):
    L = m.latent_variables
    sign = torch.ones(L, dtype=torch.float64)
    for l in range(L):
        t = torch.zeros(2, L); t[0, l], t[1, l] = -1.0, 1.0
        with torch.no_grad():
            e = m.expected_scores(t).sum(dim=1).double()
        if abs(float(e[0] - e[1])) < 1e-4:
            return None             # direction not defined to single precision
        if e[0] > e[1]:
            sign[l] = -1.0
    return sign


def setup(case):
    m = build(case["m"])
    with dflt(torch.float64):
        m64 = build(case["m"])
    return m, m64, multiplier(m)


def bounds(case, m64, sign, theta):
    """Lower and upper reference of every bit score: entropy changes skipped in the grid's first jump and beyond its end, and all of them."""
    L = len(sign)
    start = sign * torch.tensor(case["start"]).double() / 10 if case["start"] is not None else torch.full((L,), -10000.0, dtype=torch.float64)
    adj = torch.maximum(theta.double() * sign, start)
    if case.get("pop"):
        pop = torch.maximum(torch.tensor(case["pop"]).double() / 10 * sign, start)
        med = pop.sort(dim=0).values[(pop.shape[0] - 1) // 2]
        q1, q3 = torch.quantile(pop, 0.25, dim=0), torch.quantile(pop, 0.75, dim=0)
        lo_f, hi_f = q1 - 4 * (q3 - q1), q3 + 4 * (q3 - q1)
        inner = (pop >= lo_f) & (pop <= hi_f)
        hi = torch.where(inner, pop, torch.full_like(pop, -1e9)).max(dim=0).values
        lo = torch.where(inner, pop, torch.full_like(pop, 1e9)).min(dim=0).values
    else:
        med = torch.zeros(L, dtype=torch.float64)
        lo, hi = torch.full((L,), -7.0, dtype=torch.float64), torch.full((L,), 7.0, dtype=torch.float64)
    items = case["items"] if case["items"] is not None else list(range(len(cats_of(case["m"]))))
    out = []
    for r in range(theta.shape[0]):
        row = []
        for l in range(L):
            x, a = float(adj[r, l]), float(start[l])
            end = float(hi[l])
            g0 = min(max(a, float(lo[l])), x)
            dense = torch.linspace(g0, x, DENSE, dtype=torch.float64)
            jump = torch.linspace(g0, max(g0, end), DENSE, dtype=torch.float64) if end < x else dense
            first = torch.cat([torch.tensor([a], dtype=torch.float64), jump, torch.tensor([x], dtype=torch.float64)])
            near = max(a, -30.0)
            pre = torch.linspace(near, g0, DENSE, dtype=torch.float64) if near < g0 else torch.tensor([g0], dtype=torch.float64)
            full = torch.cat([torch.tensor([a], dtype=torch.float64), pre, dense])
            vals = []
            for g in (first, full):
                pts = med.repeat(len(g), 1); pts[:, l] = g
                vals.append(float(tv(entropies(m64, pts * sign)[:, items]).sum()))
            row.append(vals)
        out.append(row)
    return out, len(items)


def nontriv(c):
    return rich(c) and (c["items"] is not None or c["start"] is not None or bool(c.get("pop")))


@prop.facet("values", bit_st(), 350, 5000, nontriv, shard_min=25)
def values(case):
    """bit scores vs the total variation of item entropies on a dense grid in double precision; non-trivial: items, start or population chosen"""
    m, m64, sign = setup(case)
    if sign is None:
        return
    theta = theta_t(case["theta"])
    keep = theta.clone()
    got = make(case, m).transform(theta)
    exact(theta, keep, "bit scores changed the caller's theta")
    true(tuple(got.shape) == tuple(theta.shape), "bit score shape", got=tuple(got.shape))
    ref, k = bounds(case, m64, sign, theta)
    for r, row in enumerate(ref):
        for l, (lo, hi) in enumerate(row):
            tol = 0.01 * k + 0.01 * hi
            true(lo - tol <= float(got[r, l]) <= hi + tol, f"bit score {float(got[r, l])} outside [{lo}, {hi}] of respondent {r}, latent variable {l}")


@prop.facet("structure", bit_st(), 300, 4000, nontriv, shard_min=25)
def structure(case):
    """zero at or below the start, never decreasing, additive over disjoint items, independent of the other respondents"""
    m, _, sign = setup(case)
    if sign is None:
        return
    n = len(cats_of(case["m"]))
    b = make(case, m)
    theta = theta_t(case["theta"])
    if case.get("pop"):
        pop = theta_t(case["pop"])
        theta = torch.minimum(torch.maximum(theta, pop.min(dim=0).values), pop.max(dim=0).values)
    got = b.transform(theta)
    tol = 0.01 * n
    true((got >= 0).all(), "negative bit score", got=got)
    for r in range(theta.shape[0]):
        close(b.transform(theta[r:r + 1]), got[r:r + 1], "bit score of a respondent transformed alone", rtol=0.02, atol=2 * tol)
    if case["start"] is not None:
        start = torch.tensor(case["start"]) / 10.0
        close(b.transform(start.view(1, -1)), torch.zeros(1, len(start)), "bit score at the start", atol=1e-5)
        below = (start - 0.7 * sign.float()).view(1, -1)
        close(b.transform(below), torch.zeros(1, len(start)), "bit score below the start", atol=1e-5)
    order = theta * sign.float()
    for i in range(len(theta)):
        for j in range(len(theta)):
            for l in range(theta.shape[1]):
                if order[i, l] <= order[j, l]:
                    true(float(got[i, l]) <= float(got[j, l]) + 1e-4, "bit score decreases in the direction of increasing scores", a=theta[i], b=theta[j], got=got)
    parts = torch.zeros_like(got)
    items = case["items"] if case["items"] is not None else list(range(n))
    for i in items:
        parts = parts + make(case, m, items=[i]).transform(theta)
    close(parts, got, "sum of the items' bit scores", rtol=1e-3, atol=1e-3 * n)


@prop.facet("jacobian", bit_st(max_L=1), 400, 6000, nontriv)
def jac1(case):
    """the one-dimensional Jacobian above the start vs the summed absolute slopes of the item entropies (signed by direction)"""
    m, m64, sign = setup(case)
    if sign is None:
        return
    theta = theta_t(case["theta"]) + 0.0123
    if len(theta) == 3:         # many respondents
        theta = torch.cat([theta, theta.repeat(30, 1) + 0.017 * torch.arange(90).view(-1, 1)])
    theta = layout(theta)
    start = case["start"][0] / 10 if case["start"] is not None else -10000.0 * float(sign[0])
    ok = (theta[:, 0].double() - start) * sign[0] > 1e-3
    items = case["items"] if case["items"] is not None else list(range(len(cats_of(case["m"]))))
    b = make(case, m)
    got = b.jacobian(theta)
    true(tuple(got.shape) == (theta.shape[0], 1, 1), "Jacobian shape", got=tuple(got.shape))
    h = 1e-4
    t = theta.double()
    Hp, H0, Hm = [entropies(m64, t + d)[:, items] for d in (h, 0.0, -h)]
    smooth = ((Hp - 2 * H0 + Hm).abs() / h).sum(dim=1) < 1e-2
    want = sign[0] * ((Hp - Hm) / (2 * h)).abs().sum(dim=1)
    use = ok & smooth
    close(got[use, 0, 0], want[use], "bit score slope", rtol=5e-3, atol=2e-3)
    with torch.no_grad():
        m.add_scale_transformation(b)
        close(m.theta_transform_jacobian(theta)[use, 0, 0], want[use], "chain Jacobian of a bit scale", rtol=5e-3, atol=2e-3)
        exact(m.transform_theta(theta), b.transform(theta), "transformed theta of a bit scale")


@prop.facet("one_dimensional", bit_st(kinds=[k for k in KINDS], max_L=3, pop=False), 150, 2500, lambda c: nontriv(c) and c["m"]["L"] > 1, shard_min=20)
def to_1d(case):
    """one-dimensional scores of multidimensional models vs the entropy change accumulated along the straight line of the grid; equal the scores themselves for one latent variable"""
    from irtorch.rescale import Bit
    m, m64, sign = setup(case)
    if sign is None:
        return
    theta = theta_t(case["theta"])
    b = make(case, m)
    got = b.transform_to_1D(theta)
    if theta.shape[1] == 1:
        exact(got, b.transform(theta), "1D scores of a one-dimensional model")
        return
    true(tuple(got.shape) == (theta.shape[0], 1), "1D bit score shape", got=tuple(got.shape))
    L = theta.shape[1]
    start = sign * torch.tensor(case["start"]).double() / 10 if case["start"] is not None else torch.full((L,), -10000.0, dtype=torch.float64)
    adj = torch.maximum(theta.double() * sign, start)
    items = case["items"] if case["items"] is not None else list(range(len(cats_of(case["m"]))))
    for r in range(theta.shape[0]):
        g = -7 + torch.linspace(0, 1, 4001, dtype=torch.float64).view(-1, 1) * (adj[r] + 7)
        g = torch.maximum(g, start)
        g = torch.cat([start.view(1, -1), g])
        want = float(tv(entropies(m64, g * sign)[:, items]).sum())
        close(float(got[r, 0]), want, "1D bit score", rtol=0.01, atol=0.01 * len(items))


@st.composite
def guess_st(draw):
    s = draw(spec_st(["NRM", "MNN", "NEST"], mc=True, max_L=2, max_items=4, vmax=15))
    n = len(s["cats"])
    items = sorted(draw(st.sets(ints(0, n - 1), min_size=1))) if draw(st.booleans()) else None
    k = len(items) if items else n
    return {"m": s, "items": items, "guess": [draw(ints(0, 9)) for _ in range(k)] if draw(st.booleans()) else None, "rows": draw(theta_st(s["L"], 5, 9))}


@prop.facet("guessing_start", guess_st(), 120, 2000, lambda c: c["items"] is not None)
def guessing(case):
    """the start from guessing is the median of the scores of guessed responses to the selected items only, on the theta scale; non-trivial: item subset"""
    from unittest import mock
    from irtorch.rescale import Bit, Reverse
    m = build(case["m"])
    m.add_scale_transformation(Reverse([True] * m.latent_variables))
    rows, seen = theta_t(case["rows"]), {}
    n = len(case["m"]["cats"])

    def scores(data, *a, rescale=True, **kw):
        seen["data"] = data.clone()
        th = rows.repeat((len(data) + len(rows) - 1) // len(rows), 1)[:len(data)]
        return m.transform_theta(th) if rescale else th
    b = Bit(m)
    kw = {"guessing_iterations": len(rows) * 40}
    if case["items"] is not None:
        kw["items"] = list(case["items"])
    g = [x / 10 for x in case["guess"]] if case["guess"] is not None else None
    if g is not None:
        kw["guessing_probabilities"] = g
    with mock.patch.object(m, "latent_scores", scores):
        b.bit_score_starting_theta_mc(**kw)
    items = case["items"] or list(range(n))
    data = seen["data"]
    true(tuple(data.shape) == (kw["guessing_iterations"], n), "guessed data shape", got=tuple(data.shape))
    for i in range(n):
        col = data[:, i]
        if i not in items:
            true((col.isnan() | (col == -1)).all(), f"item {i} is not selected but has responses")
            continue
        c, k = case["m"]["cats"][i], case["m"]["mc"][i]
        true(((col >= 0) & (col < c) & (col == col.round())).all(), "guessed responses outside the item's categories", col=col)
        p = g[items.index(i)] if g is not None else 1 / c
        N = len(col)
        true(abs(float((col == k).float().mean()) - p) <= 6 * (p * (1 - p) / N) ** 0.5 + 1e-9, f"share of correct guesses of item {i} differs from {p}", share=float((col == k).float().mean()))
    want = rows.sort(dim=0).values[(len(rows) - 1) // 2]
    m.detach_scale_transformations()
    close(b.transform(want.view(1, -1)), torch.zeros(1, len(want)), "bit score at the guessing start", atol=1e-5)
    ref = Bit(m, start_theta=want)
    probe = torch.cat([rows, rows + 1, rows - 1])
    exact(b.transform(probe), ref.transform(probe), "bit scores from the guessing start")
