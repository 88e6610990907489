from ..gen import *

prop = Property("C02", ["graded response thresholds are generated in the model's admissible (ordered) region"])
KINDS = ["1PL", "2PL", "3PL", "GRM", "GPC", "NRM"]


def sig(x):
    return 1 / (1 + np.exp(-x))


def documented(kind, df, cats, L, th, irt=False):
    """The documented response function evaluated at the reported item parameters."""
    C = max(cats)
    P = np.zeros((th.shape[0], len(cats), C))
    for j, c in enumerate(cats):
        row = df.iloc[j]
        if kind == "NRM":
            z = np.stack([th @ np.array([row[f"a{l+1}{m+1}"] for l in range(L)], dtype=float) + row[f"d{m+1}"] for m in range(c)], axis=1)
            z = z - z.max(axis=1, keepdims=True)
            P[:, j, :c] = np.exp(z) / np.exp(z).sum(axis=1, keepdims=True)
            continue
        a = np.ones(1) if kind == "1PL" else np.array([row[f"a{l+1}"] for l in range(L)], dtype=float)
        lin = th @ a
        if kind in LOGISTIC:
            z = a[0] * (th[:, 0] - row["b"]) if irt else lin + row["d"]
            p = sig(z)
            if kind == "3PL":
                p = row["c"] + (1 - row["c"]) * p
            P[:, j, 0], P[:, j, 1] = 1 - p, p
        elif kind == "GRM":
            geq = np.ones((th.shape[0], c + 1)); geq[:, c] = 0
            for x in range(1, c):
                geq[:, x] = sig(a[0] * (th[:, 0] - row[f"b{x}"]) if irt else lin + row[f"d{x}"])
            P[:, j, :c] = geq[:, :c] - geq[:, 1:]
        elif kind == "GPC":
            z = np.zeros((th.shape[0], c))
            for x in range(1, c):     # reported d1 belongs to score 0 and is zero; b1 to score 1
                step = a[0] * (th[:, 0] - row[f"b{x}"]) if irt else lin + row[f"d{x+1}"]
                z[:, x] = z[:, x - 1] + step
            z = z - z.max(axis=1, keepdims=True)
            P[:, j, :c] = np.exp(z) / np.exp(z).sum(axis=1, keepdims=True)
    return P


def one(case, tol):
    s = case["m"]
    m, th = dress(lived(build(s), case), case), theta_t(case["theta"])
    df = m.item_parameters()
    cats, L, k = cats_of(s), s["L"], s["k"]
    true(len(df) == len(cats), "one row of reported parameters per item", got=len(df))
    true(np.isfinite(df.to_numpy(dtype=float)).all(), "reported parameters not finite", got=df.to_numpy())
    if k == "GPC":
        true((df["d1"].to_numpy() == 0).all(), "bias of score zero is not zero", got=df["d1"].to_numpy())
    if k == "3PL":
        true(((df["c"] > 0) & (df["c"] < 1)).all(), "guessing outside (0,1)")
    if k == "NRM":
        for l in range(L):
            close(df[[f"a{l+1}{x+1}" for x in range(max(cats))]].to_numpy(dtype=float).sum(1), np.zeros(len(cats)), "nominal slopes do not sum to zero", atol=1e-5)
        close(df[[f"d{x+1}" for x in range(max(cats))]].to_numpy(dtype=float).sum(1), np.zeros(len(cats)), "nominal intercepts do not sum to zero", atol=1e-5)
    if s.get("mask"):
        for j, row in enumerate(s["mask"]):
            for l, rel in enumerate(row):
                cols = [f"a{l+1}{x+1}" for x in range(max(cats))] if k == "NRM" else [f"a{l+1}"]
                if not rel:
                    true((df.iloc[j][cols].to_numpy(dtype=float) == 0).all(), "weight on an unrelated latent variable", item=j, latent=l)
    P = documented(k, df, cats, L, th.double().numpy())
    close(probs_of(m, th), P, f"{k} probabilities differ from the documented response function", rtol=0, atol=tol)


@prop.facet("float32", case_st(KINDS), 1500, 30000, rich)
def f32(case):
    """single precision: probabilities equal the documented function of the reported parameters (2e-5)"""
    one(case, 3e-5)


@prop.facet("float64", case_st(KINDS), 1500, 30000, rich, dtype="float64")
def f64(case):
    """double precision (1e-9)"""
    one(case, 1e-7)


@prop.facet("irt_format", case_st(["2PL", "3PL", "GRM", "GPC"], L=1, masks=False), 800, 10000, rich, dtype="float64")
def irt_format(case):
    """unidimensional models in difficulty format: a(theta - b)"""
    s = case["m"]
    m = build(s)
    with torch.no_grad():
        w = m.weight_param
        w.copy_(torch.where(w.abs() < 0.05, torch.full_like(w, [0.3, 0.004, -0.007][len(case["theta"]) % 3]), w))
    th = theta_t(case["theta"])
    df = m.item_parameters(irt_format=True)
    P = documented(s["k"], df, cats_of(s), 1, th.double().numpy(), irt=True)
    close(probs_of(m, th), P, f"{s['k']} probabilities differ from the documented function of the IRT-format parameters", rtol=0, atol=1e-6)
    d0 = m.item_parameters()
    close(df["a1"].to_numpy(dtype=float), d0["a1"].to_numpy(dtype=float), "slopes differ between formats")


@prop.facet("set_parameters", case_st(KINDS), 800, 10000, rich)
def set_parameters(case):
    """the free values put in the parameters come back as reported parameters, item by item, latent variable by latent variable, score by score"""
    s = case["m"]
    m = build(s)
    df, cats, L, k = m.item_parameters(), cats_of(s), s["L"], s["k"]
    mask = s.get("mask") or [[True] * L for _ in cats]
    rows = df.to_dict("records")
    if hasattr(m, "weight_param"):
        if k == "NRM":
            want = [(j, f"a{l+1}{x+1}") for j, c in enumerate(cats) for x in range(1, c) for l in range(L) if mask[j][l]]
        else:
            want = [(j, f"a{l+1}") for j in range(len(cats)) for l in range(L) if mask[j][l]]
        got = np.array([rows[j][n] for j, n in want])
        close(np.sort(got), np.sort(m.weight_param.detach().numpy()), "reported weights are not the free weights")
        if len(set(np.round(got, 6))) == len(got):
            close(got, m.weight_param.detach().numpy(), "reported weights are in another order than the free weights")


NEST = case_st(["NEST"], max_items=3)


@prop.facet("nested", NEST, 600, 10000, rich, dtype="float64")
def nested(case):
    """nested logit: the correct option has the correct-response model's probability; for the nominal variant the log-odds between incorrect options are the nominal model's"""
    s = case["m"]
    m, th = build(s), theta_t(case["theta"])
    p = probs_of(m, th).numpy()
    pc = probs_of(m.correct_response_model, th).numpy()
    for j, c in enumerate(s["cats"]):
        close(p[:, j, s["mc"][j]], pc[:, j, 1], "probability of the correct option", atol=1e-9, rtol=0)
    if s["opt"]["inc"] != "nominal":
        return
    nrm = m.nominal_response_model
    inc_cats = [c - 1 for c in s["cats"]]
    P = documented("NRM", nrm.item_parameters(), inc_cats, s["L"], th.double().numpy())
    for j, c in enumerate(s["cats"]):
        opts = [x for x in range(c) if x != s["mc"][j]]
        close(p[:, j, opts], P[:, j, :c - 1] * pc[:, j, :1], "probabilities of the incorrect options", atol=1e-7, rtol=0)


FLEX = case_st(["MBS", "SURP", "MPOLY", "MNN", "NEST"], max_n=1, lo=-20, hi=20, vmax=20)


def log_curves(p, s, j):
    """The log-odds (surprisals for the surprisal model) of item j that the documented functions act on: rows are thetas."""
    c, q = s["cats"][j], np.asarray(p[:, j, :s["cats"][j]])
    if s["k"] == "SURP":
        cum = q.cumsum(1)
        return [-np.log(cum[:, m - 1] / cum[:, m]) for m in range(1, c)]
    if s["k"] == "NEST":
        wrong = [k for k in range(c) if k != s["mc"][j]]
        return [np.log(q[:, k] / q[:, wrong[0]]) for k in wrong[1:]]
    return [np.log(q[:, k] / q[:, 0]) for k in range(1, c)]


def design(s, t):
    """Columns spanning the documented function space in one latent variable, or None when it is not a finite-dimensional one."""
    from scipy.interpolate import BSpline
    o = s["opt"]
    if s["k"] == "MPOLY":
        return np.polynomial.chebyshev.chebvander(t / 4, o["degree"])
    if s["k"] == "MNN" or (s["k"] == "NEST" and o["inc"] == "nominal"):
        return np.stack([np.ones_like(t), t], 1) if s["k"] == "NEST" else None
    d = o["degree"]
    knots = sig(np.array([x / 10 for x in o["knots"]] if o.get("knots") else [-1.7, -0.7, 0, 0.7, 1.7]))
    return BSpline.design_matrix(sig(t), np.r_[np.zeros(d + 1), np.sort(knots), np.ones(d + 1)], d).toarray()


@prop.facet("structure", st.tuples(FLEX, ints(0, 9999)).map(lambda t: dict(t[0], seed=t[1])), 600, 9000, lambda c: max(c["m"]["cats"]) > 2, dtype="float64")
def structure(case):
    """spline, polynomial and network models: log-odds (surprisals) lie in the span of the documented splines or polynomials, add up over latent variables, and are multiples of one function when categories share it; non-trivial: more than two categories"""
    s = case["m"]
    m, L = build(s), s["L"]
    g = torch.Generator().manual_seed(case["seed"])
    with torch.no_grad():
        for q in m.parameters():
            q.copy_((0.2 + 0.6 * torch.rand(q.shape, generator=g, dtype=torch.float64)) * torch.where(torch.rand(q.shape, generator=g) < 0.5, -1.0, 1.0))
    base = theta_t(case["theta"])[:1]
    gaps = np.diff(sig(np.array(sorted(s["opt"].get("knots") or [-17, 17])) / 10.0))       # the model holds its knots in single precision
    slack = 3e-6 + 5e-7 / min([1.0, *gaps])
    t = np.linspace(-4, 4, 61)

    def curves(l, b):
        th = b.repeat(len(t), 1)
        th[:, l] = torch.tensor(t)
        return probs_of(m, th).double().numpy()
    for l in range(L):
        D, p = design(s, t), curves(l, base)
        b2 = base.clone()
        b2[:, (l + 1) % L] += 1.3
        p2 = curves(l, b2) if L > 1 else None
        for j, c in enumerate(s["cats"]):
            if p[:, j, :c].min() < 1e-250 or (p2 is not None and p2[:, j, :c].min() < 1e-250):
                continue
            Y = log_curves(p, s, j)
            if not all(np.isfinite(y).all() for y in Y):
                continue
            Y2 = log_curves(p2, s, j) if p2 is not None else None
            for k, y in enumerate(Y):
                tol = 1e-6 * (1 + np.abs(y).max())
                if D is not None:
                    r = y - D @ np.linalg.lstsq(D, y, rcond=None)[0]
                    true(np.abs(r).max() < slack * (1 + np.abs(y).max()), f"curve {k} of item {j} is not in the documented function space along variable {l}", residual=float(np.abs(r).max()), size=float(np.abs(y).max()))
                if Y2 is not None:
                    d = Y2[k] - y
                    true(d.max() - d.min() < tol, f"curve {k} of item {j} does not add up over the latent variables", range=float(d.max() - d.min()))
            if s["k"] in ("MBS", "MPOLY", "MNN") and s["opt"]["separate"] == "items":
                if s.get("mc") is not None:     # one function for all incorrect options
                    wrong = [k for k in range(c) if k != s["mc"][j]]
                    Z = [np.log(p[:, j, k] / p[:, j, wrong[0]]) for k in wrong[1:]]
                else:
                    Z = [y - (k + 1) * Y[0] for k, y in enumerate(Y)]
                for z in Z:
                    true(z.max() - z.min() < 1e-6 * (1 + max(np.abs(y).max() for y in Y)), f"categories of item {j} do not share their function of variable {l}")
