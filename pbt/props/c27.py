from ..gen import *

prop = Property("C27", [
    "of points drawn at the lowest value of the axis (scales that map every theta beyond a point to it) the plot may keep any non-empty part at the ends of a curve",
    "surfaces are compared up to transposition of the grid",
    "slopes and information are drawn where the Jacobian of the scale is not singular",
])
QUANT = ["prob", "slope", "entropy", "information", "expected", "loglik", "loglik_sum"]


@st.composite
def plot_st(draw, kinds=("rev", "rot"), quant=QUANT, min_scales=0, bit=False, items=None):
    q = draw(st.sampled_from(quant))
    wide = not bit and draw(ints(0, 4)) == 4
    s = draw(spec_st(ALL if items is None else BASIC, vmax=20, items=items and draw(ints(*items)), max_items=6 if wide else 3, L=1 if bit and draw(st.booleans()) else 4 if wide and draw(st.booleans()) else None))
    L = s["L"]
    n = len(cats_of(s))
    two = L > 1 and q != "slope" and q != "loglik_sum" and draw(st.booleans())
    lv = draw(st.permutations(range(1, L + 1)))[:2 if two else 1]
    rng = lambda: draw(st.one_of(st.none(), st.tuples(ints(-25, 0), ints(1, 25)).map(list)))
    c = {"m": s, "q": q, "lv": list(lv), "item": draw(ints(1, n)), "steps": draw(st.one_of(st.none(), *[ints(2, 4 if two else 8)] * 7)),
         "labels": draw(st.sampled_from([None, None, ["T", None, None], [None, "X", None], [None, None, "Y"], ["a b", "c", "d"]])),
         "range": rng(), "range2": rng() if two else None,
         "fixed": [draw(ints(-15, 15)) for _ in range(L - len(lv))] if draw(st.booleans()) else None,
         "train": draw(theta_st(L, 2, 5, -25, 25)) if draw(st.booleans()) else None,
         "items": draw(st.one_of(st.none(), st.lists(ints(1, n), min_size=1, max_size=n, unique=True)) if items is None else st.lists(ints(1, n), min_size=2, max_size=n, unique=True)),
         "scales": draw(scales_st(L, kinds, min_scales, 2)) if not bit else [{"t": "bit"}],
         "rescale": draw(st.sampled_from([True, False])), "gray": draw(st.booleans()),
         "deg": [draw(ints(0, 90)) for _ in range(L)],
         "data": draw(data_st(cats_of(s), 1))[0]}
    return c


def model_of(c):
    m = build(c["m"])
    if c["train"] is not None:
        a = irtorch.estimation_algorithms.MML()
        a.training_theta_scores = theta_t(c["train"])
        m.algorithm = a
    for d in c["scales"]:
        if d["t"] == "bit":
            from irtorch.rescale import Bit
            m.scale = list(m.scale) + [Bit(m, start_theta=torch.full((1, m.latent_variables), -1.0), grid_points=60)]
        else:
            m.scale = list(m.scale) + [build_scale(d, m)]
    return m


def steps_of(c, two):
    n = (25, 200) if c.get("q") in ("prob", "slope") else (18, 100)
    return c["steps"] or n[0 if two else 1]


def labelled(c, fig, two):
    """titles and axis labels given are shown; default titles name the item drawn"""
    lay = fig.layout
    ax = lay.scene if two else lay
    shown = [lay.title.text, ax.xaxis.title.text, ax.yaxis.title.text]
    for given, got, what in zip(c["labels"] or [None] * 3, shown, ("title", "label of the x-axis", "label of the y-axis")):
        true(given is None or got == given, f"{what} given is not shown", given=given, got=got)
    named = c["item"] if c["q"] in ("prob", "slope", "entropy") else c["items"][0] if c["q"] == "expected" and c["items"] is not None and len(c["items"]) == 1 else None
    if named is not None and not (c["labels"] and c["labels"][0]):
        true([int("".join(ch for ch in w if ch.isdigit())) for w in (shown[0] or "").split() if any(ch.isdigit() for ch in w)] == [named], "title names another item", title=shown[0], item=named)


def grid(c, m, two, rescale=None):
    """thetas drawn: equally spaced over the range given (on the plotted scale if that can be inverted), others fixed"""
    rescale = c["rescale"] if rescale is None else rescale
    L = m.latent_variables
    tr = rescale and len(m.scale) > 0 and all(s.invertible for s in m.scale)
    src = theta_t(c["train"]) if c["train"] is not None else torch.tensor([[-3.0], [0.0], [3.0]]).repeat(1, L)
    if tr:
        for s in m.scale:
            src = s.transform(src)
    lv = [v - 1 for v in c["lv"]]
    src = src.detach()
    steps = steps_of(c, two)
    def ends(r, l):
        return (r[0] / 10, r[1] / 10) if r is not None else (float(src[:, l].min()), float(src[:, l].max()))
    axes = [torch.linspace(*ends(c["range"], lv[0]), steps=steps)]
    if two:
        axes.append(torch.linspace(*ends(c["range2"], lv[1]), steps=steps))
    pts = torch.cartesian_prod(*axes).view(-1, len(lv))
    th = torch.zeros(len(pts), L)
    rest = [l for l in range(L) if l not in lv]
    for i, l in enumerate(rest):
        th[:, l] = c["fixed"][i] / 10 if c["fixed"] is not None else src[:, l].median()
    for i, l in enumerate(lv):
        th[:, l] = pts[:, i]
    given = th.clone()
    if tr:
        for s in reversed(m.scale):
            th = s.inverse(th)
    x = th
    if rescale:
        for s in m.scale:
            x = s.transform(x)
    return th.detach(), x.detach()[:, lv], given[:, lv] if tr else None


def curve(fig_x, fig_y, x, y, what, tol=2e-4):
    """the drawn points are the computed ones, except repeats of the lowest axis value at the ends"""
    fx, fy = np.asarray(fig_x, dtype=float), np.asarray(fig_y, dtype=float)
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if fx.shape != fy.shape or fx.ndim != 1:
        fail(f"{what}: {fx.shape} axis values for {fy.shape} values")
    lo = np.nanmin(x) if len(x) else 0
    low = np.isclose(x, lo, atol=1e-6)
    scale = max(1.0, float(np.nanmax(np.abs(y[np.isfinite(y)]))) if np.isfinite(y).any() else 1.0)
    best = None
    for a in range(len(x) - len(fx) + 1):
        b = a + len(fx)
        if not (low[:a].all() and low[b:].all()) or not low[a:b].any():
            continue
        ok = np.isclose(fx, x[a:b], rtol=1e-4, atol=1e-4, equal_nan=True) & np.isclose(fy, y[a:b], rtol=1e-3, atol=tol * scale, equal_nan=True)
        if ok.all():
            return
        best = (a, x[a:b], y[a:b])
    fail(f"{what}: drawn points are not the model's", drawn_x=fx, drawn_y=fy, x=x, y=y)


def surface(t, x, z, steps, what, tol=2e-4):
    X, Y, Z = (np.asarray(v, dtype=float) for v in (t.x, t.y, t.z))
    if not X.shape == Y.shape == Z.shape == (steps, steps):
        fail(f"{what}: surface of shape {X.shape}, {Y.shape}, {Z.shape}")
    x0, x1, z = (np.asarray(v, dtype=float).reshape(steps, steps) for v in (x[:, 0], x[:, 1], z))
    scale = max(1.0, float(np.nanmax(np.abs(z[np.isfinite(z)]))) if np.isfinite(z).any() else 1.0)
    for f in (lambda v: v, lambda v: v.T):
        if np.allclose(X, f(x0), rtol=1e-4, atol=1e-4) and np.allclose(Y, f(x1), rtol=1e-4, atol=1e-4) and np.allclose(Z, f(z), rtol=1e-3, atol=tol * scale, equal_nan=True):
            return
    fail(f"{what}: drawn surface is not the model's", X=X, Y=Y, Z=Z, x=x0, y=x1, z=z)


def values(c, m, th):
    """what the model / evaluator returns for the plotted quantity: (points, series)"""
    q, j, cats = c["q"], c["item"] - 1, cats_of(c["m"])
    sel = [i - 1 for i in c["items"]] if c["items"] is not None else list(range(len(cats)))
    with torch.no_grad():
        P = m.item_probabilities(th.clone())
    if q == "prob":
        return P[:, j, :cats[j]].numpy()
    if q == "slope":
        return m.probability_gradients(th.clone(), rescale=c["rescale"])[:, j, :cats[j], c["lv"][0] - 1].detach().numpy()
    if q == "entropy":
        p = P[:, j].double().numpy()
        return -(p * np.log2(np.where(p > 0, p, 1))).sum(1)
    if q == "information":
        return m.information(th.clone(), item=True, degrees=c["deg"] if m.latent_variables > 1 else None, rescale=c["rescale"]).detach().reshape(len(th), len(cats)).numpy()[:, sel].sum(1)
    mc = mc_of(c["m"])
    E = P[:, range(len(cats)), mc].numpy() if mc is not None else (P.numpy() * np.arange(P.shape[2])).sum(2)
    if q == "expected":
        return E[:, sel].sum(1)
    data = data_t([c["data"]]).repeat(len(th), 1)
    ll = m.evaluate.log_likelihood(data, th.clone(), reduction="none").detach().numpy()[:, sel]
    return np.nansum(ll, axis=1), E.sum(1)


def check(c):
    m = model_of(c)
    two = len(c["lv"]) == 2
    q = c["q"]
    th, x, given = grid(c, m, two)
    if not bool(torch.isfinite(th).all() and torch.isfinite(x).all()):
        return
    if q in ("slope", "information") and c["rescale"] and m.scale:
        if c["scales"][0]["t"] == "bit" and m.latent_variables > 1:
            return              # slopes on multidimensional bit scales are documented as not implemented
        if float(torch.linalg.svdvals(m.theta_transform_jacobian(th)).min()) < 1e-3:
            return
    kw = {"latent_variables": tuple(c["lv"]), "rescale": c["rescale"]}
    if c["steps"] is not None:
        kw["steps"] = c["steps"]
    kw.update({k: v for k, v in zip(("title", "x_label", "y_label"), c["labels"] or []) if v is not None})
    for k, v in (("theta_range", "range"), ("second_theta_range", "range2")):
        if c[v] is not None:
            kw[k] = tuple(i / 10 for i in c[v])
    if c["fixed"] is not None:
        kw["fixed_thetas"] = theta_t(c["fixed"])
    items = {"items": list(c["items"])} if c["items"] is not None else {}
    mc = mc_of(c["m"])
    if q in ("prob", "slope"):
        fig = m.plot.item_probabilities(c["item"], grayscale=c["gray"], plot_derivative=q == "slope", **kw)
    elif q == "entropy":
        fig = m.plot.item_entropy(c["item"], **kw)
    elif q == "information":
        fig = m.plot.information(degrees=c["deg"] if m.latent_variables > 1 else None, **items, **kw)
    elif q == "expected":
        fig = m.plot.expected_sum_score(**items, **kw)
    else:
        row = data_t([c["data"]]); keep = row.clone()
        fig = m.plot.log_likelihood(row, expected_sum_score=q == "loglik_sum", **items, **kw)
        exact(row, keep, "plotting changed the caller's responses")
    labelled(c, fig, two)
    y = values(c, m, th)
    if given is not None:      # ranges on the plotted scale are what the axis shows, wherever the scale can be inverted back
        back = np.abs(x.numpy() - given.numpy()).max() if len(x) else 0
        if back < 1e-3:
            x = given
    X = x.numpy()
    if q in ("prob", "slope"):
        tr = [t for t in fig.data if not (t.type == "scatter3d")]
        true(len(tr) == y.shape[1], f"{len(tr)} curves for an item with {y.shape[1]} categories")
        for k, t in enumerate(tr):
            name = t.name or ""
            num = [int(w) for w in name.split() if w.isdigit()]
            want = k + 1 if mc is not None and not two else k
            true(num == [want], "curve is labelled with another category", label=name, category=k)
            if two:
                surface(t, X, y[:, k], steps_of(c, True), f"surface of category {k}")
            else:
                curve(t.x, t.y, X[:, 0], y[:, k], f"{q} curve of category {k}")
        return
    true(len(fig.data) == 1, "several curves for one quantity")
    t = fig.data[0]
    if q.startswith("loglik"):
        y, total = y
    if q == "loglik_sum":
        curve(t.x, t.y, total, y, "log-likelihood against the expected sum score")
        obs = sum((v == k if mc is not None else v) for v, k in zip(c["data"], mc or c["data"]) if v is not None)
        lines = [s for s in fig.layout.shapes]
        true(len(lines) == 1 and abs(float(lines[0].x0) - obs) < 1e-6 and abs(float(lines[0].x1) - obs) < 1e-6, "observed sum score marked elsewhere", at=[s.x0 for s in lines], observed=obs)
    elif two:
        surface(t, X, y, steps_of(c, True), f"{q} surface")
    else:
        curve(t.x, t.y, X[:, 0], y, f"{q} curve")


NT = lambda c: rich(c) and (c["m"]["L"] > 1 or bool(c["scales"]))


@prop.facet("curves", plot_st(), 1200, 20000, NT)
def curves(c):
    """probabilities, slopes, entropies, information, expected scores and log-likelihoods along curves and surfaces, plain, reversed and rotated scales; non-trivial: several latent variables or a scale"""
    check(c)


@prop.facet("curves_flow", plot_st(("flow", "rev", "rot"), min_scales=1), 250, 3000, lambda c: NT(c) and c["rescale"] and any(d["t"] == "flow" for d in c["scales"]))
def curves_flow(c):
    """the same on non-linear invertible scales; non-trivial: plotted on the flow scale"""
    check(c)


@prop.facet("curves_bit", plot_st(bit=True), 120, 1500, lambda c: NT(c) and c["rescale"])
def curves_bit(c):
    """the same on the bit scale, which cannot be inverted; non-trivial: plotted on the bit scale"""
    check(c)


@prop.facet("selections", plot_st(quant=["information", "expected", "loglik", "loglik_sum"], items=(3, 9)), 300, 4000, lambda c: len(c["items"]) > 2 and max(c["items"]) - min(c["items"]) >= len(c["items"]))
def selections(c):
    """totals over selections of up to nine items; non-trivial: at least three items, with gaps"""
    check(c)


@st.composite
def group_st(draw):
    s = draw(spec_st(ALL, L=1, vmax=20, max_items=3))
    n = draw(ints(2, 9))
    vals = draw(st.lists(ints(-300, 300), min_size=n, max_size=n, unique=True))
    return {"m": s, "train": None, "theta": [[v / 10] for v in vals], "data": draw(data_st(cats_of(s), n)), "groups": draw(ints(1, n)), "steps": draw(ints(2, 6)),
            "item": draw(ints(1, len(cats_of(s)))), "scales": draw(scales_st(1, ("rev", "rot"), 0, 1)), "rescale": draw(st.sampled_from([True, False]))}


@prop.facet("group_fit", group_st(), 300, 4000, lambda c: rich(c) and c["groups"] > 1)
def group_fit(c):
    """group markers over the curves show the evaluator's observed and model group probabilities at the group mid points; non-trivial: several groups"""
    m = model_of(c)
    data, th = data_t(c["data"]), torch.tensor(c["theta"], dtype=torch.get_default_dtype()) / 10
    fig = m.plot.item_probabilities(c["item"], plot_group_fit=True, group_fit_groups=c["groups"], group_fit_data=data.clone(), group_fit_population_theta=th.clone(),
                                    rescale=c["rescale"], steps=c["steps"])
    d, p, g = m.evaluate.latent_group_probabilities(data=data.clone(), theta=th.clone(), rescale=c["rescale"], groups=c["groups"])
    j = c["item"] - 1
    cats = cats_of(c["m"])[j]
    marks = [t for t in fig.data if t.mode == "markers"]
    true(len(marks) == 2 * cats and len(fig.data) == 3 * cats, "group fit markers missing", traces=[(t.name, t.mode) for t in fig.data])
    for kind, v in (("Data", d), ("Model", p)):
        mine = [t for t in marks if t.name == kind]
        true(len(mine) == cats, f"{kind} markers", names=[t.name for t in marks])
        for k, t in enumerate(mine):
            close(np.asarray(t.x, dtype=float), g.reshape(-1), "group positions", rtol=1e-5, atol=1e-5)
            close(np.asarray(t.y, dtype=float), v[:, j, k], f"{kind} group probabilities of category {k}", rtol=1e-5, atol=1e-5)
    # the markers of a category carry the colour of its curve
    lines = [t for t in fig.data if t.mode == "lines"]
    for k in range(cats):
        true(lines[k].line.color == [t for t in marks if t.name == "Data"][k].marker.color == [t for t in marks if t.name == "Model"][k].marker.color, "group markers coloured as another category")


@st.composite
def other_st(draw):
    s = draw(spec_st(ALL, vmax=20, max_items=3))
    L = s["L"]
    two = L > 1 and draw(st.booleans())
    return {"m": s, "train": draw(theta_st(L, 2, 6, -25, 25)) if draw(st.booleans()) else None, "scores": draw(theta_st(L, 2, 30, -40, 40)),
            "lv": list(draw(st.permutations(range(1, L + 1)))[:2 if two else 1]), "bins": draw(st.one_of(st.none(), ints(1, 5))),
            "scales": draw(scales_st(L, ("rev", "rot", "rev"), 1, 2)), "range": draw(st.one_of(st.none(), st.tuples(ints(-25, 0), ints(1, 25)).map(list))), "steps": draw(ints(2, 8)),
            "fixed": [draw(ints(-15, 15)) for _ in range(L - 1)] if draw(st.booleans()) else None, "rescale": draw(st.sampled_from([True, False])),
            "loss": draw(st.lists(ints(-50, 200), min_size=0, max_size=6)), "val": draw(st.lists(ints(-50, 200), min_size=0, max_size=6)),
            "pop": draw(data_st(cats_of(s), 2)), "how": draw(st.sampled_from(["scores", "data", "train"])), "n": draw(ints(0, 1))}


@prop.facet("other", other_st(), 600, 9000, lambda c: c["m"]["L"] > 1)
def other(c):
    """score histograms and densities, scale transformation curves, item relationship heat maps and training histories; non-trivial: several latent variables"""
    m = model_of(c)
    L = m.latent_variables
    # distribution of given or computed scores
    sc = theta_t(c["scores"])
    lv = [v - 1 for v in c["lv"]]
    if c["how"] == "scores":
        kw = {"scores_to_plot": sc.clone()}
    else:
        data = data_t(c["pop"])
        asked = []
        def latent_scores(data=None, rescale=True, **kw):
            asked.append((data.clone(), rescale, kw))
            return sc.clone()
        m.latent_scores = latent_scores
        kw = {"rescale": c["rescale"], "theta_estimation": "EAP"}
        if c["how"] == "data":
            kw["population_data"] = data.clone()
        else:
            if c["train"] is None:
                m.algorithm = irtorch.estimation_algorithms.MML()
            m.algorithm.train_data = data.clone()
    fig = m.plot.latent_score_distribution(latent_variables=tuple(c["lv"]), contour_plot_bins=c["bins"], **kw)
    if c["how"] != "scores":
        del m.latent_scores
        true(len(asked) == 1, "scores computed several times")
        exact(asked[0][0], data, "scores plotted are of other respondents")
        true(asked[0][1] == c["rescale"] and asked[0][2] == {"theta_estimation": "EAP"}, "score options not passed on", got=asked[0][1:])
    x = sc[:, lv].numpy()
    if len(lv) == 1:
        hist = [t for t in fig.data if t.type == "histogram"]
        box = [t for t in fig.data if t.type == "box"]
        true(len(hist) == 1, "no histogram")
        for t in hist + box:
            close(np.sort(np.asarray(t.x, dtype=float)), np.sort(x[:, 0]), "scores in the histogram", rtol=1e-6, atol=1e-7)
    else:
        t = fig.data[0]
        z, cx, cy = (np.asarray(v, dtype=float) for v in (t.z, t.x, t.y))
        if c["bins"] is not None:
            true(len(cx) == c["bins"] == len(cy), "number of bins", got=(len(cx), len(cy)))
        wx, wy = ((x[:, i].max() - x[:, i].min()) / len(v) for i, v in ((0, cx), (1, cy)))
        if wx > 0 and wy > 0:
            close(cx, x[:, 0].min() + wx * (np.arange(len(cx)) + 0.5), "bin centres of the first latent variable", rtol=1e-5, atol=1e-5)
            close(cy, x[:, 1].min() + wy * (np.arange(len(cy)) + 0.5), "bin centres of the second latent variable", rtol=1e-5, atol=1e-5)
            # respondents clearly inside a bin are counted there
            fx, fy = (x[:, 0] - x[:, 0].min()) / wx, (x[:, 1] - x[:, 1].min()) / wy
            edge = (np.abs(fx - np.round(fx)) < 1e-3) & (np.round(fx) % len(cx) != 0) | (np.abs(fy - np.round(fy)) < 1e-3) & (np.round(fy) % len(cy) != 0)
            if not edge.any():
                cnt = np.zeros((len(cy), len(cx)))
                for a, b in zip(fx, fy):
                    cnt[min(int(np.floor(b + 1e-6)), len(cy) - 1), min(int(np.floor(a + 1e-6)), len(cx) - 1)] += 1
                close(z, cnt / len(x) / (wx * wy), "density of the latent scores", rtol=1e-4, atol=1e-8)
    # scale transformations along one input variable
    c1 = dict(c, lv=c["lv"][:1])
    th, xx, _ = grid(c1, m, False, rescale=False)
    kw = {"input_theta_range": tuple(v / 10 for v in c["range"])} if c["range"] is not None else {}
    if c["fixed"] is not None:
        kw["fixed_thetas"] = theta_t(c["fixed"])
    fig = m.plot.scale_transformations(input_latent_variable=c["lv"][0], steps=c["steps"], **kw)
    out = th
    for s in m.scale:
        out = s.transform(out)
    true(len(fig.data) == L, "one curve per transformed latent variable")
    for l, t in enumerate(fig.data):
        close(np.asarray(t.x, dtype=float), th[:, c["lv"][0] - 1], "original scale", rtol=1e-5, atol=1e-5)
        close(np.asarray(t.y, dtype=float), out[:, l], f"transformed latent variable {l + 1}", rtol=1e-4, atol=1e-4)
        true(str(l + 1) in t.name, "label of the transformed latent variable", name=t.name)
    # relationships
    rel = m.expected_item_score_gradients(sc.clone()).detach().mean(dim=0)
    if c["train"] is not None and c["n"]:
        rel = m.expected_item_score_gradients(theta_t(c["train"])).detach().mean(dim=0)
        fig = m.plot.item_latent_variable_relationships()
    else:
        fig = m.plot.item_latent_variable_relationships(theta=sc.clone())
    close(np.asarray(fig.data[0].z, dtype=float), rel, "item relationships", rtol=1e-4, atol=1e-5)
    given = torch.arange(float(rel.numel())).view(rel.shape)
    close(np.asarray(m.plot.item_latent_variable_relationships(relationships=given).data[0].z, dtype=float), given, "given item relationships")
    # training history
    from irtorch.estimation_algorithms import MML, AE
    m.algorithm = (MML if c["n"] else AE)()
    m.algorithm.training_history = {"train_loss": [v / 7 for v in c["loss"]], "validation_loss": [v / 7 for v in c["val"]]}
    if not c["loss"] and not c["val"]:
        raises(Exception, m.plot.training_history, "history of an untrained model")
        return
    fig = m.plot.training_history()
    want = {k: v for k, v in (("Training", c["loss"]), ("Validation", c["val"])) if v}
    true({t.name for t in fig.data} == set(want), "losses shown", got=[t.name for t in fig.data])
    for t in fig.data:
        close(np.asarray(t.x, dtype=float), np.arange(1, len(want[t.name]) + 1), f"{t.name} iterations")
        close(np.asarray(t.y, dtype=float), np.array(want[t.name]) / 7, f"{t.name} loss")


from . import c12


@st.composite
def spline_plot_st(draw):
    c = draw(c12.rqs_st())
    return dict(c, idx=draw(ints(0, c["V"] - 1)), points=draw(st.sampled_from([None, 2, 7, 40])))


@prop.facet("spline", spline_plot_st(), 300, 4000, lambda c: c["bins"] > 1 and len(set(c["p"])) > 1)
def spline_plot(c):
    """the plotted spline is the transformation of the chosen variable between its input bounds, and its knots lie on the curve from bound to bound; non-trivial: several bins of different sizes"""
    s, lo, up, olo, oup = c12.spline(c)
    s = s.float()
    state = {k: v.clone() for k, v in s.state_dict().items()}
    kw = {} if c["points"] is None else {"num_points": c["points"]}
    fig = s.plot_spline(spline_idx=c["idx"], **kw)
    line = next(t for t in fig.data if "lines" in (t.mode or "lines"))
    knots = next(t for t in fig.data if t.mode == "markers")

    def at(x):
        x = torch.tensor(np.asarray(x, dtype=float)).float()
        with torch.no_grad():
            return s(x.view(-1, 1).repeat(1, c["V"]))[0][:, c["idx"]]
    x = np.asarray(line.x, dtype=float)
    close(x, np.linspace(lo, up, c["points"] or 1000), "thetas of the plotted spline", rtol=1e-5, atol=1e-5)
    close(np.asarray(line.y, dtype=float), at(x), "plotted spline", rtol=1e-4, atol=1e-5)
    kx, ky = np.asarray(knots.x, dtype=float), np.asarray(knots.y, dtype=float)
    true(len(kx) == len(ky) == c["bins"] + 1, "number of knots", got=len(kx))
    true(bool((np.diff(kx) > 0).all()), "knots are not increasing")
    close(kx[[0, -1]], [lo, up], "first and last knot", rtol=1e-4, atol=1e-4)
    close(ky[[0, -1]], [olo, oup], "values of the first and last knot", rtol=1e-4, atol=1e-4)
    for k, v in s.state_dict().items():
        exact(v, state[k], f"{k} after plotting")
    steep = (oup - olo) / (up - lo) * 50
    close(ky, at(kx), "knots lie on the curve", rtol=1e-3, atol=1e-4 * max(1, steep))
