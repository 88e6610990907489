from ..gen import *
from .c05 import fd

prop = Property("C12", ["the upper bounds lie above the lower bounds (also after training the end points)",
                        "slopes are judged by central differences in double precision away from the two corner points at the bounds"])


@st.composite
def rqs_st(draw):
    V = draw(ints(1, 3))
    c = {"V": V, "bins": draw(ints(1, 8)), "lo": draw(ints(-60, 20)), "w": draw(ints(5, 100)), "olo": draw(ints(-60, 20)), "ow": draw(ints(5, 100)),
         "free": draw(st.booleans()), "minw": draw(st.sampled_from([1e-3, 1e-2, 5e-2])), "minh": draw(st.sampled_from([1e-3, 1e-2, 5e-2])),
         "mind": draw(st.sampled_from([1e-3, 1e-2, 1e-1])), "p": draw(st.lists(ints(-30, 30), min_size=1, max_size=12))}
    if c["free"]:
        c["dlo"], c["dw"] = draw(ints(-20, 20)), draw(ints(0, 20))
    c["x"] = [[draw(ints(-40, 140)) for _ in range(V)] for _ in range(draw(ints(2, 6)))]
    return c


def spline(c):
    from irtorch.torch_modules import RationalQuadraticSpline
    lo, up, olo, oup = c["lo"] / 10, (c["lo"] + c["w"]) / 10, c["olo"] / 10, (c["olo"] + c["ow"]) / 10
    with dflt(torch.float32):
        s = RationalQuadraticSpline(c["V"], num_bins=c["bins"], lower_input_bound=lo, upper_input_bound=up, lower_output_bound=olo, upper_output_bound=oup,
                                    min_bin_width=c["minw"], min_bin_height=c["minh"], min_derivative=c["mind"], free_endpoints=c["free"])
        keep = [(p, p.detach().clone()) for p in s.parameters() if p.dim() == 0]
        fill(s, c["p"])
        with torch.no_grad():
            for (p, v), d in zip(keep, (c.get("dlo", 0), c.get("dlo", 0) + c.get("dw", 0))):
                p.copy_(v + d / 10)
    if c["free"]:
        olo, oup = olo + c["dlo"] / 10, oup + (c["dlo"] + c["dw"]) / 10
    return s.double(), lo, up, olo, oup


def points(c):
    """Inputs as positions relative to the input range: 0 and 100 are exactly the bounds."""
    x = torch.tensor(c["x"], dtype=torch.float64)
    return layout(c["lo"] / 10 + x / 100 * (c["w"] / 10))


def nontriv(c):
    return c["bins"] > 1 and len(set(c["p"])) > 1


@prop.facet("bijection", rqs_st(), 1000, 15000, nontriv, dtype="float64")
def bijection(c):
    """continuous, strictly increasing, inverted by its inverse, mapping the bounds to the bounds; each variable on its own; non-trivial: several bins with different parameters"""
    s, lo, up, olo, oup = spline(c)
    x = points(c)
    keep = x.clone()
    with torch.no_grad():
        y, ld = s(x)
        exact(x, keep, "the spline changed its input")
        true(torch.isfinite(y).all() and torch.isfinite(ld).all() and y.shape == x.shape and ld.shape == x.shape, "spline output", y=y, ld=ld)
        back, ild = s(y, inverse=True)
        close(back, x, "inverse of the spline", rtol=1e-6, atol=1e-6)
        edge = ((x - lo).abs() < 1e-6) | ((x - up).abs() < 1e-6)
        close((ld + ild)[~edge], torch.zeros_like(ld)[~edge], "log-determinants of spline and inverse do not cancel", atol=1e-4)
        fwd, _ = s(s(x, inverse=True)[0])
        close(fwd, x, "spline of the inverse", rtol=1e-6, atol=1e-6)
        b, _ = s(torch.tensor([[lo] * c["V"], [up] * c["V"]], dtype=torch.float64))
        close(b, torch.tensor([[olo] * c["V"], [oup] * c["V"]]), "bounds are not mapped to the bounds", rtol=1e-6, atol=1e-6)
        w = up - lo
        g = torch.cat([torch.linspace(lo - w, up + w, 301, dtype=torch.float64), x.flatten(), torch.tensor([lo, up], dtype=torch.float64)]).unique()
        gy, _ = s(g.view(-1, 1).repeat(1, c["V"]))
        dx, dy = (g[1:] - g[:-1]).view(-1, 1), gy[1:] - gy[:-1]
        true(bool((dy > -1e-12).all()) and bool((dy[(dx > 1e-4).expand_as(dy)] > 0).all()), "spline is not strictly increasing", dy=dy.min())
        for pt in (lo, up):
            e = 1e-9
            z, _ = s(torch.tensor([[pt - e] * c["V"], [pt + e] * c["V"]], dtype=torch.float64))
            true(float((z[1] - z[0]).abs().max()) < 1e-5, "spline jumps at a bound", at=pt, z=z)
            zi, _ = s(torch.tensor([[q - e] * c["V"] for q in (olo, oup)] + [[q + e] * c["V"] for q in (olo, oup)], dtype=torch.float64), inverse=True)
            true(float((zi[2:] - zi[:2]).abs().max()) < 1e-4, "inverse spline jumps at a bound", z=zi)
        if c["V"] > 1:
            x2 = x.clone(); x2[:, 0] = x2[:, 0] + 0.37
            close(s(x2)[0][:, 1:], y[:, 1:], "spline of one variable depends on another", atol=1e-12)
        for r in range(len(x)):
            close(s(x[r:r + 1])[0], y[r:r + 1], "spline of a row alone", atol=1e-12)


@st.composite
def single_st(draw):
    c = draw(rqs_st())
    c["bins"] = draw(st.sampled_from([1, 2, 5, 10, 19]))
    c["size"] = draw(st.sampled_from([0, 1e-6, 1e-4, 1e-2, 1.0]))
    c["same"] = draw(st.booleans())
    if c["same"]:
        c["olo"], c["ow"], c["free"] = c["lo"], c["w"], False
    return c


@prop.facet("single_precision", single_st(), 800, 12000, lambda c: c["bins"] > 1)
def single(c):
    """in single precision, from exactly linear over almost linear to strongly curved bins: finite, non-decreasing up to rounding, and the inverse solves the equation up to rounding of the output range"""
    cc = dict(c, p=[p * c["size"] for p in c["p"]])
    s, lo, up, olo, oup = spline(cc)
    s = s.float()
    if c["size"] < 1:
        with torch.no_grad():
            s.unnormalized_derivatives.add_(0.5405)
    w, ow = up - lo, oup - olo
    x = torch.linspace(lo - 0.3 * w, up + 0.3 * w, 241).view(-1, 1).repeat(1, c["V"])
    with torch.no_grad():
        y, ld = s(x)
        back, ild = s(y, inverse=True)
        true(torch.isfinite(y).all() and torch.isfinite(ld).all(), "spline is not finite", y=y, ld=ld)
        true(torch.isfinite(back).all() and torch.isfinite(ild).all(), "inverse spline is not finite", x=x[~torch.isfinite(back)], ild=ild)
        unit = 1.2e-7 * (abs(olo) + abs(oup) + abs(lo) + abs(up))
        true(float((y[1:] - y[:-1]).min()) >= -20 * unit, "spline decreases", least=float((y[1:] - y[:-1]).min()))
        again, _ = s(back)
        err = ((again - y).abs() / (1 + ld.exp())).max()
        true(float(err) <= 100 * unit, "spline of the inverse", error=float(err), unit=unit)


@prop.facet("log_derivative", rqs_st(), 900, 14000, nontriv, dtype="float64")
def logdet(c):
    """reported log-determinants (both directions) vs central differences, inside and outside the bounds; the plain output is differentiable to the same slope"""
    s, lo, up, olo, oup = spline(c)
    x = points(c) + 0.00123
    with torch.no_grad():
        y, ld = s(x)
        h = 1e-5
        for inv, t, l, bounds in ((False, x, ld, (lo, up)), (True, y, s(y, inverse=True)[1], (olo, oup))):
            f = lambda v: s(v, inverse=inv)[0]
            dp, dm = (f(t + h) - f(t)) / h, (f(t) - f(t - h)) / h
            d = (f(t + h) - f(t - h)) / (2 * h)
            far = ((t - bounds[0]).abs() > 3 * h) & ((t - bounds[1]).abs() > 3 * h) & ((dp / dm).log().abs() < 1e-3)
            close(l[far], d[far].log(), f"log-determinant ({'inverse' if inv else 'forward'})", rtol=1e-3, atol=2e-3)
    t = x.clone().requires_grad_(True)
    out, _ = s(t)
    out.sum().backward()
    close(t.grad, ld.exp(), "automatic derivative of the spline", rtol=1e-6, atol=1e-8)


@st.composite
def train_st(draw):
    """Other ways to run the same training: batches, short evaluation intervals (so that training may stop early), several reductions."""
    return {"batch_size": draw(st.sampled_from([None, 4, 7])), "evaluation_interval_size": draw(ints(1, 4)), "learning_rate_updates_before_stopping": draw(ints(1, 3))}


@st.composite
def flow_st(draw):
    V = draw(ints(1, 2))
    return {"V": V, "bins": draw(ints(2, 8)), "in": draw(ints(20, 60)), "out": draw(ints(20, 50)), "p": draw(st.lists(ints(-15, 15), min_size=1, max_size=8)),
            "loc": draw(ints(-10, 10)), "scale": draw(ints(5, 20)), "fit": draw(st.booleans()), "data": draw(st.lists(ints(-25, 25), min_size=6, max_size=12, unique=True)),
            "lr": draw(st.sampled_from([0.01, 0.05])), "epochs": draw(ints(1, 6)), "train": draw(train_st()) if draw(st.booleans()) else {}}


@prop.facet("density", flow_st(), 150, 2500, lambda c: len(set(c["p"])) > 1, shard_min=20)
def density(c):
    """flow density = base density at the spline times its slope, and integrates to one; fitted flows stay increasing, invertible with the right Jacobian"""
    from irtorch.torch_modules import RationalQuadraticSpline, NeuralSplineFlow
    from irtorch.rescale import Flow
    a, b = c["in"] / 10, c["out"] / 10
    rq = RationalQuadraticSpline(c["V"], num_bins=c["bins"], lower_input_bound=-a, upper_input_bound=a, lower_output_bound=-b, upper_output_bound=b)
    fill(rq, c["p"])
    rq.double()
    base = torch.distributions.Normal(torch.tensor(c["loc"] / 10).double(), torch.tensor(c["scale"] / 10).double())
    nf = NeuralSplineFlow(rq, base)
    with torch.no_grad():
        g = torch.linspace(-60, 60, 48001, dtype=torch.float64)
        G = g.view(-1, 1).repeat(1, c["V"])
        lp = nf.log_prob(G)
        true(tuple(lp.shape) == tuple(G.shape), "flow log-density shape", got=tuple(lp.shape))
        y, ld = rq(G)
        sub_ = slice(0, None, 97)
        close(nf(G)[sub_], y[sub_], "flow transformation", rtol=1e-9, atol=1e-9)
        close(nf.inverse(nf(G))[sub_], G[sub_], "flow inverse", rtol=1e-5, atol=1e-5)
        h = 1e-6
        yp, ym = rq(G + h)[0], rq(G - h)[0]
        want = base.log_prob(y) + ((yp - ym) / (2 * h)).log()
        ok = ((yp - 2 * y + ym) / (yp - ym)).abs() < 1e-3
        close(lp[ok][::13], want[ok][::13], "flow log-density", rtol=1e-3, atol=1e-2)
        mass = torch.trapezoid(lp.exp(), g, dim=0)
        tail = 1 - (base.cdf(y[-1]) - base.cdf(y[0]))
        close(mass + tail, torch.ones(c["V"]), "flow density does not integrate to one", atol=5e-3)
    if not c["fit"]:
        return
    f = Flow(c["V"])
    theta = torch.tensor(c["data"]).float().view(-1, 1) / 10 + 0.3 * torch.arange(c["V"]).float()
    keep = theta.clone()
    f.fit(theta, max_epochs=c["epochs"], learning_rate=c["lr"], num_bins=c["bins"], device="cpu", **c["train"])
    exact(theta, keep, "fitting the flow changed the caller's thetas")
    with torch.no_grad():
        grid = torch.linspace(-9, 9, 181).view(-1, 1).repeat(1, c["V"])
        y = f.transform(grid)
        true(bool((y[1:] > y[:-1]).all()), "fitted flow is not increasing")
        close(f.inverse(y), grid, "fitted flow inverse", rtol=2e-3, atol=2e-3)
    J = f.jacobian(grid)
    g = to_double(f)
    x, h = grid.double(), 1e-5
    with torch.no_grad(), dflt(torch.float64):
        y0, yp, ym = g.transform(x), g.transform(x + h), g.transform(x - h)
    left, right = (y0 - ym) / h, (yp - y0) / h
    for v in range(c["V"]):
        calm = (left - right)[:, v].abs() < 1e-3 * right[:, v]
        close(J[calm, v, v], ((left + right) / 2)[calm, v], "fitted flow Jacobian", rtol=5e-3, atol=1e-3)


@st.composite
def flowfit_st(draw):
    return {"data": [[draw(ints(-30, 30)) for _ in range(draw(st.just(2)))] for _ in range(draw(ints(12, 20)))], "bins": draw(ints(3, 10)),
            "unit": draw(st.sampled_from([2.0 ** -10, 2.0 ** -7, 0.25, 2.0, 16.0, 256.0])), "shift": [draw(ints(-8, 8)) for _ in range(2)], "batch": draw(st.sampled_from([None, None, 5, 8]))}


@prop.facet("flow_fit", flowfit_st(), 30, 400, lambda c: len({tuple(r) for r in c["data"]}) > 5, shard_min=8)
def flow_fit(c):
    """fitting a flow does not lower the mean log-density of the standardised thetas below that of the starting spline; the fit does not depend on the unit or origin of the thetas or on earlier fits"""
    from irtorch.rescale import Flow
    theta = torch.tensor(c["data"]).float() / 10 + 0.01 * torch.arange(len(c["data"])).view(-1, 1)
    if float(theta.std(dim=0).min()) < 0.2:
        return

    def mean_ll(f):
        t = ((theta - theta.mean(dim=0)) / theta.std(dim=0)).double()
        h = 1e-4
        g = to_double(f)
        raw = t * theta.std(dim=0) + theta.mean(dim=0)
        with torch.no_grad():
            y = g.transform(raw)
            d = (g.transform(raw + h) - g.transform(raw - h)) / (2 * h)
            return float((torch.distributions.Normal(0.0, 1.0).log_prob(y) + d.log()).mean())
    a, b = Flow(2), Flow(2)
    a.fit(theta, max_epochs=1, learning_rate=1e-7, num_bins=c["bins"], device="cpu")
    b.fit(theta, max_epochs=120, learning_rate=0.01, num_bins=c["bins"], device="cpu")
    la, lb = mean_ll(a), mean_ll(b)
    true(lb >= la - 0.02, "fitting lowered the mean log-density", before=la, after=lb)
    # the unit and origin of the thetas, and what the object was fitted to before, do not matter
    moved = (theta + torch.tensor(c["shift"]).float()) * c["unit"]
    kw = dict(max_epochs=12, learning_rate=0.02, num_bins=c["bins"], device="cpu", batch_size=c["batch"])
    p, q, r = Flow(2), Flow(2), Flow(2)
    torch.manual_seed(5); p.fit(theta, **kw)
    torch.manual_seed(5); q.fit(moved, **kw)
    torch.manual_seed(4); r.fit(moved.flip(0) * 3 + 1, **kw)
    torch.manual_seed(5); r.fit(theta, **kw)
    with torch.no_grad():
        want = p.transform(theta)
        close(q.transform(moved), want, "flow fitted to thetas in another unit and from another origin", rtol=2e-3, atol=5e-3)
        close(r.transform(theta), want, "flow fitted again after another sample", rtol=1e-5, atol=1e-5)


@st.composite
def link_st(draw):
    n = draw(ints(2, 4))
    k = draw(st.sampled_from(["2PL", "GRM", "3PL"]))
    return {"k": k, "n": n, "extra": [draw(ints(2, 4)) for _ in range(draw(ints(0, 2)))], "a": [draw(ints(8, 20)) for _ in range(n)], "b": [draw(ints(-15, 15)) for _ in range(n)],
            "shift": draw(ints(-6, 6)), "slope": draw(ints(8, 15)), "inv": draw(st.booleans()), "method": draw(st.sampled_from(["spline", "neuralnet"])),
            "perm": draw(st.permutations(list(range(n)))), "epochs": draw(st.sampled_from([40, 150])), "train": draw(train_st()) if draw(st.booleans()) else {}}


@prop.facet("link", link_st(), 60, 900, lambda c: c["inv"] or c["shift"] != 0, shard_min=8)
def link(c):
    """links are strictly monotone (decreasing exactly when inverted), spline links are inverted by their inverse, and fitting brings the common items' curves closer; models are only read"""
    from irtorch.rescale import LinkCommonItems
    n = c["n"]
    sgn = -1.0 if c["inv"] else 1.0
    A, B = torch.tensor(c["a"]).float() / 10, torch.tensor(c["b"]).float() / 10
    m1 = im.TwoParameterLogistic(latent_variables=1, items=n)
    k2 = im.GradedResponse(latent_variables=1, item_categories=[2] * n + [x for x in c["extra"]]) if c["k"] == "GRM" else im.TwoParameterLogistic(latent_variables=1, items=n + len(c["extra"]))
    # theta2 = sgn * slope * theta1 + shift: the same curves on another scale, items permuted
    sl, sh = c["slope"] / 10, c["shift"] / 10
    with torch.no_grad():
        p1 = dict(m1.named_parameters()); p2 = dict(k2.named_parameters())
        p1["weight_param"].copy_(A.view_as(p1["weight_param"])); p1["bias_param"].copy_(B)
        a2 = sgn * A / sl
        b2 = B - a2 * sh
        w = p2["weight_param"].view(-1); w[:n] = a2[c["perm"]]
        bb = torch.zeros(len(p2["bias_param"])); bb[:n] = b2[c["perm"]]
        i = n
        for x in c["extra"]:
            k = x - 1 if c["k"] == "GRM" else 1
            bb[i:i + k] = torch.linspace(0.5, -0.5, k); i += k
        p2["bias_param"].copy_(bb)
    theta = torch.linspace(-2.5, 2.5, 60).view(-1, 1)

    def loss(t2):
        with torch.no_grad():
            p, q = m1.item_probabilities(theta)[:, c["perm"]], k2.item_probabilities(t2)[:, :n, :2]
            return float((p * ((p + 1e-12) / (q + 1e-12)).log()).sum(dim=2).mean())
    exact_ = loss(sgn * sl * theta + sh)
    true(exact_ < 1e-4, "harness: the two models do not describe the same items", loss=exact_)
    before = [p.detach().clone() for m in (m1, k2) for p in m.parameters()]
    L = LinkCommonItems(m1, k2, list(c["perm"]), list(range(n)), method=c["method"], inverted=c["inv"])
    with torch.no_grad():
        l0 = loss(L.transform(theta))
    L.fit(theta, max_epochs=c["epochs"], learning_rate=0.02, device="cpu", **c["train"])
    for p, q in zip([p for m in (m1, k2) for p in m.parameters()], before):
        exact(p, q, "linking changed a model's parameters")
    with torch.no_grad():
        y = L.transform(theta)
        l1 = loss(y)
        true(bool(c["train"]) or l1 <= l0 + 1e-4, "fitting the link moved the common items apart", before=l0, after=l1)
        d = (y[1:] - y[:-1]) * sgn
        true(bool((d > 0).all()), f"link is not strictly {'decreasing' if c['inv'] else 'increasing'}", d=d.min())
        if c["method"] == "spline":
            close(L.inverse(y), theta, "inverse of the link", rtol=2e-3, atol=2e-3)
        if not c["train"] and c["epochs"] >= 150 and c["method"] == "spline" and abs(c["shift"]) <= 5:
            true(l1 < 0.02 or l1 < 0.5 * l0, "the fitted link does not bring the common items together", before=l0, after=l1)
