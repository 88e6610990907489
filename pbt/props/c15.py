from ..fitlib import *
from .c14 import as64

prop = Property("C15", ["the loss is judged where no response probability on the integration grid falls below 1e-17 (single precision underflow)",
                        "improvement is judged for small learning rates from starts with a clear gradient; row-order invariance on the recorded losses within 1e-3 over the first steps"])


@st.composite
def mml_st(draw, kinds=FITTABLE, max_L=3, epochs=(1, 5), vmax=15):
    s = draw(spec_st(kinds, max_L=max_L, max_items=3, max_cats=4, vmax=vmax))
    L = s["L"]
    c = {"m": s, "data": draw(fit_data_st(cats_of(s))), "coding": draw(st.sampled_from(["nan", "-1", "mixed"])),
         "method": draw(st.sampled_from(["quasi_mc", "gauss_hermite", None])),
         "q": draw(st.sampled_from([None] + [3, 4, 5, 9][:4 if L == 1 else 3 if L == 2 else 2])),
         "cov": draw(st.lists(ints(-8, 8), min_size=L * L, max_size=L * L)) if draw(st.booleans()) else None,
         "lr": draw(st.sampled_from([None, 0.01, 0.1, 0.5])), "epochs": draw(ints(*epochs)), "seed": draw(ints(0, 99))}
    if epochs == (1, 5) and draw(ints(0, 9)) == 0:
        c["epochs"], c["lr"], c["patience"], c["stops"] = 40, draw(st.sampled_from([0.3, 1.0])), draw(ints(0, 2)), draw(ints(1, 3))
    return c


def cov_of(c):
    L = c["m"]["L"]
    if c["cov"] is None:
        return None
    a = torch.tensor(c["cov"], dtype=torch.float32).view(L, L) / 10
    return a @ a.T + 0.3 * torch.eye(L)


def grid(c):
    """Integration points and log weights as documented, in double precision."""
    L = c["m"]["L"]
    q = c["q"] or {1: 15, 2: 7, 3: 5}[L]
    S = (cov_of(c) if c["cov"] is not None else torch.eye(L)).double().numpy()
    if c["method"] == "gauss_hermite":
        x, w = np.polynomial.hermite.hermgauss(q)
        mesh = np.stack([g.ravel() for g in np.meshgrid(*[x] * L, indexing="ij")], axis=1)
        lw = np.stack([g.ravel() for g in np.meshgrid(*[np.log(w) - 0.5 * np.log(np.pi)] * L, indexing="ij")], axis=1).sum(axis=1)
        pts = np.sqrt(2) * mesh @ np.linalg.cholesky(S).T
    else:
        x = np.linspace(-3, 3, q)
        pts = np.stack([g.ravel() for g in np.meshgrid(*[x] * L, indexing="ij")], axis=1)
        lw = -0.5 * np.einsum("ij,jk,ik->i", pts, np.linalg.inv(S), pts) - 0.5 * np.linalg.slogdet(2 * np.pi * S)[1]
    return torch.tensor(pts), torch.tensor(lw)


def kwargs(c):
    k = {"max_epochs": c["epochs"], "device": "cpu"}
    if c["method"] is not None:
        k["integration_method"] = c["method"]
    if c["q"] is not None:
        k["quadrature_points"] = c["q"]
    if c["cov"] is not None:
        k["covariance_matrix"] = cov_of(c)
    if c["lr"] is not None:
        k["learning_rate"] = c["lr"]
    if "patience" in c:
        k["learning_rate_update_patience"], k["learning_rate_updates_before_stopping"] = c["patience"], c["stops"]
    return k


def nontriv(c):
    return len(c["data"]) > 2 and sum(cats_of(c["m"])) > 3


@prop.facet("loss", mml_st(), 260, 4000, nontriv)
def loss(c):
    """recorded losses = minus the marginal log-likelihood (independent grid, double precision) at the parameters in use; the final parameters are those with the best recorded loss and no worse than the start; caller's data and model mode; non-trivial: at least three respondents and four categories in total"""
    from irtorch.estimation_algorithms import MML
    m = build(c["m"])
    D = data_t(c["data"], c["coding"])
    keep, mask = D.clone(), missing(D)
    S0 = cov_of(c)
    kw = kwargs(c)
    alg = MML()
    start = state_of(m)
    torch.manual_seed(c["seed"])
    with watch(m) as rec:
        m.fit(D, alg, **kw)
    true(m.algorithm is alg, "fit did not attach the algorithm")
    exact(D, keep, "fitting changed the caller's data")
    if S0 is not None:
        exact(kw["covariance_matrix"], S0, "fitting changed the caller's covariance matrix")
    exact(alg.covariance_matrix, S0 if S0 is not None else torch.eye(c["m"]["L"]), "covariance matrix stored by the algorithm")
    true(not m.training and all(p.requires_grad for p in m.parameters()), "the fitted model is left in training mode or frozen")
    hist = alg.training_history["train_loss"]
    true(len(hist) == c["epochs"] or ("patience" in c and 0 < len(hist) <= c["epochs"]), "one loss per epoch", n=len(hist), epochs=c["epochs"])
    pts, lw = grid(c)
    ref = Ref(c["m"])
    vals = []
    for st_, _, _ in rec:
        v, low = ref.marginal(st_, keep, mask, pts, lw)
        if not np.isfinite(v) or low < -39:
            return
        vals.append(v)
    true(len(vals) >= len(hist), "losses were recorded without evaluating the model")
    same_state(rec[0][0], start, "fitting does not start from the model's parameters")
    tol = lambda v: 2e-4 * abs(v) + 2e-3
    i = 0
    for k, h in enumerate(hist):
        while i < len(vals) and abs(vals[i] - h) > tol(h):
            i += 1
        if i >= len(vals):
            fail(f"recorded loss {h} of step {k} is not minus the marginal log-likelihood at the parameters in use", losses=hist, reference=vals)
        i += 1
    final, _ = ref.marginal(state_of(m), keep, mask, pts, lw)
    true(np.isfinite(final), "the fitted parameters have no finite marginal likelihood")
    true(final <= vals[0] + tol(final), "the marginal likelihood is worse after fitting", start=vals[0], end=final)
    true(final <= min(vals) + tol(final), "the fitted parameters are not the best visited", best=min(vals), end=final)
    # the model is the plain model at these parameters: nothing of the fit is left behind
    t = torch.linspace(-1.5, 2, 3).view(-1, 1).repeat(1, c["m"]["L"])
    twin = build(c["m"])
    twin.load_state_dict(m.state_dict())
    exact(probs_of(m, t), probs_of(twin, t), "a fitted model differs from a fresh model with its parameters")


@st.composite
def long_st(draw):
    s = draw(spec_st(["2PL", "3PL", "GRM", "GPC"], L=1, max_items=3, max_cats=4, vmax=15, masks=False))
    n = draw(st.sampled_from([40, 80, 150, 300]))
    k = draw(ints(2, 5))
    return {"m": s, "items": n, "seed": draw(ints(0, 9999)), "abil": [draw(ints(-25, 25)) for _ in range(k)],
            "few": [draw(st.sampled_from([0, 0, 2, 5])) for _ in range(k)], "q": draw(st.sampled_from([5, 9, 15])),
            "method": draw(st.sampled_from(["quasi_mc", "gauss_hermite"])), "coding": draw(st.sampled_from(["nan", "-1"]))}


@prop.facet("long_tests", long_st(), 200, 2500, lambda c: c["items"] >= 80 and any(c["few"]) and not all(c["few"]), shard_min=20)
def long_tests(c):
    """the loss of tests of up to 300 items, some respondents having answered only a few: very different log-likelihoods side by side; non-trivial: such respondents beside complete ones"""
    from irtorch.estimation_algorithms import MML
    cats = [cats_of(c["m"])[j % len(cats_of(c["m"]))] for j in range(c["items"])]
    long = dict(c["m"], cats=cats)
    m = build(long)
    g = torch.Generator().manual_seed(c["seed"])
    p = probs_of(m, torch.tensor(c["abil"]).view(-1, 1).float() / 10)
    D = torch.stack([torch.multinomial(p[:, j, :].float().clamp_min(0), 1, generator=g)[:, 0] for j in range(len(cats))], dim=1).float()
    hole = float("nan") if c["coding"] == "nan" else -1.0
    for i, few in enumerate(c["few"]):
        if few:
            D[i, few:] = hole
    mask = missing(D)
    alg = MML()
    start = state_of(m)
    k = {"m": long, "q": c["q"], "method": c["method"], "cov": None}
    m.fit(D, alg, max_epochs=1, device="cpu", integration_method=c["method"], quadrature_points=c["q"])
    pts, lw = grid(k)
    v, low = Ref(long).marginal(start, D, mask, pts, lw)
    if not np.isfinite(v) or low < -39:
        return
    close(alg.training_history["train_loss"][0], v, "loss of a long test", rtol=2e-4, atol=2e-2)


@prop.facet("improves", mml_st(epochs=(6, 12), max_L=2), 120, 2000, nontriv)
def improves(c):
    """with small steps and a clear gradient at the start, fitting strictly improves the marginal likelihood; non-trivial as above"""
    from irtorch.estimation_algorithms import MML
    c = dict(c, lr=0.001)
    m = build(c["m"])
    D = data_t(c["data"], c["coding"])
    mask = missing(D)
    pts, lw = grid(c)
    ref = Ref(c["m"])
    start = state_of(m)
    v0, low = ref.marginal(start, D, mask, pts, lw)
    if not np.isfinite(v0) or low < -39:
        return
    # gradient in double precision by evaluating along the sign-step Adam takes first
    with dflt(torch.float64):
        m64 = build(c["m"])
        N = D.shape[0]
        p = m64.item_probabilities(pts)
        idx = torch.where(mask, torch.zeros_like(D), D).long()
        g = torch.stack([p[:, j, :][:, idx[:, j]].clamp_min(1e-300).log() for j in range(D.shape[1])], dim=2)
        g = torch.where(mask.unsqueeze(0).expand_as(g), torch.zeros_like(g), g)
        (-torch.logsumexp(g.sum(dim=2) + lw.view(-1, 1), dim=0).sum()).backward()
        norm = sum(float(q.grad.abs().sum()) for q in m64.parameters() if q.grad is not None)
    if norm < 2 or norm > 1e3:
        return
    alg = MML()
    m.fit(D, alg, **kwargs(c))
    v1, _ = ref.marginal(state_of(m), D, mask, pts, lw)
    true(v1 < v0, "fitting with small steps does not improve the marginal likelihood", start=v0, end=v1, gradient=norm)


@st.composite
def inv_st(draw):
    c = draw(mml_st(max_L=2, epochs=(2, 4)))
    n = len(c["data"])
    c["perm"] = draw(st.permutations(list(range(n))))
    c["other"] = draw(fit_data_st(cats_of(c["m"]), 2, 9))
    c["pre"] = draw(st.sampled_from(["none", "same model", "other model", "scores"]))
    c["coding2"] = draw(st.sampled_from(["nan", "-1", "mixed"]))
    return c


@prop.facet("history", inv_st(), 160, 2500, nontriv)
def history(c):
    """same result for another missing coding, a used algorithm and a used model; same losses for permuted rows; reproducible; non-trivial as above"""
    from irtorch.estimation_algorithms import MML, JML
    D = data_t(c["data"], c["coding"])

    def fresh():
        return build(c["m"])
    m, alg = fresh(), MML()
    start = state_of(m)
    m.fit(D, alg, **kwargs(c))
    end, hist = state_of(m), list(alg.training_history["train_loss"])
    if not all(np.isfinite(hist)):
        return
    # another coding of the missing responses, on a used algorithm / a used model
    m2, alg2 = fresh(), MML()
    if c["pre"] == "same model":
        m2.fit(data_t(c["other"], "nan"), alg2, max_epochs=2, device="cpu", quadrature_points=3)
        m2.load_state_dict(start)
    elif c["pre"] == "other model":
        with torch.random.fork_rng():
            o = im.TwoParameterLogistic(latent_variables=1, items=2)
            o.fit(torch.tensor([[0., 1.], [1., 1.]]), alg2, max_epochs=2, device="cpu", learning_rate=0.3, quadrature_points=4, covariance_matrix=torch.tensor([[2.0]]))
    elif c["pre"] == "scores":
        m2.fit(data_t(c["other"], "nan"), MML(), max_epochs=1, device="cpu", quadrature_points=3)
        m2.load_state_dict(start)
        m2.latent_scores(D, theta_estimation="EAP", eap_theta_integration_points=3, device="cpu")
    m2.fit(data_t(c["data"], c["coding2"]), alg2, **kwargs(c))
    same_state(state_of(m2), end, f"fitted parameters depend on the missing coding or on earlier use ({c['pre']})")
    true(alg2.training_history["train_loss"] == hist, "training history depends on the missing coding or on earlier use", a=hist, b=alg2.training_history["train_loss"])
    exact(missing(alg2.train_data), missing(D), "stored training data")
    exact(torch.where(missing(D), torch.zeros_like(D), alg2.train_data), torch.where(missing(D), torch.zeros_like(D), D), "stored training data")
    # order of the respondents
    m3, alg3 = fresh(), MML()
    m3.fit(D[torch.tensor(c["perm"])], alg3, **kwargs(dict(c, epochs=2, lr=0.001)))
    m4, alg4 = fresh(), MML()
    m4.fit(D, alg4, **kwargs(dict(c, epochs=2, lr=0.001)))
    close(torch.tensor(alg3.training_history["train_loss"]), torch.tensor(alg4.training_history["train_loss"]), "losses depend on the order of the respondents", rtol=1e-3, atol=1e-3)


@st.composite
def stop_st(draw):
    c = draw(mml_st(max_L=2, epochs=(20, 60)))
    c["lr"], c["patience"], c["stops"] = draw(st.sampled_from([0.3, 1.0, 3.0])), draw(ints(0, 4)), draw(ints(1, 3))
    return c


@prop.facet("stopping", stop_st(), 90, 1500, nontriv)
def stopping(c):
    """large steps: training ends once the learning rate was reduced the requested number of times, each after the requested patience, or at the maximum number of epochs; non-trivial as above"""
    from irtorch.estimation_algorithms import MML
    m, alg = build(c["m"]), MML()
    with watch(m, lambda: learning_rate(alg)) as rec:
        m.fit(data_t(c["data"], c["coding"]), alg, **kwargs(c))
    hist = alg.training_history["train_loss"]
    if not all(np.isfinite(hist)) or len(rec) != len(hist):
        return
    stop_check([r[2] for r in rec], len(hist), c["epochs"], c)
