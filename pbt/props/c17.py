from ..fitlib import *
import scipy.stats as sps

prop = Property("C17", ["losses are judged where no response probability falls below 1e-17; respondents whose encoded rows coincide but whose data differ are told apart only where the loss does not depend on it",
                        "random imputation is judged on the observed cells and on being an incorrect option"])
ACT = {"elu": torch.nn.ELU, "relu": torch.nn.ReLU, "tanh": torch.nn.Tanh}


@st.composite
def ae_st(draw, algs=("AE", "VAE"), epochs=(1, 4), deterministic=False):
    s = draw(spec_st(FITTABLE, max_L=2, max_items=4, max_cats=4, vmax=15))
    mc = mc_of(s)
    rows = draw(fit_data_st(cats_of(s), 5, 9))
    onehot = draw(st.sampled_from([True, True, False]))
    imps = ["zero", "mean"] + (["random incorrect"] if mc is not None and not deterministic else []) + ([None, None] if onehot else [])
    c = {"m": s, "alg": draw(st.sampled_from(list(algs))), "data": rows, "coding": draw(st.sampled_from(["nan", "-1", "mixed"])), "onehot": onehot,
         "imp": draw(st.sampled_from(imps)), "hidden": draw(st.sampled_from([None, [3], [5, 4], [4, 4], [3, 5, 2]])), "bn": draw(st.sampled_from([False, False, True])),
         "act": draw(st.sampled_from(sorted(ACT))), "batch": draw(st.sampled_from([None, None, 4, 3, 2, 1])), "int": draw(ints(1, 3)), "lr": draw(st.sampled_from([0.001, 0.02, 0.1])),
         "epochs": draw(ints(*epochs)), "seed": draw(ints(0, 99))}
    if c["alg"] == "VAE":
        c["iw"], c["anneal"], c["ann_it"] = draw(st.sampled_from([1, 1, 2, 5, 9, 20])), draw(st.booleans()), draw(ints(1, 6))
    return c


def alg_of(c):
    from irtorch.estimation_algorithms import AE, VAE
    return VAE() if c["alg"] == "VAE" else AE()


def kwargs(c):
    k = dict(one_hot_encoded=c["onehot"], imputation_method=c["imp"], learning_rate=c["lr"], learning_rate_updates_before_stopping=10 ** 6,
             evaluation_interval_size=c["int"], max_epochs=c["epochs"], batch_size=c["batch"], batch_normalization_encoder=c["bn"], nonlinear_encoder=ACT[c["act"]](),
             hidden_layers_encoder=c["hidden"], device="cpu")
    if c["alg"] == "VAE":
        k.update(iw_samples=c["iw"], anneal=c["anneal"], annealing_iterations=c["ann_it"])
    return k


def imputed(c, rows):
    """Responses the encoder sees (None: unknown or left out)."""
    cols = list(zip(*rows))
    out = []
    for r in rows:
        q = []
        for j, v in enumerate(r):
            if v is None and c["imp"] == "zero":
                v = 0
            elif v is None and c["imp"] == "mean":
                obs = [x for x in cols[j] if x is not None]
                v = sum(obs) / len(obs)
            q.append(v)
        out.append(q)
    return out


def encode(c, rows):
    """The documented encoder input for deterministic imputation."""
    cats = cats_of(c["m"])
    out = []
    for r in imputed(c, rows):
        if not c["onehot"]:
            out.append([float(v) for v in r])
            continue
        e = []
        for v, k in zip(r, cats):
            h = [0.0] * k
            if v is not None:
                h[int(round(v))] = 1.0          # half to even, as tensors round
            e += h
        out.append(e)
    return torch.tensor(out)


def decode(c, x):
    """One encoder row back to responses."""
    if not c["onehot"]:
        return [float(v) for v in x]
    out, i = [], 0
    for k in cats_of(c["m"]):
        h = x[i:i + k]
        true(bool(((h == 0) | (h == 1)).all()) and float(h.sum()) <= 1, "encoder input is not one-hot", row=x)
        out.append(int(h.argmax()) if float(h.sum()) == 1 else None)
        i += k
    return out


def assign(c, X):
    """Which respondent each encoder row is; None when it cannot be told."""
    rows = c["data"]
    if c["imp"] != "random incorrect":
        E = encode(c, rows)
        got, free = [], set(range(len(rows)))
        for x in X:
            cand = [i for i in range(len(rows)) if torch.allclose(E[i], x, atol=1e-5)]
            if not cand:
                fail("encoder input is not the encoding of any respondent", row=x, data=rows)
            if len({json.dumps(rows[i]) for i in cand}) > 1 and (c["alg"] == "VAE" or c["batch"] is not None):
                return None
            left = [i for i in cand if i in free] or cand
            free.discard(left[0])
            got.append(left[0])
        return got
    got, mc = [], mc_of(c["m"])
    for x in X:
        d = decode(c, x)
        cand = [i for i, r in enumerate(rows) if all((v == u) if v is not None else (u is not None and u != mc[j] and 0 <= u < cats_of(c["m"])[j]) for j, (v, u) in enumerate(zip(r, d)))]
        if not cand:
            fail("encoder input does not keep the observed responses or imputes a correct option", row=d, data=rows)
        if len({json.dumps(rows[i]) for i in cand}) > 1:
            return None
        got.append(cand[0])
    return got


def nontriv(c):
    return sum(cats_of(c["m"])) > 3 and c["epochs"] > 1


@prop.facet("loss", ae_st(), 260, 4000, nontriv)
def loss(c):
    """every encoder configuration trains; recorded losses (interval means) = the stated objective at the encoder outputs, sampled thetas and parameters in use, on the non-missing responses; each epoch uses every respondent once; final state finite; non-trivial: more than three categories in total and several epochs"""
    from irtorch.estimation_algorithms.encoders import BaseEncoder
    m = build(c["m"])
    D = data_t(c["data"], c["coding"])
    keep, mask, N, L = D.clone(), missing(D), len(c["data"]), c["m"]["L"]
    alg = alg_of(c)
    enc, mod = [], []

    def hook(module, args, out):
        if isinstance(module, BaseEncoder) and module.training:
            enc.append((args[0].detach().clone(), [o.detach().clone() for o in out] if isinstance(out, tuple) else [out.detach().clone()]))
        if module is m and module.training:
            mod.append((state_of(m), args[0].detach().clone()))
    h = tm.register_module_forward_hook(hook)
    torch.manual_seed(c["seed"])
    try:
        m.fit(D, alg, **kwargs(c))
    finally:
        h.remove()
    exact(D, keep, "fitting changed the caller's data")
    true(m.algorithm is alg and not m.training and not alg.encoder.training, "fitted model or encoder left in training mode")
    b = min(c["batch"] or N, N)
    sizes = [min(b, N - lo) for lo in range(0, N, b)]
    if c["bn"]:
        sizes = [s for s in sizes if s >= 4]
    T = len(sizes) * c["epochs"]
    true(len(enc) == len(mod), "encoder and model evaluated differently often in training", enc=len(enc), model=len(mod))
    if not all(bool(torch.isfinite(o).all()) for e in enc for o in e[1]):
        return
    true(len(enc) == T and sorted(x.shape[0] for x, _ in enc[:len(sizes)]) == sorted(sizes), "batches of an epoch", got=[x.shape[0] for x, _ in enc], want=sizes)
    if len(sizes) and sum(sizes) == N and c["imp"] != "random incorrect":
        for e in range(c["epochs"]):
            X = torch.cat([x for x, _ in enc[e * len(sizes):(e + 1) * len(sizes)]])
            close(torch.tensor(sorted(X.tolist())), torch.tensor(sorted(encode(c, c["data"]).tolist())), "encoder inputs of an epoch are not the encoded respondents", atol=1e-5)
    ref = Ref(c["m"])
    losses, eps_all = [], []
    for t, ((x, out), (st_, th)) in enumerate(zip(enc, mod)):
        n = x.shape[0]
        who = assign(c, x)
        if who is None:
            return
        rows, mk = keep[who], mask[who]
        if c["alg"] == "AE":
            exact(th, out[0], "the model is not trained at the encoder's thetas")
            ll = ref.item_ll(st_, th, rows, mk)
            if not torch.isfinite(ll).all() or float(ll.min()) < -39:
                return
            losses.append(-float(ll.sum()) / n)
        else:
            S = c["iw"]
            mu, lv = out[0].double(), out[1].double()
            true(tuple(th.shape) == (S * n, L), "number of sampled thetas", shape=tuple(th.shape))
            z = (th.double() - mu.repeat(S, 1)) / (0.5 * lv.repeat(S, 1)).exp()
            true(float(z.abs().max()) < 7, "sampled thetas do not come from the encoder's normal distribution", z=z)
            eps_all.append(z.flatten())
            f = min(1.0, t / c["ann_it"]) if c["anneal"] else 1.0
            ll = ref.item_ll(st_, th, rows.repeat(S, 1), mk.repeat(S, 1))
            if not torch.isfinite(ll).all() or float(ll.min()) < -39:
                return
            lp = ll.sum(dim=1).view(S, n)
            if S == 1:
                kl = 0.5 * (mu ** 2 + lv.exp() - 1 - lv).sum(dim=1)
                bound = lp[0] - f * kl
            else:
                N01, q = torch.distributions.Normal(torch.zeros((), dtype=torch.float64), 1.0), torch.distributions.Normal(mu.repeat(S, 1), (0.5 * lv.repeat(S, 1)).exp())
                ratio = (q.log_prob(th.double()) - N01.log_prob(th.double())).sum(dim=1).view(S, n)
                bound = torch.logsumexp(lp - f * ratio, dim=0) - np.log(S)
            losses.append(-float(bound.mean()))
    k = c["int"]
    want = [float(np.mean(losses[t - k:t])) for t in range(1, T + 1) if t % k == 0 and t != 1]
    close(torch.tensor(alg.training_history["train_loss"], dtype=torch.float64), torch.tensor(want, dtype=torch.float64), "recorded training losses are not the stated objective", rtol=5e-4, atol=2e-3)
    if eps_all:
        z = torch.cat(eps_all)
        if len(z) >= 60:
            true(abs(float(z.mean())) < 6 / len(z) ** 0.5 and 0.3 < float(z.var()) < 2.4, "sampling noise is not standard normal", mean=z.mean(), var=z.var())
    true(all(bool(torch.isfinite(p).all()) for p in list(m.parameters()) + list(alg.encoder.parameters())), "training ends with non-finite parameters")
    true(tuple(alg.training_theta_scores.shape) == (N, L), "training thetas")


@st.composite
def score_st(draw):
    c = draw(ae_st(deterministic=True, epochs=(1, 3)))
    c["scales"] = draw(scales_st(c["m"]["L"], ("rev", "rot", "flow"), 1, 2)) if draw(st.booleans()) else []
    c["new"] = draw(fit_data_st(cats_of(c["m"]), 4, 6))
    c["coding2"] = draw(st.sampled_from(["nan", "-1", "mixed"]))
    c["used"] = draw(st.booleans())
    c["alpha"] = draw(ints(1, 60))
    return c


@prop.facet("scores", score_st(), 180, 2500, nontriv)
def scores(c):
    """stored training thetas = encoder at the encoded training data in row order = NN scores; NN scores of new data, with scales; NN standard errors and credible intervals of the variational encoder; same results for other codings, a used algorithm and a repeated seed; non-trivial as above"""
    m = build(c["m"])
    L = c["m"]["L"]
    D = data_t(c["data"], c["coding"])
    alg = alg_of(c)
    torch.manual_seed(c["seed"])
    m.fit(D, alg, **kwargs(c))
    tr = alg.training_theta_scores
    if not bool(torch.isfinite(tr).all()):
        return

    def encoder(rows):
        with torch.no_grad():
            o = alg.encoder(encode(c, rows))
        return o if isinstance(o, tuple) else (o, None)
    close(tr, encoder(c["data"])[0], "stored training thetas are not the encoder's scores of the training data", rtol=1e-4, atol=1e-5)
    keep = D.clone()
    close(m.latent_scores(D, theta_estimation="NN", device="cpu"), tr, "NN scores of the training data differ from the stored training thetas", rtol=1e-4, atol=1e-5)
    exact(D, keep, "scoring changed the caller's data")
    for d in c["scales"]:
        m.add_scale_transformation(build_scale(d, m))
    new = data_t(c["new"], c["coding2"])
    mu, lv = encoder(c["new"])
    raw = m.latent_scores(new, theta_estimation="NN", rescale=False, device="cpu")
    close(raw, mu, "NN scores of new data", rtol=1e-4, atol=1e-5)
    with torch.no_grad():
        close(m.latent_scores(new, theta_estimation="NN", device="cpu"), m.transform_theta(mu.clone()), "rescaled NN scores", rtol=1e-4, atol=1e-4)
    if c["alg"] == "VAE":
        se = (0.5 * lv).exp()
        t, e = m.latent_scores(new, standard_errors=True, theta_estimation="NN", rescale=False, device="cpu")
        close(t, mu, "NN scores with standard errors", rtol=1e-4, atol=1e-5)
        close(e, se, "NN standard errors are not the encoder's standard deviations", rtol=1e-4, atol=1e-6)
        if c["scales"]:
            t, e = m.latent_scores(new, standard_errors=True, theta_estimation="NN", device="cpu")
            J = m.theta_transform_jacobian(mu).double()
            want = torch.einsum("nij,nj,nij->ni", J, se.double() ** 2, J).sqrt()
            close(e, want, "rescaled NN standard errors are not the delta method's", rtol=1e-3, atol=1e-5)
        a = c["alpha"] / 100
        lo, mid, up = alg.latent_credible_interval(encode(c, c["new"]), alpha=a)
        z = sps.norm.ppf(1 - a / 2)
        close(lo, mu.double() - z * se.double(), "lower credible bound", rtol=1e-3, atol=1e-4)
        close(mid, mu, "credible interval centre", rtol=1e-4, atol=1e-5)
        close(up, mu.double() + z * se.double(), "upper credible bound", rtol=1e-3, atol=1e-4)
    else:
        t, e = m.latent_scores(new, standard_errors=True, theta_estimation="NN", rescale=False, device="cpu")
        close(t, mu, "NN scores with standard errors", rtol=1e-4, atol=1e-5)
        with torch.no_grad():
            info = torch.diagonal(m.information(mu, item=False, rescale=False), dim1=1, dim2=2)
        close(e, 1 / info.sqrt(), "NN standard errors without a variational encoder are not from the information", rtol=1e-3, atol=1e-5)
    # repeated fit: same seed, other coding, used algorithm
    m2, alg2 = build(c["m"]), alg_of(c)
    if c["used"]:
        s0 = state_of(m2)
        m2.fit(data_t(c["new"], "nan"), alg2, **dict(kwargs(c), max_epochs=1, batch_size=None))
        m2.load_state_dict(s0)
    torch.manual_seed(c["seed"])
    m2.fit(data_t(c["data"], c["coding2"]), alg2, **kwargs(c))
    exact(alg2.training_theta_scores, tr, "training thetas depend on the missing coding or on earlier use, or are not reproducible")
    true(alg2.training_history["train_loss"] == alg.training_history["train_loss"], "training losses depend on the missing coding or on earlier use", a=alg.training_history, b=alg2.training_history)
    same_state(state_of(m2), state_of(m), "fitted parameters depend on the missing coding or on earlier use")
    true(tuple(alg2.train_data.shape) == tuple(D.shape), "stored training data", shape=tuple(alg2.train_data.shape))


@prop.facet("sampling", ae_st(("VAE",), epochs=(1, 1), deterministic=True), 80, 1200, lambda c: sum(cats_of(c["m"])) > 3)
def sampling(c):
    """population samples of a variational autoencoder are encoder draws of its (training or given) respondents; non-trivial: more than three categories in total"""
    m, alg = build(c["m"]), alg_of(c)
    D = data_t(c["data"], c["coding"])
    m.fit(D, alg, **kwargs(c))
    with torch.no_grad():
        for l in (alg.encoder.sigma_layer,):
            l.weight.zero_(); l.bias.fill_(-40.0)
        want = alg.encoder(encode(c, c["data"]))[0]
        if not bool(torch.isfinite(want).all()):
            return
        for arg in (None, D):
            s = alg.sample_latent_variables(m, 40, arg)
            true(tuple(s.shape) == (40, c["m"]["L"]), "sample shape", shape=tuple(s.shape))
            d = (s.unsqueeze(1) - want.unsqueeze(0)).abs().amax(dim=2)
            true(float(d.min(dim=1).values.max()) < 1e-4, "a sampled theta is not an encoding of any respondent", d=d.min(dim=1).values)
            if len(torch.unique(want.round(decimals=3), dim=0)) > 2:
                true(len(set(d.argmin(dim=1).tolist())) > 1, "all samples come from one respondent")
        alg.encoder.sigma_layer.bias.fill_(float(2 * np.log(0.5)))
        torch.manual_seed(c["seed"])
        s = alg.sample_latent_variables(m, 4000, D[:1])
        if c["imp"] == "mean" and any(v is None for v in c["data"][0]):
            return
        z = (s - alg.encoder(encode(c, c["data"][:1]))[0]) / 0.5
        true(float(z.mean(dim=0).abs().max()) < 0.12 and float((z.std(dim=0) - 1).abs().max()) < 0.1, "sampled thetas do not follow the encoder's normal distribution", mean=z.mean(dim=0), sd=z.std(dim=0))


@prop.facet("improves", ae_st(("AE",), epochs=(8, 12)), 80, 1200, nontriv)
def improves(c):
    """with small steps from a clear gradient the full-batch autoencoder loss of the final state is below that of the start; non-trivial as above"""
    c = dict(c, lr=0.001, batch=None, bn=False, int=1)
    m = build(c["m"])
    D = data_t(c["data"], c["coding"])
    mask, alg, start, ref = missing(D), alg_of(c), state_of(m), Ref(c["m"])
    t0 = torch.zeros(D.shape[0], c["m"]["L"])
    with dflt(torch.float64):
        m64 = build(c["m"])
        p = m64.item_probabilities(t0.double())
        lp = p.gather(2, torch.where(mask, torch.zeros_like(D), D).long().unsqueeze(2)).squeeze(2).clamp_min(1e-300).log()
        torch.where(mask, torch.zeros_like(lp), lp).sum().backward()
        norm = sum(float(q.grad.abs().sum()) for q in m64.parameters() if q.grad is not None)
    l0 = ref.item_ll(start, t0, D, mask)
    if not bool(torch.isfinite(l0).all()) or float(l0.min()) < -39 or norm < 4 or norm > 1e3:
        return
    torch.manual_seed(c["seed"])
    m.fit(D, alg, **kwargs(c))
    if c["imp"] == "random incorrect":
        t1 = alg.training_theta_scores
    else:
        with torch.no_grad():
            t1 = alg.encoder(encode(c, c["data"]))
    l1 = ref.item_ll(state_of(m), t1, D, mask)
    true(float(l1.sum()) > float(l0.sum()) - 0.02, "training with small steps does not improve the likelihood", start=float(l0.sum()), end=float(l1.sum()), gradient=norm)


@st.composite
def stop_st(draw):
    c = draw(ae_st(epochs=(6, 30), deterministic=True))
    c.update(bn=False, int=draw(ints(1, 3)), lr=draw(st.sampled_from([0.05, 0.2, 0.6])), stop=draw(ints(1, 3)))
    return c


@prop.facet("stopping", stop_st(), 120, 1800, lambda c: sum(cats_of(c["m"])) > 3 and c["lr"] > 0.1)
def stopping(c):
    """training ends after the requested number of learning rate reductions (or the maximum number of epochs), and the model and encoder kept are those at the end of the interval with the lowest recorded loss; non-trivial: large steps"""
    m, alg = build(c["m"]), alg_of(c)
    D = data_t(c["data"], c["coding"])
    rec = []

    def pre(module, args):
        if module is m and module.training:
            rec.append((state_of(m), {k: v.detach().clone() for k, v in alg.encoder.state_dict().items()}, alg.optimizer.param_groups[0]["lr"]))
    h = tm.register_module_forward_pre_hook(pre)
    torch.manual_seed(c["seed"])
    try:
        m.fit(D, alg, **dict(kwargs(c), learning_rate_updates_before_stopping=c["stop"]))
    finally:
        h.remove()
    N, k = len(c["data"]), c["int"]
    b = min(c["batch"] or N, N)
    T = c["epochs"] * -(-N // b)
    hist = alg.training_history["train_loss"]
    finite = all(bool(torch.isfinite(v).all()) for s in rec for d in s[:2] for v in d.values() if v.is_floating_point())
    if not finite or not all(np.isfinite(hist)):
        return
    cuts = sum(a[2] > z[2] for a, z in zip(rec, rec[1:]))
    true(all(z[2] <= a[2] for a, z in zip(rec, rec[1:])), "the learning rate grew")
    true(len(rec) <= T, "more iterations than epochs allow", got=len(rec), want=T)
    true(cuts <= c["stop"] - 1, "training went on after the requested number of learning rate reductions", cuts=cuts, stop=c["stop"])
    if len(rec) < T:
        true(cuts == c["stop"] - 1, "training stopped before the requested number of learning rate reductions", cuts=cuts, stop=c["stop"], iterations=len(rec), most=T)
    ends = [t for t in range(1, len(rec) + 1) if t % k == 0 and t != 1]
    true(len(ends) == len(hist), "one recorded loss per interval", got=len(hist), want=len(ends))
    if not hist:
        return
    best = ends[int(np.argmin(hist))]
    if best >= len(rec):            # the state after the last update was not seen
        if any(abs(x - min(hist)) > 1e-9 for x in hist[:-1]) and len(rec) > 1:
            true(any(not torch.equal(v, rec[0][0][q]) for q, v in m.state_dict().items()), "the state of the last, best interval was not kept")
        return
    same_state(state_of(m), rec[best][0], "the fitted model is not the one of the best interval")
    same_state({q: v.detach().clone() for q, v in alg.encoder.state_dict().items()}, rec[best][1], "the encoder is not the one of the best interval")
