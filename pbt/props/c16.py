from ..fitlib import *

prop = Property("C16", ["training data with varying sum scores when the standardised sum scores are the start",
                        "losses are judged where no response probability falls below 1e-17; improvement for small learning rates from starts with a clear gradient; row-order invariance on the recorded losses within 1e-3 over the first steps"])


@st.composite
def jml_st(draw, epochs=(1, 4), max_L=3):
    s = draw(spec_st(FITTABLE, max_L=max_L, max_items=3, max_cats=4, vmax=15))
    rows = draw(fit_data_st(cats_of(s), 3, 7))
    n = len(rows)
    c = {"m": s, "data": rows, "coding": draw(st.sampled_from(["nan", "-1", "mixed"])), "lr": draw(st.sampled_from([None, 0.01, 0.3])),
         "epochs": draw(ints(*epochs)), "seed": draw(ints(0, 99)), "batch": draw(st.sampled_from([None, None, 1, 2, 3, n + 2])),
         "start": draw(theta_st(s["L"], n, n, -20, 20)) if draw(st.booleans()) else None}
    if draw(ints(0, 9)) == 0 and epochs == (1, 4):
        c["epochs"], c["lr"], c["patience"], c["stops"] = 30, draw(st.sampled_from([0.3, 1.0])), draw(ints(0, 3)), draw(ints(1, 3))
    return c


def sums(c):
    mc = mc_of(c["m"])
    return torch.tensor([sum((float(v == mc[j]) if mc is not None else float(v)) for j, v in enumerate(r) if v is not None) for r in c["data"]])


def kwargs(c):
    k = {"max_epochs": c["epochs"], "device": "cpu"}
    if c["lr"] is not None:
        k["learning_rate"] = c["lr"]
    if c["batch"] is not None:
        k["batch_size"] = c["batch"]
    if c["start"] is not None:
        k["start_thetas"] = theta_t(c["start"])
    if "patience" in c:
        k["learning_rate_update_patience"], k["learning_rate_updates_before_stopping"] = c["patience"], c["stops"]
    return k


def usable(c):
    return c["start"] is not None or len(set(sums(c).tolist())) > 1


def nontriv(c):
    return usable(c) and len(c["data"]) > 2 and sum(cats_of(c["m"])) > 3


def joint(ref, state, theta, D, mask):
    ll = ref.item_ll(state, theta, D, mask)
    return -float(ll.sum()), float(ll.min())


@prop.facet("loss", jml_st(), 260, 4000, nontriv)
def loss(c):
    """start thetas as given or standardised sum scores; recorded losses = minus the log-likelihood of the batch at the thetas and parameters in use (double precision); final thetas one row per respondent, with the best joint likelihood visited; caller's tensors unchanged; non-trivial: usable start, three respondents, four categories"""
    from irtorch.estimation_algorithms import JML
    if not usable(c):
        return
    m = build(c["m"])
    L, N = c["m"]["L"], len(c["data"])
    D = data_t(c["data"], c["coding"])
    keep, mask = D.clone(), missing(D)
    kw = kwargs(c)
    alg, start = JML(), state_of(m)
    torch.manual_seed(c["seed"])
    with watch(m, lambda: alg.training_theta_scores.detach().clone()) as rec:
        m.fit(D, alg, **kw)
    exact(D, keep, "fitting changed the caller's data")
    if c["start"] is not None:
        exact(kw["start_thetas"], theta_t(c["start"]), "fitting changed the caller's start thetas")
    true(m.algorithm is alg and not m.training and all(p.requires_grad for p in m.parameters()), "state of the fitted model")
    same_state(rec[0][0], start, "fitting does not start from the model's parameters")
    t0 = rec[0][2]
    true(tuple(t0.shape) == (N, L), "start thetas have the wrong shape", shape=tuple(t0.shape))
    if c["start"] is not None:
        exact(t0, theta_t(c["start"]), "start thetas are not the given ones")
    else:
        z = sums(c)
        z = (z - z.mean()) / z.std()
        close(t0, z.view(-1, 1).repeat(1, L), "start thetas are not the standardised sum scores", rtol=0, atol=1e-4 if L == 1 else 0.7)
    hist = alg.training_history["train_loss"]
    b = min(c["batch"] or N, N)
    nb = -(-N // b)
    true(len(hist) == c["epochs"] * nb or ("patience" in c and 0 < len(hist) <= c["epochs"] * nb), "one loss per batch", n=len(hist))
    ref = Ref(c["m"])
    tol = lambda v: 2e-4 * abs(v) + 2e-3
    steps = [r for r in rec]
    full = []
    i = 0
    for k, h in enumerate(hist):
        lo = (k % nb) * b
        idx = slice(lo, min(lo + b, N))
        while True:
            if i >= len(steps):
                fail(f"recorded loss {h} of step {k} is not minus the log-likelihood of its batch at the thetas and parameters in use", losses=hist)
            st_, _, th = steps[i]
            i += 1
            v, low = joint(ref, st_, th[idx], keep[idx], mask[idx])
            if not np.isfinite(v) or low < -39:
                return
            if k % nb == 0 or nb == 1:
                f, flow = joint(ref, st_, th, keep, mask)
                full.append(f)
                if not np.isfinite(f) or flow < -39:
                    return
            if abs(v - h) <= tol(v):
                break
    end = alg.training_theta_scores
    true(isinstance(end, torch.Tensor) and tuple(end.shape) == (N, L) and bool(torch.isfinite(end).all()), "training thetas", theta=end)
    v, _ = joint(ref, state_of(m), end.detach(), keep, mask)
    true(np.isfinite(v), "the fitted state has no finite joint likelihood")
    if nb == 1:
        true(v <= full[0] + tol(v), "the joint likelihood is worse after fitting", start=full[0], end=v)
        true(v <= min(full) + tol(v), "the fitted state is not the best visited", best=min(full), end=v)


@prop.facet("improves", jml_st(epochs=(6, 10), max_L=2), 120, 2000, nontriv)
def improves(c):
    """with small steps and a clear gradient at the start, fitting strictly improves the joint likelihood, in one or several batches; a respondent without responses and an unrelated latent variable keep their start; non-trivial as above"""
    from irtorch.estimation_algorithms import JML
    if not usable(c):
        return
    c = dict(c, lr=0.002)
    rows = [list(r) for r in c["data"]]
    if c["start"] is not None and c["seed"] % 2:
        rows[-1] = [None] * len(rows[-1])
    m = build(c["m"])
    D = data_t(rows, c["coding"])
    mask = missing(D)
    ref, alg, start = Ref(c["m"]), JML(), state_of(m)
    torch.manual_seed(c["seed"])
    with watch(m, lambda: alg.training_theta_scores.detach().clone()) as rec:
        m.fit(D, alg, **kwargs(c))
    t0, end = rec[0][2], alg.training_theta_scores.detach()
    if rows[-1] == [None] * len(rows[-1]):
        exact(end[-1], t0[-1], "a respondent without responses moved")
    v0, low = joint(ref, start, t0, D, mask)
    v1, _ = joint(ref, state_of(m), end, D, mask)
    if not np.isfinite(v0) or low < -39:
        return
    with dflt(torch.float64):
        m64 = build(c["m"])
        t = t0.double().requires_grad_(True)
        p = m64.item_probabilities(t)
        idx = torch.where(mask, torch.zeros_like(D), D).long().unsqueeze(2)
        lp = p.gather(2, idx).squeeze(2).clamp_min(1e-300).log()
        torch.where(mask, torch.zeros_like(lp), lp).sum().backward()
        norm = sum(float(q.grad.abs().sum()) for q in m64.parameters() if q.grad is not None) + float(t.grad.abs().sum())
        big = max([float(q.grad.abs().max()) for q in m64.parameters() if q.grad is not None and q.numel()] + [float(t.grad.abs().max())])
    if norm < 4 or norm > 1e3 or big < 1:
        return
    true(v1 < v0, "fitting with small steps does not improve the joint likelihood", start=v0, end=v1, gradient=norm)


@st.composite
def inv_st(draw):
    c = draw(jml_st(max_L=2, epochs=(2, 5)))
    c.pop("patience", None)
    c["perm"] = draw(st.permutations(list(range(len(c["data"])))))
    c["coding2"] = draw(st.sampled_from(["nan", "-1", "mixed"]))
    c["used"] = draw(st.booleans())
    return c


@prop.facet("history", inv_st(), 140, 2000, nontriv)
def history(c):
    """same result for another missing coding and a used algorithm and model; reproducible under a seed; same losses and thetas for permuted rows; non-trivial as above"""
    from irtorch.estimation_algorithms import JML
    if not usable(c):
        return

    def run(rows, coding, alg, kw, used=False):
        m = build(c["m"])
        if used:
            s0 = state_of(m)
            m.fit(data_t(rows, "nan")[:2].repeat(2, 1), alg, max_epochs=2, device="cpu", start_thetas=torch.ones(4, c["m"]["L"]))
            m.load_state_dict(s0)
        torch.manual_seed(c["seed"])
        m.fit(data_t(rows, coding), alg, **kw)
        return m, alg
    m, a = run(c["data"], c["coding"], JML(), kwargs(c))
    if not all(np.isfinite(a.training_history["train_loss"])):
        return
    m2, b = run(c["data"], c["coding2"], JML(), kwargs(c), c["used"])
    same_state(state_of(m2), state_of(m), "fitted parameters depend on the missing coding or on earlier use")
    exact(b.training_theta_scores.detach(), a.training_theta_scores.detach(), "training thetas depend on the missing coding or on earlier use")
    true(b.training_history["train_loss"] == a.training_history["train_loss"], "training history depends on the missing coding or on earlier use")
    true(tuple(b.train_data.shape) == (len(c["data"]), len(cats_of(c["m"]))), "stored training data", shape=tuple(b.train_data.shape))
    if c["m"]["L"] == 1 or c["start"] is not None:
        pr = c["perm"]
        kw = dict(kwargs(c), learning_rate=0.001, max_epochs=2, batch_size=len(pr))
        _, x = run(c["data"], c["coding"], JML(), kw)
        kw2 = dict(kw)
        if c["start"] is not None:
            kw2["start_thetas"] = kw["start_thetas"][torch.tensor(pr)]
        _, y = run([c["data"][i] for i in pr], c["coding"], JML(), kw2)
        close(torch.tensor(y.training_history["train_loss"]), torch.tensor(x.training_history["train_loss"]), "losses depend on the order of the respondents", rtol=1e-3, atol=1e-3)
        close(y.training_theta_scores.detach(), x.training_theta_scores.detach()[torch.tensor(pr)], "training thetas do not follow the order of the respondents", rtol=0, atol=5e-3)


@st.composite
def stop_st(draw):
    c = draw(jml_st(max_L=2, epochs=(20, 60)))
    c["lr"], c["patience"], c["stops"] = draw(st.sampled_from([0.3, 1.0, 3.0])), draw(ints(0, 4)), draw(ints(1, 3))
    return c


@prop.facet("stopping", stop_st(), 90, 1500, nontriv)
def stopping(c):
    """large steps: training ends once the learning rate was reduced the requested number of times, each after the requested patience, or at the maximum number of epochs; non-trivial as above"""
    from irtorch.estimation_algorithms import JML
    if not usable(c):
        return
    m, alg = build(c["m"]), JML()
    with watch(m, lambda: learning_rate(alg)) as rec:
        m.fit(data_t(c["data"], c["coding"]), alg, **kwargs(c))
    hist = alg.training_history["train_loss"]
    if not all(np.isfinite(hist)) or len(rec) != len(hist):
        return
    n = len(c["data"])
    stop_check([r[2] for r in rec], len(hist), c["epochs"] * -(-n // min(c["batch"] or n, n)), c)
