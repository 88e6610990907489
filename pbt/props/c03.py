from ..gen import *
import copy
from ..histlib import twin_cases, twin_check

prop = Property("C03", ["one thread, CPU; batch composition may change results only by rounding"])
K3 = [k for k in ALL]


def quantities(m, theta, data):
    """Everything that is defined per respondent, respondents first."""
    mask = (data == -1) | data.isnan()
    ev = m.evaluate
    with torch.no_grad():
        out = {
            "item_probabilities": m.item_probabilities(theta.clone()),
            "expected_scores": m.expected_scores(theta.clone()),
            "expected sum score": m.expected_scores(theta.clone(), return_item_scores=False),
            "log_likelihood": ev.log_likelihood(data.clone(), theta.clone(), reduction="none"),
            "respondent log_likelihood": ev.log_likelihood(data.clone(), theta.clone(), reduction="sum", level="respondent"),
            "residuals": ev.residuals(data.clone(), theta.clone()),
        }
    out["probability_gradients"] = m.probability_gradients(theta.clone())
    out["expected_item_score_gradients"] = m.expected_item_score_gradients(theta.clone())
    out["information"] = m.information(theta.clone())
    out["test information"] = m.information(theta.clone(), item=False)
    return {k: v.detach() for k, v in out.items()}


@prop.facet("batch", case_data_st(min_n=2, max_n=5, vmax=20, lo=-30, hi=30), 500, 9000, rich, dtype="float64")
def batch(case):
    """per-respondent quantities of a batch equal those of single rows, of a permuted and a duplicated batch"""
    m = build(case["m"])
    theta, data = theta_t(case["theta"]), data_t(case["data"], "mixed")
    n = len(theta)
    full = quantities(m, theta, data)
    perm = torch.arange(n - 1, -1, -1)
    dup = torch.cat([torch.arange(n), torch.arange(n)])
    for name, idx in [("reversed order", perm), ("duplicated", dup)] + [(f"row {i} alone", torch.tensor([i])) for i in range(n)]:
        part = quantities(m, theta[idx], data[idx])
        for k in full:
            close(part[k], full[k][idx], f"{k} of the batch vs {name}", rtol=1e-7, atol=1e-9)


@st.composite
def large_st(draw):
    c = draw(case_data_st(min_n=2, max_n=4, vmax=20, lo=-30, hi=30))
    c["n"] = draw(st.sampled_from(CROWDS + [2100]))
    c["step"] = draw(ints(1, 30))
    c["scales"] = draw(scales_st(c["m"]["L"], ("rev", "rot", "flow"), 0, 2))
    return c


@prop.facet("large_batch", large_st(), 60, 900, rich, shard_min=8)
def large_batch(case):
    """respondents repeated in a batch of up to two thousand get what they get in a batch of at most four, on the theta scale and rescaled, as do their transformed thetas and scores"""
    m = build(case["m"])
    for d in case["scales"]:
        m.add_scale_transformation(build_scale(d, m))
    theta, data = theta_t(case["theta"]), data_t(case["data"], "mixed")
    k = len(theta)
    idx = torch.tensor([(i + (i // (k + case["step"]))) % k for i in range(case["n"])])

    def all_of(t, d):
        out = quantities(m, t, d)
        with torch.no_grad():
            out["transformed theta"] = m.transform_theta(t.clone())
            out["Jacobian"] = m.theta_transform_jacobian(t.clone())
            out["gradients (rescaled)"] = m.expected_item_score_gradients(t.clone())
            if m.latent_variables <= 3: out["EAP scores"] = m.latent_scores(d.clone(), theta_estimation="EAP", eap_theta_integration_points=3, rescale=False)
        return out
    full, base = all_of(theta[idx], data[idx]), all_of(theta, data)
    for n in base:
        a, b = full[n], base[n][idx]
        true(a.shape == b.shape, f"{n}: shape in a batch of {case['n']}", got=tuple(a.shape))
        ok = torch.isfinite(a) & torch.isfinite(b)
        true(bool((torch.isfinite(a) == torch.isfinite(b)).all()), f"{n}: missing entries in a batch of {case['n']}")
        scale = 1 + float(b[ok].abs().max()) if bool(ok.any()) else 1.0
        close(a[ok], b[ok], f"{n} in a batch of {case['n']} vs a batch of {k}", rtol=1e-3, atol=1e-4 * scale)
    # averages over the large batch are averages over its rows
    share = torch.bincount(idx, minlength=k).to(theta.dtype) / case["n"]
    with torch.no_grad():
        got = m.population_difficulty(theta[idx])
        rows = torch.stack([m.population_difficulty(theta[i:i + 1]) for i in range(k)])
    close(got, (share.unsqueeze(1) * rows).sum(dim=0), f"difficulty in a population of {case['n']}", rtol=1e-3, atol=1e-4)
    got = m.population_discrimination(theta[idx]).detach()
    rows = torch.stack([m.population_discrimination(theta[i:i + 1]).detach() for i in range(k)])
    ok = torch.isfinite(rows).all(dim=0) & torch.isfinite(got)
    want = (share.view(-1, 1, 1) * rows.nan_to_num()).sum(dim=0)
    close(got[ok], want[ok], f"discrimination in a population of {case['n']}", rtol=1e-3, atol=1e-4 * (1 + float(rows.nan_to_num().abs().max())))


OPS = ["probs", "scores", "sumscore", "ll", "pgrad", "egrad", "egrad2", "info", "info_deg", "difficulty", "discrimination", "directions",
       "sample", "residuals", "accuracy", "predictions", "infit", "evll", "evll_item", "group", "groupres", "groupll", "q3", "mid", "ml", "map", "eap", "transform", "jac"]


def op(name, m, theta, data):
    torch.manual_seed(7)
    mask = (data == -1) | data.isnan()
    ev, L = m.evaluate, m.latent_variables
    if name == "probs": return m.item_probabilities(theta)
    if name == "scores": return m.expected_scores(theta)
    if name == "sumscore": return m.expected_scores(theta, return_item_scores=False)
    if name == "ll": return m.log_likelihood(data, m(theta), mask, loss_reduction="sum")
    if name == "pgrad": return m.probability_gradients(theta)
    if name == "egrad": return m.expected_item_score_gradients(theta)
    if name == "egrad2": return m.expected_item_score_gradients(theta, rescale_by_item_score=False, rescale=False)
    if name == "info": return m.information(theta)
    if name == "info_deg": return m.information(theta, item=False, degrees=[30.0] * L)
    if name == "difficulty": return m.population_difficulty(theta)
    if name == "discrimination": return m.population_discrimination(theta)
    if name == "directions":
        g = torch.Generator().manual_seed(3)
        return m.item_theta_relationship_directions(torch.randn(12, L, generator=g))
    if name == "sample": return m.sample_test_data(theta)
    if name == "residuals": return ev.residuals(data, theta)
    if name == "accuracy": return ev.accuracy(data, theta)
    if name == "predictions": return torch.tensor(ev.predictions(data, theta).to_numpy().astype(float))
    if name == "infit": return torch.cat(ev.infit_outfit(data, theta))
    if name == "evll": return ev.log_likelihood(data, theta, reduction="none")
    if name == "evll_item": return ev.log_likelihood(data, theta, reduction="mean", level="item")
    if name == "group": return torch.cat([x.flatten() for x in ev.latent_group_probabilities(data, theta, groups=2)])
    if name == "groupres": return ev.group_fit_residuals(data, theta, groups=2)[0]
    if name == "groupll": return ev.group_fit_log_likelihood(data, theta, groups=2)
    if name == "q3":
        if m.items < 2: return torch.zeros(1)
        d = torch.tensor([[(i * (j + 1)) % 2 for j in range(m.items)] for i in range(len(theta) * 3)], dtype=theta.dtype)
        return torch.tensor(ev.q3(d, theta.repeat(3, 1))[0].to_numpy().astype(float))
    if name == "mid":
        if m.items < 2 or mask.any(): return torch.zeros(1)
        return torch.tensor(ev.mutual_information_difference(data, theta)[0].to_numpy().astype(float))
    if name == "ml": return m.latent_scores(data, theta_estimation="ML")
    if name == "map": return m.latent_scores(data, theta_estimation="MAP")
    if name == "eap": return m.latent_scores(data, theta_estimation="EAP", eap_theta_integration_points=5)
    if name == "transform": return m.transform_theta(theta)
    if name == "jac": return m.theta_transform_jacobian(theta)
    raise ValueError(name)


@st.composite
def hist_st(draw):
    c = draw(case_data_st(min_n=2, max_n=4, vmax=15, lo=-30, hi=30, max_L=2))
    c["ops"] = [draw(st.sampled_from(OPS)) for _ in range(draw(ints(1, 6)))]
    c["req"] = draw(st.booleans())
    c["freeze"] = draw(st.booleans())
    c["train"] = draw(st.booleans())
    return c


@prop.facet("history", hist_st(), 360, 5000, lambda c: rich(c) and len(c["ops"]) >= 2)
def history(case):
    """a random sequence of evaluations on one model: each result equals that on a fresh model; parameters, requires_grad flags, theta and data stay as they were"""
    m = build(case["m"])
    theta, data = theta_t(case["theta"]), data_t(case["data"], "mixed")
    if case["freeze"]:
        for i, p in enumerate(m.parameters()):
            p.requires_grad_(i % 2 == 0)
    if case["req"]:
        theta.requires_grad_(True)
    t0, d0 = theta.detach().clone(), data.clone()
    state = {k: v.clone() for k, v in m.state_dict().items()}
    flags = {k: p.requires_grad for k, p in m.named_parameters()}
    for i, name in enumerate(case["ops"]):
        r = op(name, m, theta, data)
        exact(theta, t0, f"theta after {name}")
        exact(data, d0, f"data after {name}")
        true(theta.requires_grad == case["req"], f"requires_grad of theta changed by {name}")
        true(theta.grad is None, f"{name} left a gradient on the caller's theta")
        now = m.state_dict()
        true(set(now) == set(state), f"state entries changed by {name}")
        for k in state:
            exact(now[k], state[k], f"parameter {k} after {name}")
        for k, p in m.named_parameters():
            true(p.requires_grad == flags[k], f"requires_grad of {k} changed by {name}")
            if name not in ("egrad", "egrad2", "discrimination"):
                pass
        fresh = op(name, build(case["m"]), t0.clone(), d0.clone())
        a, b = r.detach(), fresh.detach()
        what = f"{name} after {case['ops'][:i]} vs on a fresh model"
        if name in ("ml", "map") and a.shape == b.shape and not torch.equal(a, b):
            # the optimiser amplifies rounding in flat directions: then the maximised function must agree
            ca, cb = (m.evaluate.log_likelihood(d0, x, level="respondent") for x in (a, b))
            if bool(((ca - cb).abs() <= 1e-2 * (1 + cb.abs())).all()):
                continue
        close(a, b, what, rtol=1e-4, atol=1e-4)
    true(torch.is_grad_enabled(), "gradient mode left disabled")


PRE = ["MBS", "SURP", "NEST"]


@prop.facet("precomputed", case_data_st(kinds=PRE, min_n=2, max_n=5, vmax=20, lo=-40, hi=40), 250, 5000, rich, dtype="float64")
def precomputed(case):
    """spline models whose basis was precomputed for a batch give, for that batch, the results of direct evaluation (fitting relies on it), also when the basis is recomputed for another batch"""
    m = build(case["m"])
    if not hasattr(m, "basis"):
        return
    if case["m"]["k"] == "NEST" and case["m"]["opt"]["inc"] != "bspline":
        return
    theta, data = theta_t(case["theta"]), data_t(case["data"], "mixed")
    other = theta.flip(0)[:1] * 0.5 + 0.25
    with torch.no_grad():
        want = [m(t.clone()) for t in (theta, other)]
        for t, w in ((theta, want[0]), (other, want[1]), (theta, want[0])):
            t0 = t.clone()
            m.precompute_basis(t)
            exact(t, t0, "theta after precomputing the basis")
            close(m(t), w, "output with a precomputed basis", rtol=1e-9, atol=1e-12)
        m.basis = None
        close(m(other), want[1], "output after removing the basis", rtol=1e-9, atol=1e-12)
    grads = []
    for pre in (False, True):
        m.zero_grad()
        m.basis = None
        if pre:
            m.precompute_basis(theta)
        mask = (data == -1) | data.isnan()
        if mask.all():
            return
        m.log_likelihood(data.nan_to_num(0).clamp(min=0), m(theta), mask, loss_reduction="sum").backward()
        grads.append([torch.zeros_like(p) if p.grad is None else p.grad.clone() for p in m.parameters()])
    for (k, _), a, b in zip(m.named_parameters(), grads[1], grads[0]):
        close(a, b, f"gradient of the log-likelihood for {k} with a precomputed basis", rtol=1e-8, atol=1e-9)


CALLS = {
    "item probabilities": lambda m, d, t: m.item_probabilities(t),
    "expected scores": lambda m, d, t: m.expected_scores(t),
    "expected sum scores": lambda m, d, t: m.expected_scores(t, return_item_scores=False),
    "likelihood": lambda m, d, t: m.log_likelihood(d.nan_to_num(0).clamp(min=0), m(t), (d == -1) | d.isnan(), loss_reduction="none"),
    "probability gradients": lambda m, d, t: m.probability_gradients(t),
    "score gradients": lambda m, d, t: m.expected_item_score_gradients(t),
    "information": lambda m, d, t: m.information(t, item=False),
    "difficulty": lambda m, d, t: m.population_difficulty(t),
    "discrimination": lambda m, d, t: m.population_discrimination(t),
    "sampled responses": lambda m, d, t: m.sample_test_data(t),
    "transformed thetas": lambda m, d, t: m.transform_theta(t),
    "transformation Jacobian": lambda m, d, t: m.theta_transform_jacobian(t),
}


@prop.facet("changes", twin_cases(12), 200, 3000, lambda c: rich(c) and len(c["steps"]) > 3)
def changes(case):
    """model evaluations between changes of parameters, data, thetas, codings, scales and training results: each equals that of a fresh model in the same state, so nothing is remembered across changes"""
    twin_check(case, CALLS)
