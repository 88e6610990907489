from ..gen import *
from .c04 import logp_matrix, blocks

prop = Property("C19", ["component models of a mixed model share the number of latent variables"])


def concat(parts, C):
    out = []
    for p in parts:
        z = torch.zeros(p.shape[0], p.shape[1], C, dtype=p.dtype)
        z[:, :, :p.shape[2]] = p
        out.append(z)
    return torch.cat(out, dim=1)


def part(spec):
    """A component built on its own, with the same (single precision) parameter values it has inside the whole."""
    with dflt(torch.float32):
        m = build(spec)
    return m.to(torch.get_default_dtype())


def mixed_case(**kw):
    return case_data_st(["MIX"], many=True, min_n=1, max_n=4, vmax=20, lo=-30, hi=30, max_items=2, **kw)


@prop.facet("mix", mixed_case(), 2000, 12000, lambda c: rich(c) and len(c["m"]["sub"]) > 1, dtype="float64")
def mix(case):
    """probabilities, expected scores, categories, keys, directions and log-likelihoods of a mixed model against its separately built components; non-trivial: at least two components"""
    s = case["m"]
    m, th = build(s), theta_t(case["theta"])
    subs = [part(x) for x in s["sub"]]
    cats = cats_of(s)
    exact(torch.tensor(m.item_categories), torch.tensor(cats), "item categories of the mixed model")
    true(m.items == len(cats) and m.max_item_responses == max(cats) and m.latent_variables == s["L"], "sizes of the mixed model")
    true(m.mc_correct == mc_of(s), "answer key of the mixed model", got=m.mc_correct, want=mc_of(s))
    kw = dict(rtol=1e-9, atol=1e-12)
    with torch.no_grad():
        P = concat([probs_of(x, th) for x in subs], max(cats))
        close(probs_of(m, th), P, "probabilities of the mixed model", **kw)
        close(m.probabilities_from_output(m(th)), P, "probabilities_from_output(forward)", **kw)
        for j, c in enumerate(cats):
            true((P[:, j, c:] == 0).all(), "harness: padding")
        E = torch.cat([x.expected_scores(th) for x in subs], dim=1)
        close(m.expected_scores(th), E, "expected item scores", **kw)
        close(m.expected_scores(th, return_item_scores=False), E.sum(1), "expected sum score", **kw)
        mc = mc_of(s)
        if mc is None and all(mc_of(x) is None for x in s["sub"]):
            close(m.expected_scores(th), (P * torch.arange(max(cats))).sum(2), "expected item scores from the probabilities", rtol=1e-8, atol=1e-9)
    rows = case["data"]
    want = logp_matrix(m, th, rows)
    obs = ~want.isnan()
    if bool((want[obs] < -600).any()):
        return
    mask = ~obs
    data = torch.where(mask, torch.zeros_like(want), data_t(rows))
    total = torch.zeros((), dtype=torch.float64)
    i, un = 0, []
    for x in subs:
        n = x.items
        d, mk = data[:, i:i + n].contiguous(), mask[:, i:i + n].contiguous()
        total = total + x.log_likelihood(d, x(th), mk, loss_reduction="sum").detach()
        un.append(x.log_likelihood(d, x(th), mk, loss_reduction="none").detach().reshape(-1))
        i += n
    close(m.log_likelihood(data, m(th), mask, loss_reduction="sum").detach(), total, "summed log-likelihood against the components'", rtol=1e-9, atol=1e-9)
    close(m.log_likelihood(data, m(th), mask, loss_reduction="none").detach().reshape(-1), torch.cat(un), "unreduced log-likelihood against the components'", rtol=1e-9, atol=1e-9)


@prop.facet("mix_shared", mixed_case(missing=False), 500, 3000, lambda c: len(c["m"]["sub"]) > 1, dtype="float64")
def mix_shared(case):
    """the components are part of the mixed model: exactly their parameters are estimated, changing one changes the mix, and the gradient of the mix's likelihood is the component's own"""
    s = case["m"]
    subs = [part(x) for x in s["sub"]]
    m, th = im.ModelMix(subs), theta_t(case["theta"])
    own = [id(p) for x in subs for p in x.parameters()]
    true(sorted(own) == sorted(id(p) for p in m.parameters()), "parameters of the mix are not exactly its components'")
    data = data_t(case["data"])
    if bool((logp_matrix(m, th, case["data"]) < -300).any()):
        return
    m.log_likelihood(data, m(th), None, loss_reduction="sum").backward()
    got = [None if p.grad is None else p.grad.clone() for x in subs for p in x.parameters()]
    m.zero_grad()
    i = 0
    want = []
    for x in subs:
        x.log_likelihood(data[:, i:i + x.items].contiguous(), x(th), None, loss_reduction="sum").backward()
        want += [None if p.grad is None else p.grad.clone() for p in x.parameters()]
        i += x.items
    for a, b in zip(got, want):
        true((a is None) == (b is None), "gradient missing")
        if a is not None:
            close(a, b, "gradient of the mixed likelihood", rtol=1e-8, atol=1e-9)
    with torch.no_grad():
        for p in subs[-1].parameters():
            p.add_(0.0625)
        close(probs_of(m, th)[:, -subs[-1].items:, :max(subs[-1].item_categories)], probs_of(subs[-1], th)[:, :, :max(subs[-1].item_categories)], "mix does not follow its component", rtol=1e-9, atol=1e-12)


def bsp_basis(x, knots, degree):
    from scipy.interpolate import BSpline
    t = np.concatenate([np.zeros(degree + 1), knots, np.ones(degree + 1)])
    nb = len(t) - degree - 1
    return np.stack([BSpline(t, np.eye(nb)[i], degree, extrapolate=False)(x) for i in range(nb)], axis=-1)


def incorrect_model(m, s, th):
    """The distribution over the incorrect options, computed from the free parameters alone."""
    cats, L = s["cats"], s["L"]
    mask = np.array(s.get("mask") or [[True] * L for _ in cats])
    inc = [c - 1 for c in cats]
    C = max(inc)
    z = np.zeros((len(th), len(cats), C))
    if s["opt"]["inc"] == "nominal":
        w, b = m.nominal_response_model.weight_param.detach().numpy(), m.nominal_response_model.bias_param.detach().numpy()
        wi = bi = 0
        for j, c in enumerate(inc):
            for k in range(1, c):
                z[:, j, k] += b[bi]; z[:, j, 0] -= b[bi]; bi += 1
                for l in range(L):
                    if mask[j, l]:
                        z[:, j, k] += w[wi] * th[:, l]; z[:, j, 0] -= w[wi] * th[:, l]; wi += 1
        true(wi == len(w) and bi == len(b), "number of free incorrect-option parameters", got=(len(w), len(b)), want=(wi, bi))
    else:
        kn = np.array([x / 10 for x in s["opt"]["knots"]] if s["opt"].get("knots") else [-1.7, -0.7, 0, 0.7, 1.7])
        kn = torch.tensor(kn, dtype=torch.float32).sigmoid().double().numpy()
        co = m.coefficients.detach().numpy()
        i = 0
        for l in range(L):
            B = bsp_basis(1 / (1 + np.exp(-th[:, l])), kn, s["opt"]["degree"])
            for q in range(B.shape[1]):
                for j, c in enumerate(inc):
                    if mask[j, l]:
                        for k in range(c):
                            z[:, j, k] += co[i] * B[:, q]; i += 1
        true(i == len(co), "number of free incorrect-option coefficients", got=len(co), want=i)
    q = np.zeros_like(z)
    for j, c in enumerate(inc):
        e = np.exp(z[:, j, :c] - z[:, j, :c].max(1, keepdims=True))
        q[:, j, :c] = e / e.sum(1, keepdims=True)
    return q


@prop.facet("nested", case_st(["NEST"], max_items=4, max_cats=5), 2500, 14000, rich, dtype="float64")
def nested(case):
    """correct option = correct model's P(1); the other options share P(0) as the nominal or spline model of the free parameters says (scipy B-splines); changing only the correct model leaves the conditional distribution alone and vice versa"""
    s = case["m"]
    m, th = build(s), theta_t(case["theta"])
    p = probs_of(m, th).numpy()
    pc = probs_of(part(s["corr"]), th).numpy()
    q = incorrect_model(m, s, th.numpy())
    for j, c in enumerate(s["cats"]):
        k = s["mc"][j]
        opts = [x for x in range(c) if x != k]
        close(p[:, j, k], pc[:, j, 1], "probability of the correct option", rtol=1e-7, atol=1e-9)
        close(p[:, j, opts], pc[:, j, :1] * q[:, j, :c - 1], "probabilities of the incorrect options", rtol=1e-5, atol=1e-8)
        true((p[:, j, c:] == 0).all(), "probability on a category the item does not have")
    with torch.no_grad():
        for x in m.correct_response_model.parameters():
            x.mul_(0.5)
        if m.correct_response_model.__class__.__name__ == "GradedResponse":
            order_grm(m.correct_response_model)
    p2 = probs_of(m, th).numpy()
    pc2 = probs_of(m.correct_response_model, th).numpy()
    for j, c in enumerate(s["cats"]):
        k = s["mc"][j]
        opts = [x for x in range(c) if x != k]
        close(p2[:, j, k], pc2[:, j, 1], "correct option after changing the correct model", rtol=1e-7, atol=1e-9)
        close(p2[:, j, opts], pc2[:, j, :1] * q[:, j, :c - 1], "incorrect options after changing only the correct model", rtol=1e-5, atol=1e-8)
    exp_ = m.expected_scores(th).detach().numpy()
    close(exp_, pc2[:, :, 1], "expected score of a nested multiple-choice item is the probability of the correct option", rtol=1e-7, atol=1e-9)
