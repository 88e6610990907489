from ..gen import *

prop = Property("C08", ["an item's parameters are found by perturbing every scalar parameter in turn"])


@st.composite
def masked_st(draw):
    c = draw(case_st(kinds=MASKABLE, max_n=3, vmax=20, lo=-30, hi=30, L=draw(ints(2, 3)), force_mask=True))
    c["shift"] = [draw(ints(-40, 40)) for _ in range(c["m"]["L"])]
    return c


def related(s):
    n, L = len(s["cats"]), s["L"]
    own = s.get("mask") or [[True] * L for _ in range(n)]
    if s["k"] != "NEST":
        return own
    corr = s["corr"].get("mask") or [[True] * L for _ in range(n)]
    return [[bool(a or b) for a, b in zip(x, y)] for x, y in zip(own, corr)]


NT = lambda c: rich(c) and any(not v for r in related(c["m"]) for v in r)


@prop.facet("unrelated", masked_st(), 1500, 16000, NT, dtype="float64")
def unrelated(case):
    """changing an unrelated latent variable leaves probabilities and expected score unchanged, gradients and information along it zero; non-trivial: some unrelated pair"""
    s = case["m"]
    m, theta = build(s), theta_t(case["theta"]) + 0.0317
    p = probs_of(m, theta)
    with torch.no_grad():
        e = m.expected_scores(theta.clone())
    pg = m.probability_gradients(theta.clone()).detach()
    eg = m.expected_item_score_gradients(theta.clone())
    info = m.information(theta.clone())
    for i, row in enumerate(related(s)):
        free = [l for l in range(s["L"]) if not row[l]]
        if not free:
            continue
        t2 = theta.clone()
        for l in free:
            t2[:, l] += case["shift"][l] / 10
        close(probs_of(m, t2)[:, i], p[:, i], f"probabilities of item {i} after changing unrelated variables {free}", rtol=1e-9, atol=1e-12)
        with torch.no_grad():
            close(m.expected_scores(t2.clone())[:, i], e[:, i], f"expected score of item {i} after changing unrelated variables", rtol=1e-9, atol=1e-12)
        for l in free:
            true((pg[:, i, :, l].abs() < 1e-12).all(), f"probability gradient of item {i} along unrelated variable {l}", g=pg[:, i, :, l])
            true((eg[:, i, l].abs() < 1e-12).all(), f"score gradient of item {i} along unrelated variable {l}", g=eg[:, i, l])
            true((info[:, i, l].abs() < 1e-12).all() and (info[:, i, :, l].abs() < 1e-12).all(), f"information of item {i} along unrelated variable {l}", g=info[:, i])


@st.composite
def own_st(draw):
    c = draw(case_st(kinds=ALL, max_n=2, max_items=3, max_cats=3, vmax=20, lo=-30, hi=30, max_L=2))
    c["delta"] = draw(st.sampled_from([-13, -4, 5, 11]))
    c["pick"] = [draw(ints(0, 10 ** 6)) for _ in range(6)]
    return c


@prop.facet("own_parameters", own_st(), 700, 9000, lambda c: rich(c) and len(cats_of(c["m"])) > 1, dtype="float64")
def own_parameters(case):
    """changing any single scalar parameter changes the probabilities of at most one item; non-trivial: several items"""
    s = case["m"]
    m, theta = build(s), theta_t(case["theta"])
    p = probs_of(m, theta)
    flat = [(n, q, j) for n, q in m.named_parameters() for j in range(q.numel())]
    for k in case["pick"]:
        name, q, j = flat[k % len(flat)]
        with torch.no_grad():
            old = q.view(-1)[j].clone()
            q.view(-1)[j] += case["delta"] / 10
            p2 = probs_of(m, theta)
            q.view(-1)[j] = old
        touched = [i for i in range(p.shape[1]) if not torch.allclose(p[:, i], p2[:, i], rtol=1e-9, atol=1e-12)]
        true(len(touched) <= 1, f"one entry of {name} changes the probabilities of items {touched}")
    exact(probs_of(m, theta), p, "probabilities after restoring the parameters")


@prop.facet("sensitivity", masked_st(), 500, 6000, NT, dtype="float64")
def sensitivity(case):
    """every item has parameters of its own for each latent variable it is related to: some parameter change alters its slope along that variable only through its own entries"""
    s = case["m"]
    if s["k"] in ("NEST", "SURP"):
        return
    m = build(s)
    base = torch.zeros(1, s["L"], dtype=torch.get_default_dtype()) + 0.2317
    n, L = len(s["cats"]), s["L"]
    m2 = build(s)
    with torch.no_grad():
        for nme, q in m2.named_parameters():
            q.add_(torch.linspace(0.31, 0.53, q.numel(), dtype=q.dtype).reshape(q.shape))
    if s["k"] == "GRM":
        from ..gen import order_grm
        order_grm(m2)
    for i, row in enumerate(related(s)):
        for l in range(L):
            if row[l]:
                moved = []
                for mm in (m, m2):
                    ts = base.repeat(9, 1)
                    ts[:, l] = torch.linspace(-4, 4, 9, dtype=base.dtype)
                    pr = probs_of(mm, ts)[:, i]
                    moved.append(float((pr - pr[:1]).abs().max()))
                true(max(moved) > 0, f"item {i} does not react to its related variable {l}")


def parts(m, s):
    """Component models with the index of their first item."""
    if s["k"] != "MIX":
        return [(m, s, 0)]
    out, a = [], 0
    for mm, x in zip(m.models, s["sub"]):
        out.append((mm, x, a)); a += len(x["cats"])
    return out


@prop.facet("related", st.tuples(case_st(kinds=ALL, max_n=1), ints(0, 9999)).map(lambda t: dict(t[0], seed=t[1])), 700, 9000, lambda c: c["m"]["L"] > 1 or len(cats_of(c["m"])) > 1, dtype="float64")
def reacts(case):
    """with parameters away from zero every item reacts to every latent variable it is related to, with or without a mask, in every component; non-trivial: several items or latent variables"""
    s = case["m"]
    m = build(s)
    g = torch.Generator().manual_seed(case["seed"])
    with torch.no_grad():
        for q in m.parameters():
            u = torch.rand(q.shape, generator=g, dtype=torch.float64)
            q.copy_((0.4 + 0.5 * u) * torch.where(torch.rand(q.shape, generator=g) < 0.5, -1.0, 1.0))
    base = 0.2317 * torch.ones(1, s["L"])
    for mm, x, a in parts(m, s):
        if x["k"] == "GRM":
            order_grm(mm)
        for i, row in enumerate(related(x)):
            if x["k"] == "NEST" and x["cats"][i] == 2 and x["corr"].get("mask"):
                row = x["corr"]["mask"][i]      # one incorrect option: only the correct-response model matters
            for l in [l for l in range(s["L"]) if row[l]]:
                ts = base.repeat(17, 1)
                ts[:, l] = torch.linspace(-4, 4, 17)
                pr = probs_of(m, ts)[:, a + i]
                true(float(((pr - pr[:1]).abs() / pr.clamp(min=1e-300)).max()) > 1e-7, f"item {a + i} does not react to its related variable {l}")
