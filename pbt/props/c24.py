from ..fitlib import *

prop = Property("C24", [
    "mean imputation of a column nobody answered is left out (it has no mean)",
    "random incorrect imputation needs at least one incorrect option among the item's categories",
    "shares of random choices are judged with a deviation of six standard errors, with fixed seeds",
])
NT = lambda c: any(v is None for r in c["data"] for v in r) and len(c["data"]) > 1


@st.composite
def table(draw, max_items=4, max_cats=5, min_n=1, max_n=7, missing=True):
    cats = draw(cats_st(max_items=max_items, max_cats=max_cats))
    n = draw(ints(min_n, max_n))
    return {"cats": cats, "data": draw(data_st(cats, n, missing)), "mc": [draw(ints(0, c - 1)) for c in cats], "seed": draw(ints(0, 9999))}


@st.composite
def wide(draw, strategy):
    """Sometimes many rows."""
    c = draw(strategy)
    return crowd(dict(c), draw(st.sampled_from(CROWDS)), c["cats"]) if draw(ints(1, 16)) == 16 else c


def obs_of(rows):
    return np.array([[np.nan if v is None else float(v) for v in r] for r in rows])


def observed_kept(got, obs, what):
    g = got.double().numpy()
    true(g.shape == obs.shape, f"{what}: shape", got=g.shape)
    ok = ~np.isnan(obs)
    true((g[ok] == obs[ok]).all(), f"{what}: an observed response changed", got=g, data=obs)
    return g


def both(data, method, **kw):
    """The public function and the one used inside fitting and scoring."""
    from irtorch.utils import impute_missing
    from irtorch._internal_utils import impute_missing_internal
    yield "impute_missing", impute_missing(data, method=method, **kw)
    kw.pop("model", None)
    if method != "prior expected":
        yield "internal imputation", impute_missing_internal(data, method=method, **kw)


@prop.facet("impute", wide(table()), 1500, 24000, NT)
def impute(case):
    """zero, mean and random incorrect imputation of every missing pattern and coding; non-trivial: a missing response"""
    obs, cats, mc = obs_of(case["data"]), case["cats"], case["mc"]
    miss = np.isnan(obs)
    for coding in ("nan", "-1", "mixed"):
        data = data_t(case["data"], coding)
        keep = data.clone()
        for name, got in both(data, "zero"):
            g = observed_kept(got, obs, f"{name} zero ({coding})")
            true((g[miss] == 0).all(), f"{name} zero: a missing response is not zero ({coding})", got=g)
        if not miss.all(0).any():
            means = np.nanmean(obs, axis=0)
            for name, got in both(data, "mean"):
                g = observed_kept(got, obs, f"{name} mean ({coding})")
                close(g, np.where(miss, means[None], obs), f"{name} mean ({coding})", rtol=1e-6, atol=1e-6)
        torch.manual_seed(case["seed"])
        for name, got in both(data, "random incorrect", mc_correct=mc, item_categories=cats):
            g = observed_kept(got, obs, f"{name} random incorrect ({coding})")
            for j, c in enumerate(cats):
                v = g[miss[:, j], j]
                true(np.isin(v, [k for k in range(c) if k != mc[j]]).all(), f"{name}: not an incorrect category of the item ({coding})", got=v, correct=mc[j], categories=c)
        cols = [c for c in (np.nanmax(np.where(miss, -1, obs), axis=0) + 1).astype(int)]
        if all(c >= 2 for c in cols):
            key = [min(k, c - 1) for k, c in zip(mc, cols)]
            for name, got in both(data, "random incorrect", mc_correct=key):
                g = observed_kept(got, obs, f"{name} random incorrect from the data ({coding})")
                for j, c in enumerate(cols):
                    v = g[miss[:, j], j]
                    true(np.isin(v, [k for k in range(c) if k != key[j]]).all(), f"{name}: not an incorrect category among those observed ({coding})", got=v, correct=key[j], categories=int(c))
        exact(data, keep, f"data after imputation ({coding})")


@prop.facet("impute_random", table(min_n=1, max_n=1), 200, 3000, lambda c: max(c["cats"]) > 2)
def impute_random(case):
    """every incorrect option is equally likely: 900 missing responses per item; non-trivial: more than two categories"""
    n = 900
    torch.manual_seed(case["seed"])
    data = torch.full((n, len(case["cats"])), float("nan"))
    for name, got in both(data, "random incorrect", mc_correct=case["mc"], item_categories=case["cats"]):
        for j, c in enumerate(case["cats"]):
            for k in range(c):
                share, want = float((got[:, j] == k).double().mean()), 0.0 if k == case["mc"][j] else 1 / (c - 1)
                true(abs(share - want) <= 6 * np.sqrt(want * (1 - want) / n) + 1e-9, f"{name}: share of option {k} of item {j}", got=share, want=want)


@st.composite
def model_table(draw, mc):
    s = draw(spec_st(["NRM", "MNN", "NEST"] if mc else [k for k in BASIC], mc=mc, vmax=20))
    return {"m": s, "data": draw(data_st(cats_of(s), draw(ints(1, 5)))), "seed": draw(ints(0, 9999))}


@prop.facet("impute_model", st.booleans().flatmap(lambda b: model_table(b)), 700, 10000, NT)
def impute_model(case):
    """imputation by a model: its own key and categories for random incorrect, its rounded expected scores at theta zero for prior expected; impossible requests are refused"""
    from irtorch.utils import impute_missing
    s = case["m"]
    m, obs, mc = build(s), obs_of(case["data"]), mc_of(s)
    miss = np.isnan(obs)
    p = probs_of(m, torch.zeros(1, s["L"])).double().numpy()[0]
    prior = (p * np.arange(p.shape[1])).sum(1)
    if case["seed"] % 2:        # a model that has been fitted: the prior mean stays at zero
        from irtorch.estimation_algorithms import JML, MML
        m.algorithm = JML() if case["seed"] % 4 == 1 else MML()
        m.algorithm.training_theta_scores = torch.randn(7, s["L"]) + 2.5 * (1 if case["seed"] % 3 else -1)
    state = state_of(m)
    for coding in ("nan", "-1", "mixed"):
        data = data_t(case["data"], coding)
        keep = data.clone()
        torch.manual_seed(case["seed"])
        if mc is None:
            raises((ValueError,), lambda: impute_missing(data, "random incorrect", model=m), "random incorrect imputation without a key")
            if np.abs(prior - np.floor(prior) - 0.5).min() > 1e-4:
                g = observed_kept(impute_missing(data, "prior expected", model=m), obs, f"prior expected ({coding})")
                close(g, np.where(miss, np.round(prior)[None], obs), f"prior expected ({coding})", rtol=0, atol=0)
        else:
            raises((ValueError,), lambda: impute_missing(data, "prior expected", model=m), "prior expected imputation of multiple choice items")
            g = observed_kept(impute_missing(data, "random incorrect", model=m), obs, f"random incorrect ({coding})")
            for j, c in enumerate(cats_of(s)):
                v = g[miss[:, j], j]
                true(np.isin(v, [k for k in range(c) if k != mc[j]]).all(), f"not an incorrect category of the model's item ({coding})", got=v, correct=mc[j], categories=c)
        exact(data, keep, f"data after imputation ({coding})")
    same_state(state_of(m), state, "model after imputation")


FROM_DATA = ["1PL", "2PL", "3PL", "GRM", "GPC", "NRM", "MNN", "MPOLY", "MBS", "SURP", "NEST"]


@prop.facet("categories", st.tuples(wide(table(max_items=8, max_cats=6)), st.sampled_from(FROM_DATA), ints(1, 2)).map(lambda t: dict(t[0], kind=t[1], L=t[2])), 1200, 16000, NT)
def categories(case):
    """item categories, and models built from data, from the largest observed response of every column whatever is missing elsewhere"""
    from irtorch.utils import get_item_categories
    rows, kind = [list(r) for r in case["data"]], case["kind"]
    if kind in LOGISTIC:
        rows = [[None if v is None else min(v, 1) for v in r] for r in rows]
    for j in range(len(case["cats"])):         # every item shows at least two categories
        if all(r[j] is None for r in rows) or max(r[j] for r in rows if r[j] is not None) < 1:
            rows[j % len(rows)][j] = 1
    want = [int(x) + 1 for x in np.nanmax(obs_of(rows), axis=0)]
    cls = {"1PL": im.OneParameterLogistic, "2PL": im.TwoParameterLogistic, "3PL": im.ThreeParameterLogistic, "GRM": im.GradedResponse, "GPC": im.GeneralizedPartialCredit,
           "NRM": im.NominalResponse, "MNN": im.MonotoneNN, "MPOLY": im.MonotonePolynomial, "MBS": im.MonotoneBSpline, "SURP": im.SurprisalSpline, "NEST": im.NestedLogit}[kind]
    kw = {} if kind == "1PL" else {"latent_variables": case["L"]}
    L = 1 if kind == "1PL" else case["L"]
    if kind == "NEST":
        kw["mc_correct"] = [min(k, c - 1) for k, c in zip(case["mc"], want)]
        kw["correct_response_model"] = im.TwoParameterLogistic(latent_variables=L, items=len(want))
    for coding in ("nan", "-1", "mixed"):
        data = data_t(rows, coding)
        keep = data.clone()
        true(get_item_categories(data) == want, f"get_item_categories ({coding})", got=get_item_categories(data), want=want)
        m = cls(data=data, **kw)
        true(list(m.item_categories) == want, f"{kind} built from data: item categories ({coding})", got=m.item_categories, want=want)
        true(m.items == len(want) and m.max_item_responses == max(want), f"{kind} built from data: sizes ({coding})", got=(m.items, m.max_item_responses))
        with torch.no_grad():
            p = m.item_probabilities(torch.zeros(1, L))
        true(tuple(p.shape) == (1, len(want), max(want)), f"{kind} built from data: probabilities", got=tuple(p.shape))
        for j, c in enumerate(want):
            true(bool((p[0, j, :c] > 0).all()) and bool((p[0, j, c:] == 0).all()), f"{kind} built from data: categories of item {j}", got=p[0, j])
        exact(data, keep, f"data after building a model ({coding})")


@prop.facet("split", st.fixed_dictionaries({"n": st.one_of(ints(0, 40), ints(65, 120)), "cols": st.one_of(ints(1, 3), ints(7, 9)), "dup": st.booleans(), "ratio": ints(0, 100), "shuffle": st.booleans(), "seed": ints(0, 9999)}), 800, 12000,
            lambda c: c["n"] > 2 and 0 < c["ratio"] < 100)
def split(case):
    """splitting partitions the rows: each in exactly one part, whole, first part of the stated share; without shuffling in order"""
    from irtorch.utils import split_data
    n, r = case["n"], case["ratio"] / 100
    data = torch.arange(n * case["cols"], dtype=torch.float32).reshape(n, case["cols"])
    if case["dup"]:         # several respondents with the same responses
        data = data[torch.arange(n) // 3]
    data = layout(data)
    keep = data.clone()
    torch.manual_seed(case["seed"])
    a, b = split_data(data, train_ratio=r, shuffle=case["shuffle"])
    true(a.shape[1:] == b.shape[1:] == data.shape[1:], "columns of the parts")
    true(len(a) + len(b) == n and abs(len(a) - n * r) < 1 + 1e-6, "size of the training part", got=len(a), n=n, ratio=r)
    rows = torch.cat([a, b])
    if case["shuffle"]:
        exact(rows[rows[:, 0].argsort(stable=True)], data, "the parts together are not the data")
    else:
        exact(rows, data, "unshuffled parts")
    exact(data, keep, "data after splitting")
    torch.manual_seed(case["seed"])
    a2, b2 = split_data(data, train_ratio=r, shuffle=case["shuffle"])
    exact(a2, a, "same seed, training part"); exact(b2, b, "same seed, test part")


@prop.facet("shuffled", st.fixed_dictionaries({"n": ints(20, 40), "seed": ints(0, 99999)}), 60, 600, lambda c: True, shard_min=30)
def shuffled(case):
    """shuffled splits actually shuffle: over seeds each row lands in either part"""
    from irtorch.utils import split_data
    n = case["n"]
    data = torch.arange(n, dtype=torch.float32).view(-1, 1)
    hits = torch.zeros(n)
    torch.manual_seed(case["seed"])
    for _ in range(120):
        a, _b = split_data(data, train_ratio=0.5)
        hits[a[:, 0].long()] += 1
    p = (n // 2) / n
    true(bool(((hits / 120 - p).abs() < 6 * np.sqrt(p * (1 - p) / 120)).all()), "rows do not land in the training part equally often", got=hits)


@prop.facet("one_hot", wide(table(max_items=9, max_cats=7)), 1200, 20000, NT)
def one_hot(case):
    """one-hot encoding marks exactly the observed category and nothing for a missing response"""
    from irtorch._internal_utils import one_hot_encode_test_data
    obs, cats = obs_of(case["data"]), case["cats"]
    want = np.concatenate([(obs[:, [j]] == np.arange(c)[None]).astype(float) for j, c in enumerate(cats)], axis=1)
    for coding in ("nan", "-1", "mixed"):
        for dtype in (torch.float32, torch.float64) + ((torch.long,) if coding == "-1" else ()):
            data = data_t(case["data"], coding).to(dtype)
            keep = data.clone()
            close(one_hot_encode_test_data(data, list(cats)), want, f"one-hot encoding ({coding}, {dtype})", rtol=0, atol=0)
            exact(data, keep, "data after one-hot encoding")
            if dtype != torch.long:     # documented: other values are rounded to the nearest integer
                off = torch.where(torch.tensor(np.isnan(obs)), data, data + 0.3 * torch.sin(torch.arange(data.numel(), dtype=dtype).view(data.shape) + 1))
                close(one_hot_encode_test_data(off, list(cats)), want, f"one-hot encoding of values to be rounded ({coding}, {dtype})", rtol=0, atol=0)
    raises((ValueError,), lambda: one_hot_encode_test_data(data_t(case["data"]), list(cats) + [2]), "one category count too many")


@prop.facet("dataset", st.tuples(wide(table()), st.sampled_from([None, "zero", "mean", "random incorrect"]), st.booleans()).map(lambda t: dict(t[0], method=t[1], hot=t[2])), 900, 12000, NT)
def dataset(case):
    """the training data set keeps responses, missing mask and network input of each row together: inputs imputed (and encoded) only where missing"""
    from irtorch.irt_dataset import PytorchIRTDataset
    obs, cats, mc = obs_of(case["data"]), case["cats"], case["mc"]
    miss = np.isnan(obs)
    if case["method"] == "mean" and (miss.all(0).any() or case["hot"]):
        return      # means are not categories
    for coding in ("nan", "-1", "mixed"):
        data = data_t(case["data"], coding)
        keep = data.clone()
        torch.manual_seed(case["seed"])
        ds = PytorchIRTDataset(data, one_hot_encoded=case["hot"], item_categories=list(cats), imputation_method=case["method"], mc_correct=list(mc))
        true(len(ds) == len(data), "length of the data set")
        for i in range(len(ds)):
            d, k, x, idx = ds[i]
            exact(d, keep[i], f"row {i} of the data set ({coding})")
            exact(k, torch.tensor(miss[i]), f"missing mask of row {i} ({coding})")
            true(int(idx) == i, "index")
            if case["hot"]:
                a = 0
                for j, c in enumerate(cats):
                    h = x[a:a + c].double().numpy(); a += c
                    if not miss[i, j]:
                        true((h == (np.arange(c) == obs[i, j])).all(), f"encoded response ({coding})", got=h, want=obs[i, j])
                    elif case["method"] is None:
                        true((h == 0).all(), f"encoded missing response ({coding})", got=h)
                    elif case["method"] == "zero":
                        true((h == (np.arange(c) == 0)).all(), f"encoded zero ({coding})", got=h)
                    else:
                        true(h.sum() == 1 and h.max() == 1 and h[mc[j]] == 0, f"encoded incorrect option ({coding})", got=h)
                true(a == len(x), "encoded width")
            else:
                for j in range(len(cats)):
                    v = float(x[j])
                    if not miss[i, j]:
                        true(v == obs[i, j], f"input of an observed response ({coding})", got=v, want=obs[i, j])
                    elif case["method"] == "zero":
                        true(v == 0, "zero imputed input", got=v)
                    elif case["method"] == "mean":
                        true(abs(v - np.nanmean(obs[:, j])) < 1e-5, "mean imputed input", got=v)
                    elif case["method"] == "random incorrect":
                        true(v in [k2 for k2 in range(cats[j]) if k2 != mc[j]], "incorrect imputed input", got=v)
        exact(data, keep, "data after building a data set")


@st.composite
def guess_cases(draw):
    mc = draw(st.booleans())
    cats = draw(cats_st(max_items=4, max_cats=5))
    return {"cats": cats, "mc": [draw(ints(0, c - 1)) for c in cats] if mc else None,
            "p": [draw(ints(0, 95)) for _ in cats] if draw(st.booleans()) else None, "seed": draw(ints(0, 99999)), "small": draw(ints(1, 3))}


@prop.facet("guessing", guess_cases(), 400, 6000, lambda c: c["mc"] is not None or c["p"] is not None)
def guessing(case):
    """random guessing data: correct option at the stated rate (one over the categories by default), the other options equally often; binary items without a key are one at the stated rate, others zero"""
    from irtorch._internal_utils import random_guessing_data
    cats, mc, n = case["cats"], case["mc"], 1200
    torch.manual_seed(case["seed"])
    p = None if case["p"] is None else [x / 100 for x in case["p"]]
    rate = p if p is not None else [1 / c if mc is not None else 0.0 for c in cats]
    for size in (n, case["small"]):
        data = random_guessing_data(list(cats), size, guessing_probabilities=p, mc_correct=mc)
        true(tuple(data.shape) == (size, len(cats)), "shape of the guessing data", got=tuple(data.shape))
        for j, c in enumerate(cats):
            if mc is not None:
                want = [(1 - rate[j]) / (c - 1)] * c
                want[mc[j]] = rate[j]
            elif c == 2:
                want = [1 - rate[j], rate[j]]
            else:
                want = [1.0] + [0.0] * (c - 1)
            true(bool(torch.isin(data[:, j], torch.arange(c).to(data.dtype)).all()), "response outside the item's categories")
            for k in range(c):
                if want[k] == 0:
                    true(not bool((data[:, j] == k).any()), f"item {j} has an impossible response {k}")
                if size == n:
                    share = float((data[:, j] == k).double().mean())
                    true(abs(share - want[k]) <= 6 * np.sqrt(want[k] * (1 - want[k]) / n) + 1e-9, f"share of option {k} of item {j}", got=share, want=want[k])
