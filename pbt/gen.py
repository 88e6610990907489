"""Generators and builders: model specifications -> real models with arbitrary admissible parameters."""
from .core import *
import irtorch.models as im

# values are drawn as small integers and scaled, so that cases are short JSON and shrink well
def ints(lo, hi):
    return st.integers(lo, hi)


def several(draw, lo, hi):
    """A size from lo to hi.  Draws favour the lowest value, which is rotated to lo + 1, so that cases with one row or one item do not dominate."""
    return lo + (draw(ints(0, hi - lo)) + 1) % (hi - lo + 1)


LOGISTIC = ["1PL", "2PL", "3PL"]
POLY = ["GRM", "GPC", "NRM", "MNN", "MPOLY", "MBS", "SURP"]
BASIC = LOGISTIC + POLY
ALL = BASIC + ["NEST", "MIX"]
MASKABLE = ["2PL", "3PL", "GPC", "GRM", "NRM", "MNN", "MPOLY", "SURP", "NEST"]


@st.composite
def cats_st(draw, items=None, max_items=4, max_cats=4, binary=False):
    n = items if items is not None else several(draw, 1, max_items)
    if binary:
        return [2] * n
    return [draw(ints(2, max_cats)) for _ in range(n)]


@st.composite
def mask_st(draw, n, L):
    m = []
    for _ in range(n):
        row = [draw(st.booleans()) for _ in range(L)]
        if not any(row):
            row[draw(ints(0, L - 1))] = True
        m.append(row)
    return m


@st.composite
def spec_st(draw, kinds=ALL, L=None, max_L=3, max_items=4, max_cats=4, items=None, mc=None, masks=True, vmax=25, depth=0, force_mask=False, big=None):
    """A model specification.  mc: None=sometimes for models that take a key, True/False=force.  About one case in ten is big (many
    items, categories and latent variables) unless the caller limits the sizes."""
    k = draw(st.sampled_from(list(kinds)))
    if big is None:
        big = depth == 0 and max_items == 4 and max_L == 3 and items is None
    big = big and draw(ints(0, 11)) in (4, 7, 11)
    if big:
        max_items, max_cats, max_L = 12, max_cats + 5, 5
    if L is None:
        L = 1 if k == "1PL" else draw(ints(1, max_L))
    if k == "1PL" and L != 1:
        k = "2PL"
    s = {"k": k, "L": L}
    if k == "MIX":
        nmod = draw(ints(1, 4 if big else 3))
        usemc = False if mc is False else draw(st.booleans()) if mc is None else mc
        sub_kinds = [x for x in ["1PL", "2PL", "3PL", "GRM", "GPC", "NRM", "MNN", "MPOLY", "MBS", "SURP", "NEST"] if x in BASIC + ["NEST"]]
        if usemc:
            sub_kinds = ["NRM", "MNN", "NEST"]
        else:
            sub_kinds = [x for x in sub_kinds if x != "NEST"]
        s["sub"] = [draw(spec_st(sub_kinds, L=L, max_items=5 if big else 2, max_cats=max_cats, mc=bool(usemc), masks=masks, vmax=vmax, depth=1)) for _ in range(nmod)]
        return s
    binary = k in LOGISTIC
    s["cats"] = draw(cats_st(items=items, max_items=max_items, max_cats=max_cats, binary=binary))
    n = len(s["cats"])
    if k in MASKABLE and masks and L >= 1 and (force_mask or draw(st.booleans())):
        s["mask"] = draw(mask_st(n, L))
    want_mc = (mc if mc is not None else draw(st.booleans())) if k in ("NRM", "MNN") else (k == "NEST")
    if want_mc:
        s["mc"] = [draw(ints(0, c - 1)) for c in s["cats"]]
    o = {}
    if k == "MNN":
        o["bounded"] = draw(st.booleans())
        unit = 3 if o["bounded"] else 2
        o["hidden"] = [unit * draw(ints(1, 2)) for _ in range(draw(ints(1, 2)))]
        o["separate"] = draw(st.sampled_from(["items", "categories"]))
        o["neg"] = draw(st.booleans())
    if k == "MPOLY":
        o["degree"] = draw(st.sampled_from([1, 3, 5]))
        o["separate"] = draw(st.sampled_from(["items", "categories"]))
        o["neg"] = draw(st.booleans())
    if k in ("MBS", "SURP", "NEST"):
        o["degree"] = draw(ints(1, 3))
        if draw(st.booleans()):
            o["knots"] = sorted(draw(st.lists(ints(-30, 30), min_size=1, max_size=4, unique=True)))
    if k == "MBS":
        o["separate"] = draw(st.sampled_from(["items", "categories"]))
    if k == "NEST":
        o["inc"] = draw(st.sampled_from(["nominal", "bspline"]))
        s["corr"] = draw(spec_st(["1PL", "2PL", "3PL", "GPC", "GRM", "MNN", "MPOLY"], L=L, items=n, max_cats=2, mc=False, masks=masks, vmax=vmax, depth=1))
        if s["corr"]["k"] not in LOGISTIC:
            s["corr"]["cats"] = [2] * n
            s["corr"]["par"] = [draw(ints(-vmax, vmax)) for _ in range(_npar(s["corr"]))]
    s["opt"] = o
    if depth == 0 or k != "MIX":
        s["par"] = [draw(ints(-vmax, vmax)) for _ in range(_npar(s))]
    return s


def _count(m):
    return sum(p.numel() for p in m.parameters())


def _npar(s):
    """How many parameters to draw.  A constructor that refuses a valid model must be reported by the check, which constructs it
    again, and not lose the case here, so any number does then (`fill` repeats them)."""
    try:
        m = _construct(s)
        return min(61, _count(m) - (_count(m.correct_response_model) if s["k"] == "NEST" else 0))
    except Exception:
        return 6


def _construct(s):
    """The model as constructed, in the precision of the facet (constructors run in single precision as for a user)."""
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float32)
    try:
        m = _construct32(s)
    finally:
        torch.set_default_dtype(old)
    return m.to(old)


def _construct32(s):
    k, L, o = s["k"], s["L"], s.get("opt", {})
    cats = s.get("cats")
    kw = {}
    if s.get("mask") is not None:
        kw["item_theta_relationships"] = torch.tensor(s["mask"], dtype=torch.bool)
    if k == "1PL":
        return im.OneParameterLogistic(items=len(cats))
    if k == "2PL":
        return im.TwoParameterLogistic(latent_variables=L, items=len(cats), **kw)
    if k == "3PL":
        return im.ThreeParameterLogistic(latent_variables=L, items=len(cats), **kw)
    if k == "GRM":
        return im.GradedResponse(latent_variables=L, item_categories=list(cats), **kw)
    if k == "GPC":
        return im.GeneralizedPartialCredit(latent_variables=L, item_categories=list(cats), **kw)
    if k == "NRM":
        return im.NominalResponse(latent_variables=L, item_categories=list(cats), mc_correct=s.get("mc"), **kw)
    if k == "MNN":
        return im.MonotoneNN(latent_variables=L, item_categories=list(cats), hidden_dim=list(o["hidden"]), mc_correct=s.get("mc"),
                             separate=o["separate"], negative_latent_variable_item_relationships=o["neg"],
                             use_bounded_activation=o["bounded"], **kw)
    if k == "MPOLY":
        return im.MonotonePolynomial(latent_variables=L, item_categories=list(cats), degree=o["degree"], separate=o["separate"],
                                     negative_latent_variable_item_relationships=o["neg"], **kw)
    if k in ("MBS", "SURP", "NEST"):
        kw["degree"] = o["degree"]
        if o.get("knots"):
            kw["knots"] = [x / 10 for x in o["knots"]]
    if k == "MBS":
        return im.MonotoneBSpline(latent_variables=L, item_categories=list(cats), separate=o["separate"], **kw)
    if k == "SURP":
        return im.SurprisalSpline(latent_variables=L, item_categories=list(cats), **kw)
    if k == "NEST":
        return im.NestedLogit(mc_correct=list(s["mc"]), correct_response_model=build(s["corr"]) if "par" in s["corr"] else _construct(s["corr"]),
                              incorrect_response_model=o["inc"], latent_variables=L, item_categories=list(cats), **kw)
    if k == "MIX":
        return im.ModelMix([build(x) for x in s["sub"]])
    raise ValueError(k)


@torch.no_grad()
def fill(m, vals, scale=10.0):
    i = 0
    for p in m.parameters():
        n = p.numel()
        v = [vals[(i + j) % len(vals)] / scale for j in range(n)] if vals else []
        if n:
            p.copy_(torch.tensor(v, dtype=p.dtype).reshape(p.shape))
        i += n


@torch.no_grad()
def order_grm(m):
    """Graded response intercepts must decrease within an item for the model to be defined."""
    i = 0
    for c in m.item_categories:
        seg = m.bias_param[i:i + c - 1].clone()
        seg = seg.sort(descending=True).values - 0.25 * torch.arange(c - 1, dtype=seg.dtype)
        m.bias_param[i:i + c - 1] = seg
        i += c - 1


def build(s):
    """The real model described by the specification, with its parameters set."""
    k = s["k"]
    m = _construct(s)
    if k == "MIX":
        m.eval()
        return m
    if k == "NEST":
        own = [p for n, p in m.named_parameters() if not n.startswith("correct_response_model.")]
        class H:  # only the parameters that are not the correct model's
            def parameters(self): return own
        fill(H(), s["par"])
    else:
        fill(m, s["par"], 20.0 if k == "MPOLY" else 10.0)
    if k == "GRM":
        order_grm(m)
    m.eval()
    return m


def cats_of(s):
    if s["k"] == "MIX":
        return [c for x in s["sub"] for c in x["cats"]]
    return s["cats"]


def mc_of(s):
    if s["k"] == "MIX":
        ms = [mc_of(x) for x in s["sub"]]
        return None if any(x is None for x in ms) else [c for x in ms for c in x]
    return s.get("mc")


@st.composite
def theta_st(draw, L, min_n=1, max_n=4, lo=-40, hi=40):
    n = several(draw, min_n, max_n)
    return [[draw(ints(lo, hi)) for _ in range(L)] for _ in range(n)]


def layout(t):
    """The same tensor in the memory layouts callers hand over: row by row, column by column, or every other column of a wider one (chosen by content)."""
    if t.dim() != 2 or t.numel() == 0:
        return t
    h = int(t.nan_to_num(3.0, 3.0, 3.0).double().mul(10).round().abs().sum()) + t.shape[0]
    if h % 5 == 1:
        return t.t().contiguous().t()
    if h % 5 == 3:
        wide = t.new_full((t.shape[0], 2 * t.shape[1]), 0.5)
        wide[:, ::2] = t
        return wide[:, ::2]
    return t


def theta_t(t, scale=10.0):
    return layout(torch.tensor(t, dtype=torch.get_default_dtype()) / scale)


@st.composite
def data_st(draw, cats, n, missing=True):
    """Response rows; None is a missing response, coded later."""
    rows = []
    for _ in range(n):
        rows.append([None if (missing and draw(ints(0, 4)) == 0) else draw(ints(0, c - 1)) for c in cats])
    return rows


def data_t(rows, coding="nan"):
    """coding: nan, -1, or mixed (alternating)."""
    out = []
    for i, r in enumerate(rows):
        row = []
        for j, v in enumerate(r):
            if v is None:
                row.append(float("nan") if coding == "nan" or (coding == "mixed" and (i + j) % 2 == 0) else -1.0)
            else:
                row.append(float(v))
        out.append(row)
    return layout(torch.tensor(out, dtype=torch.get_default_dtype()))


def case_st(kinds=ALL, min_n=1, max_n=4, lo=-40, hi=40, **kw):
    @st.composite
    def inner(draw):
        s = draw(spec_st(kinds, **kw))
        return {"m": s, "theta": draw(theta_st(s["L"], min_n, max_n, lo, hi))}
    return inner()


CROWDS = [40, 130, 300, 600, 1100]


def crowd(case, n, cats=None, span=30):
    """Many respondents: the rows drawn, repeated with fixed variations of the thetas, the responses and what is missing."""
    k = len(case.get("theta") or case["data"])
    if "theta" in case:
        t = case["theta"]
        case["theta"] = [[max(-40, min(40, v + ((i * 37 + l * 11) % (2 * span + 1) - span if i >= k else 0))) for l, v in enumerate(t[i % k])] for i in range(n)]
    if "data" in case:
        d = case["data"]
        cats = cats_of(case["m"]) if cats is None else cats
        miss = any(v is None for r in d for v in r)
        def cell(i, j):
            v = d[i % k][j]
            if i < k:
                return v
            if miss and (i * 29 + j * 13) % 10 == 0:
                return None if v is not None else (i // k) % cats[j]
            return None if v is None else (v + (i // k) * (1 + j % 2)) % cats[j]
        case["data"] = [[cell(i, j) for j in range(len(cats))] for i in range(n)]
    return case


@st.composite
def crowded(draw, strategy, sizes=CROWDS, one_in=16):
    c = draw(strategy)
    if draw(ints(1, one_in)) == one_in:
        c = crowd(dict(c), draw(st.sampled_from(list(sizes))))
    return c


def case_data_st(kinds=ALL, min_n=1, max_n=4, lo=-40, hi=40, missing=True, many=False, **kw):
    @st.composite
    def inner(draw):
        s = draw(spec_st(kinds, **kw))
        t = draw(theta_st(s["L"], min_n, max_n, lo, hi))
        return {"m": s, "theta": t, "data": draw(data_st(cats_of(s), len(t), missing))}
    return crowded(inner()) if many else inner()


def probs_of(m, theta):
    with torch.no_grad():
        return m.item_probabilities(theta.clone())


def rich(case):
    """Non-trivial model case: several items or categories or latent variables, and non-zero parameters."""
    s = case["m"]
    subs = s.get("sub", [s])
    par = any(any(v for v in x.get("par", [])) for x in subs)
    return par and (len(cats_of(s)) > 1 or s["L"] > 1 or max(cats_of(s)) > 2)


def sumsq(x):
    return float((x * x).sum())


# ---------------------------------------------------------------- scale transformations
@st.composite
def scales_st(draw, L, kinds=("rev", "rot", "flow"), min_n=1, max_n=3):
    out = []
    for _ in range(draw(ints(min_n, max_n))):
        t = draw(st.sampled_from([k for k in kinds if k != "link" or L == 1]))
        d = {"t": t}
        if t == "rev":
            d["f"] = [draw(st.booleans()) for _ in range(L)]
        elif t == "rot":
            d["r"] = [[draw(ints(-3, 3)) for _ in range(L)] for _ in range(L)]
        elif t == "flow":
            d["bins"] = draw(ints(2, 6))
            d["p"] = draw(st.lists(ints(-12, 12), min_size=1, max_size=8))
            d["mean"] = [draw(ints(-10, 10)) for _ in range(L)]
            d["std"] = [draw(ints(5, 20)) for _ in range(L)]
            d["out"] = draw(st.sampled_from([20, 30, 60]))
        elif t == "link":
            d["method"] = draw(st.sampled_from(["spline", "neuralnet"]))
            d["inv"] = draw(st.booleans())
            d["bins"] = draw(ints(2, 6))
            d["p"] = draw(st.lists(ints(-12, 12), min_size=1, max_size=8))
        out.append(d)
    return out


def dress(m, case):
    """Attach no, one or two scale transformations (chosen by content): statistics of thetas given on the model's own scale do not depend on them."""
    L = m.latent_variables
    h = sum(int(abs(v)) * (i + 1) for i, v in enumerate(case["theta"][0])) + len(case["theta"]) + len(m.item_categories)
    ds = [[], [{"t": "rev", "f": [True] * L}], [{"t": "rev", "f": [True] + [False] * (L - 1)}, {"t": "rot", "r": [[(1 + i * j) % 3 for j in range(L)] for i in range(L)]}]][h % 3]
    for d in ds:
        m.add_scale_transformation(build_scale(d, m, torch.get_default_dtype()))
    return m


def lived(m, case):
    """A model as it may be found after use (chosen by content): in training mode, fitted (with training data and scores of other
    respondents at hand), both or neither.  Values at given thetas do not depend on it."""
    from types import SimpleNamespace
    h = sum(int(abs(v)) for v in case["theta"][0]) + 2 * len(case["theta"]) + sum(m.item_categories)
    if h % 4 in (1, 3):
        m.train()
    if h % 4 in (2, 3):
        n, old = 7, torch.tensor(case["theta"], dtype=torch.float32) / 10
        m.algorithm = SimpleNamespace(train_data=torch.stack([(torch.arange(n) * (i + 2)) % c for i, c in enumerate(m.item_categories)], dim=1).float(),
                                      training_theta_scores=torch.cat([old.flip(0) * 0.7 + 0.3] * n)[:n])
    return m


def rot_matrix(d):
    return torch.eye(len(d["r"]), dtype=torch.float32) + torch.tensor(d["r"], dtype=torch.float32) / 10


def build_scale(d, model, rot_dtype=torch.float32):
    """A real scale transformation; spline parameters are set to arbitrary values after a short fit."""
    from irtorch.rescale import Reverse, Rotate, Flow, LinkCommonItems
    L = model.latent_variables
    if d["t"] == "rev":
        return Reverse(list(d["f"]))
    if d["t"] == "rot":
        return Rotate(model, rotation_matrix=rot_matrix(d).to(rot_dtype))
    if d["t"] == "flow":
        f = Flow(L)
        mean, std = torch.tensor(d["mean"]) / 10.0, torch.tensor(d["std"]) / 10.0
        base = torch.linspace(-2.5, 2.5, 25).repeat(L, 1).T
        b = d["out"] / 10.0
        f.fit(base * std + mean, max_epochs=1, num_bins=d["bins"], lower_output_bound=-b, upper_output_bound=b, device="cpu")
        fill(f.flow, d["p"])
        return f
    if d["t"] == "link":
        m2 = im.TwoParameterLogistic(latent_variables=1, items=2)
        m1 = im.TwoParameterLogistic(latent_variables=1, items=2)
        kw = {"num_bins": d["bins"]} if d["method"] == "spline" else {"neurons": 3 * (1 + d["bins"] % 2)}
        k = LinkCommonItems(m1, m2, [0, 1], [0, 1], method=d["method"], inverted=d["inv"], **kw)
        k.fit(torch.linspace(-2, 2, 10).view(-1, 1), max_epochs=1, device="cpu")
        free = [v for v in vars(k).values() if isinstance(v, torch.nn.Module) and v is not m1 and v is not m2]
        for mod in free:
            keep = [(p, p.detach().clone()) for p in mod.parameters() if p.dim() == 0]      # output bounds
            fill(mod, d["p"])
            with torch.no_grad():
                for i, (p, v) in enumerate(keep):
                    p.copy_(v + (d["p"][i % len(d["p"])]) / 10)
        return k
    raise ValueError(d["t"])


def to_double(scale, skip=()):
    """A double-precision twin of a scale (reference for numerical derivatives and tight round trips)."""
    import copy
    s = copy.deepcopy(scale)
    for k, v in vars(s).items():
        if isinstance(v, torch.nn.Module):
            v.double()
        elif isinstance(v, torch.Tensor) and v.is_floating_point():
            setattr(s, k, v.double())
    return s


@contextlib.contextmanager
def dflt(dtype):
    old = torch.get_default_dtype()
    torch.set_default_dtype(dtype)
    try:
        yield
    finally:
        torch.set_default_dtype(old)
