"""Histories on one model object: results after any sequence of evaluations and changes are those of a fresh twin in the same state."""
from types import SimpleNamespace
from .gen import *

CHANGES = ["params", "data", "theta", "train", "scale", "codes", "algorithm"]


@st.composite
def twin_cases(draw, n_calls, min_items=1, min_n=3, max_n=6, kinds=None):
    s = draw(spec_st(kinds or ALL, max_L=2, max_items=3, vmax=15))
    if len(cats_of(s)) < min_items:
        s = draw(spec_st(BASIC, vmax=15, max_L=2, items=draw(ints(min_items, 3))))
    n = draw(ints(min_n, max_n))
    steps = []
    for _ in range(draw(ints(1, 3))):
        call = draw(ints(0, n_calls - 1))       # the same call before and after something changed
        steps.append(["call", call])
        for _ in range(draw(ints(0, 1))):
            steps.append(["call", draw(ints(0, n_calls - 1))])
        for _ in range(draw(ints(1, 2))):
            steps.append(["change", draw(st.sampled_from(CHANGES))])
        steps.append(["call", call])
    return {"m": s, "data": draw(data_st(cats_of(s), n)), "theta": draw(theta_st(s["L"], n, n, -25, 25)), "train": draw(theta_st(s["L"], n + 2, n + 2, -25, 25)), "steps": steps}


def flat(r):
    """One flat tensor of every number in a result (tensors, tables, tuples of them)."""
    parts = [torch.as_tensor(np.asarray(x.detach() if isinstance(x, torch.Tensor) else x, dtype=float)).flatten() for x in (r if isinstance(r, tuple) else (r,)) if x is not None]
    return torch.cat(parts) if parts else torch.zeros(0)


def twin_check(case, calls, tol=1e-4):
    """calls: {name: f(model, data, theta)}; every result equals that of a newly built model with the same parameters, scales and training results."""
    m = build(case["m"])
    L = case["m"]["L"]
    data, theta = data_t(case["data"], "nan"), theta_t(case["theta"])
    if any(all(v is None for v in r) for r in case["data"]):
        return
    train = theta_t(case["train"])
    names = list(calls)
    scales = []

    def algorithm(t):
        d = torch.cat([data, data[:2]])[: len(t)].clone()
        return SimpleNamespace(train_data=d, training_theta_scores=t.clone())
    m.algorithm = algorithm(train)
    done = []
    for kind, what in case["steps"]:
        if kind == "change":
            if what == "params":
                with torch.no_grad():
                    for p in m.parameters():
                        p.mul_(0.75)
            elif what == "data":
                data = data.roll(1, 0).contiguous()
            elif what == "theta":
                theta = theta.roll(1, 0) * 1.25
            elif what == "train":
                m.algorithm.training_theta_scores.mul_(0.5).add_(0.1)
            elif what == "algorithm":
                train = train.flip(0) * 1.5
                m.algorithm = algorithm(train)
            elif what == "codes":
                data = torch.where(data.isnan(), torch.tensor(-1.0), torch.where(data == -1, torch.tensor(float("nan")), data))
            elif scales:
                scales.pop()
                m.detach_scale_transformations()
            else:
                scales.append({"t": "rev", "f": [i == 0 for i in range(L)]})
                m.add_scale_transformation(build_scale(scales[-1], m))
            done.append(what)
            continue
        twin = build(case["m"])
        twin.load_state_dict({k: v.clone() for k, v in m.state_dict().items()})
        twin.scale = [build_scale(s, twin) for s in scales]
        twin.algorithm = SimpleNamespace(train_data=m.algorithm.train_data.clone(), training_theta_scores=m.algorithm.training_theta_scores.clone())
        name = names[what % len(names)]
        res = []
        for model in (m, twin):
            torch.manual_seed(11)
            try:
                res.append(flat(calls[name](model, data.clone(), theta.clone())))
            except Exception as e:
                res.append(f"{type(e).__name__}: {e}")
        a, b = res
        hist = " > ".join(done)
        if isinstance(a, str) or isinstance(b, str):
            true(isinstance(a, str) and isinstance(b, str), f"{name} after [{hist}] against a fresh model: one raises", used=str(a)[:200], fresh=str(b)[:200])
        else:
            close(a, b, f"{name} after [{hist}] against a fresh model in the same state", rtol=tol, atol=tol)
        done.append(name)
