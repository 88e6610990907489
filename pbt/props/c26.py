import copy, itertools, subprocess, tempfile
from ..fitlib import *

prop = Property("C26", [
    "held-out respondents are scored by EAP, so that scores do not depend on the order of the rows",
    "training folds whose thetas do not vary define no EAP prior and are left out",
    "at most as many folds as respondents",
])
LOG = []


def algorithm_class():
    from irtorch.estimation_algorithms.base_irt_algorithm import BaseIRTAlgorithm

    class Probe(BaseIRTAlgorithm):
        """A deterministic 'fit' that records what it was given and depends on data and hyperparameters."""
        def __init__(self):
            super().__init__()
            self.calls = 0
            self.tag = "fresh"

        def fit(self, model, train_data, **kw):
            super().fit(model, train_data=train_data)
            LOG.append({"train": train_data.clone(), "state": state_of(model), "kw": dict(kw), "calls": self.calls, "tag": self.tag})
            self.calls += 1
            self.tag = "used"
            a, b = float(kw.get("a", 0)), float(kw.get("b", 0))
            x = torch.where(train_data.isnan() | (train_data == -1), torch.zeros_like(train_data), train_data)
            with torch.no_grad():
                for p in model.parameters():
                    p.mul_(1 + 0.02 * a).add_(0.05 * torch.tanh(x.mean() + 0.1 * b))
    return Probe


def rows_of(t):
    return sorted(tuple(-9.0 if v != v or v == -1 else float(v) for v in r) for r in t.tolist())


@st.composite
def cv_cases(draw):
    s = draw(spec_st(["1PL", "2PL", "GPC", "NRM", "MIX"], max_L=2, max_items=3, vmax=12, masks=False))
    n = draw(ints(2, 9))
    rows = draw(fit_data_st(cats_of(s), n, n))
    return {"m": s, "data": rows, "folds": draw(ints(2, n)), "seed": draw(ints(0, 9999)),
            "grid": {k: draw(st.lists(ints(-3, 3), min_size=1, max_size=3, unique=True)) for k in draw(st.lists(st.sampled_from(["a", "b"]), min_size=1, max_size=2, unique=True))},
            "extra": draw(st.booleans()), "fitted": draw(st.booleans()), "coding": draw(st.sampled_from(["nan", "-1", "mixed"]))}


@prop.facet("probe", cv_cases(), 400, 6000, lambda c: len(c["data"]) > 3 and np.prod([len(v) for v in c["grid"].values()]) > 1 and rich({"m": c["m"]}))
def probe(case):
    """cross-validation with a recording algorithm: folds partition the respondents, every fit starts from the passed model's state with a fresh algorithm and sees only the other folds, and each row is the average of the held-out log-likelihoods recomputed here; non-trivial: several combinations"""
    from irtorch.utils import cross_validation
    s = case["m"]
    m, alg = build(s), algorithm_class()()
    data = data_t(case["data"], case["coding"])
    if case["fitted"]:      # a model that was already fitted and whose algorithm holds another data set
        m.algorithm = algorithm_class()()
        m.algorithm.train_data = data[:1].clone()
    keep, state = data.clone(), state_of(m)
    held = m.algorithm if case["fitted"] else None
    LOG.clear()
    torch.manual_seed(case["seed"])
    extra = {"c": 7} if case["extra"] else {}
    grid = {k: list(v) for k, v in case["grid"].items()}
    df = cross_validation(m, data, case["folds"], grid, theta_estimation="EAP", device="cpu", multiprocessing=False, algorithm=alg, **extra)
    log = list(LOG)
    combos = [dict(zip(case["grid"], v)) for v in itertools.product(*case["grid"].values())]
    # nothing that was passed in has changed
    same_state(state_of(m), state, "the passed model")
    exact(data, keep, "the passed data")
    true(alg.calls == 0 and alg.tag == "fresh" and alg.train_data is None, "the passed algorithm was used itself")
    true(grid == case["grid"], "the passed grid changed")
    if held is not None:
        true(m.algorithm is held, "the passed model's algorithm was replaced")
    # one row per combination
    true(len(df) == len(combos), "rows of the table", got=len(df), want=len(combos))
    true(set(case["grid"]) | {"log_likelihood"} <= set(df.columns), "columns of the table", got=list(df.columns))
    got = {tuple(int(r[k]) for k in case["grid"]): float(r["log_likelihood"]) for r in df.to_dict("records")}
    true(set(got) == {tuple(c[k] for k in case["grid"]) for c in combos}, "combinations in the table", got=sorted(got))
    true(len(log) == len(combos) * case["folds"], "number of fits", got=len(log), want=len(combos) * case["folds"])
    full = rows_of(data)
    sizes = None
    for c in combos:
        fits = [e for e in log if all(e["kw"].get(k) == v for k, v in c.items())]
        true(len(fits) == case["folds"], "fits of a combination", got=len(fits))
        total, pooled = 0.0, []
        for e in fits:
            for k in state:
                exact(e["state"][k], state[k], f"state at the start of a fold's fit ({k})")
            true(e["calls"] == 0 and e["tag"] == "fresh", "a fold's fit used an algorithm that was already used")
            true(e["kw"].get("c", None) == extra.get("c") , "fixed argument of the fit", got=e["kw"])
            train = rows_of(e["train"])
            rest = list(full)
            for r in train:
                true(r in rest, "a training row is not in the data (or used twice)", got=r)
                rest.remove(r)
            pooled += rest
            sizes = sizes or len(rest)
            true(abs(len(rest) - len(full) / case["folds"]) < 1, "size of a fold", got=len(rest), n=len(full), folds=case["folds"])
            m2, a2 = build(s), algorithm_class()()
            m2.load_state_dict(state)
            m2.fit(e["train"], algorithm=a2, device="cpu", **{k: v for k, v in e["kw"].items() if k != "device"})
            hold = torch.tensor([[float("nan") if v == -9.0 else v for v in r] for r in rest])
            total += float(m2.evaluate.log_likelihood(hold, theta_estimation="EAP", reduction="sum"))
        true(sorted(pooled) == full, "the held-out folds together are not the data")
        want = total / case["folds"]
        true(abs(got[tuple(c[k] for k in case["grid"])] - want) < 1e-3 * (1 + abs(want)), "average held-out log-likelihood", got=got, want=want, combination=c)
    LOG.clear()
    torch.manual_seed(case["seed"])
    df2 = cross_validation(m, data, case["folds"], grid, theta_estimation="EAP", device="cpu", multiprocessing=False, algorithm=alg, **extra)
    close(df2["log_likelihood"].to_numpy(dtype=float), df["log_likelihood"].to_numpy(dtype=float), "the same seed gives the same table", rtol=0, atol=0)


@st.composite
def real_cases(draw):
    s = draw(spec_st(["2PL", "GRM", "GPC"], max_L=1, max_items=3, vmax=10, masks=False))
    n = draw(ints(4, 8))
    return {"m": s, "data": draw(fit_data_st(cats_of(s), n, n)), "folds": draw(ints(2, 3)), "seed": draw(ints(0, 9999)), "alg": draw(st.sampled_from(["MML", "JML", "AE", "VAE"])),
            "lr": [5, 20][: draw(ints(1, 2))], "est": draw(st.sampled_from(["EAP", "ML"]))}


@prop.facet("algorithms", real_cases(), 60, 900, lambda c: len(c["lr"]) > 1, shard_min=15)
def algorithms(case):
    """cross-validation with the real algorithms: the models scored are recorded, each was fitted to data disjoint from what it is scored on, together the scored rows are the data once per combination, and the table holds the averages"""
    import irtorch.estimation_algorithms as ea
    import irtorch.evaluator as evm
    from irtorch.utils import cross_validation
    s = case["m"]
    m = build(s)
    data = data_t(case["data"], "nan")
    alg = getattr(ea, case["alg"])()
    before = copy.deepcopy({k: v for k, v in vars(alg).items() if not isinstance(v, torch.nn.Module)})
    state, keep = state_of(m), data.clone()
    rec = []
    real = evm.Evaluator.log_likelihood

    def spy(self, d=None, *a, **k):
        r = real(self, d, *a, **k)
        rec.append((self.model.algorithm.train_data.clone(), d.clone(), float(r), dict(k)))
        return r
    kw = {"max_epochs": 1}
    kw.update({"quadrature_points": 16} if case["alg"] == "MML" else {"batch_size": 4})
    if case["alg"] in ("AE", "VAE"):
        kw["one_hot_encoded"] = True
    torch.manual_seed(case["seed"])
    evm.Evaluator.log_likelihood = spy
    try:
        df = cross_validation(m, data, case["folds"], {"learning_rate": [x / 100 for x in case["lr"]]}, theta_estimation=case["est"], device="cpu", multiprocessing=False, algorithm=alg, **kw)
    except ValueError as e:     # training thetas without variation define no EAP prior
        if "PositiveDefinite" in str(e):
            return
        raise
    finally:
        evm.Evaluator.log_likelihood = real
    same_state(state_of(m), state, "the passed model")
    exact(data, keep, "the passed data")
    for k, v in before.items():
        now = vars(alg).get(k)
        same = (now is None and v is None) or (isinstance(v, torch.Tensor) and isinstance(now, torch.Tensor) and torch.equal(torch.nan_to_num(v), torch.nan_to_num(now))) or (not isinstance(v, torch.Tensor) and now == v)
        true(same, f"the passed algorithm changed ({k})", got=now, want=v)
    F, G = case["folds"], len(case["lr"])
    true(len(df) == G and len(rec) == F * G, "number of fits and rows", got=(len(df), len(rec)))
    full = list(map(str, rows_of(data)))
    for g in range(G):
        part = rec[g * F:(g + 1) * F]
        pooled = []
        for train, held, v, k in part:
            true(k.get("theta_estimation") == case["est"], "theta estimation used for scoring", got=k)
            together = list(map(str, rows_of(torch.cat([train, held]))))
            true(sorted(together) == sorted(full), "training and held-out rows of a fold are not the data split in two", got=together)
            pooled += list(map(str, rows_of(held)))
        true(sorted(pooled) == sorted(full), "the held-out folds together are not the data")
        want = np.mean([v for _, _, v, _ in part])
        a = float(df["log_likelihood"].iloc[g])
        true((np.isnan(a) and np.isnan(want)) or abs(a - want) < 1e-4 * (1 + abs(want)), "average held-out log-likelihood", got=a, want=want)
        true(abs(float(df["learning_rate"].iloc[g]) - case["lr"][g] / 100) < 1e-12, "parameter of the row")


@st.composite
def par_cases(draw):
    cats = draw(cats_st(items=3, max_cats=3))
    n = draw(ints(6, 9))
    return {"cats": cats, "data": draw(fit_data_st(cats, n, n)), "kind": draw(st.sampled_from(["GRM", "GPC"])), "folds": draw(ints(2, 3)), "seed": draw(ints(0, 999)),
            "grid": {"learning_rate": [0.05, 0.2], "max_epochs": [1, 2][: draw(ints(1, 2))]}, "fixed": {"quadrature_points": 16}}


@prop.facet("parallel", par_cases(), 6, 40, lambda c: True, shard_min=3)
def parallel(case):
    """parallel and sequential runs from the same seed give the same table, in a process of its own in which falling back to sequential processing is an error"""
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "case.json")
        with open(f, "w") as h:
            json.dump(case, h)
        env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        r = subprocess.run([sys.executable, os.path.join(HERE, "pbt", "aux", "cv_parallel.py"), f], capture_output=True, text=True, timeout=240, env=env, cwd=d)
    line = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
    if not line:
        fail("parallel cross-validation failed", stderr=r.stderr[-1500:])
    out = json.loads(line[0][7:])
    a, b = out["sequential"], out["parallel"]
    true(a["unchanged"] and b["unchanged"], "model, data or algorithm changed")
    true(a["columns"] == b["columns"] and len(a["rows"]) == len(b["rows"]) == 2 * len(case["grid"]["max_epochs"]), "shape of the tables", got=out)
    for x, y in zip(a["rows"], b["rows"]):
        for k in x:
            true(abs(x[k] - y[k]) < 1e-4 * (1 + abs(x[k])), f"parallel and sequential tables differ ({k})", sequential=x, parallel=y)


@st.composite
def many_cases(draw):
    cats = draw(cats_st(items=3, max_cats=3))
    n = draw(ints(6, 9))
    alg = draw(st.sampled_from(["MML", "JML"]))
    return {"cats": cats, "data": draw(fit_data_st(cats, n, n)), "alg": alg, "cores": draw(st.sampled_from([1, 1, 2, 3, None])),
            "models": [[draw(st.sampled_from(["GradedResponse", "GeneralizedPartialCredit", "NominalResponse"])), draw(ints(1, 2)) if alg == "MML" else 1, draw(ints(0, 3))] for _ in range(draw(ints(2, 9)))],
            "fixed": dict({"max_epochs": draw(ints(1, 3)), "learning_rate": 0.1}, **({"quadrature_points": 7} if alg == "MML" else {}))}


@prop.facet("many_models", many_cases(), 8, 60, lambda c: len(c["models"]) > 2, shard_min=3)
def many_models(case):
    """fitting several models at once: in the given order, each with the parameters, algorithm, training thetas and history of the same model fitted alone; data and thread settings left alone; non-trivial: three or more models"""
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "case.json")
        with open(f, "w") as h:
            json.dump(case, h)
        env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
        r = subprocess.run([sys.executable, os.path.join(HERE, "pbt", "aux", "fit_many.py"), f], capture_output=True, text=True, timeout=240, env=env, cwd=d)
    line = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
    if not line:
        fail("fitting several models failed", stderr=r.stderr[-1500:])
    out = json.loads(line[0][7:])
    true(out["unchanged"] and out["threads"], "data or thread setting changed")
    true(len(out["many"]) == len(out["alone"]), "number of models", got=len(out["many"]))
    for i, (a, b) in enumerate(zip(out["many"], out["alone"])):
        for k in ("kind", "latent", "alg"):
            true(a[k] == b[k], f"{k} of model {i}", got=a[k], want=b[k])
        for k in ("thetas", "data", "loss"):
            true((a[k] is None) == (b[k] is None), f"{k} of model {i} kept or not")
            if a[k] is not None:
                true(np.shape(a[k]) == np.shape(b[k]), f"shape of {k} of model {i}", got=np.shape(a[k]), want=np.shape(b[k]))
                close(np.array(a[k]), np.array(b[k]), f"{k} of model {i}", rtol=1e-3, atol=1e-4)
        true(list(a["p"]) == list(b["p"]), f"parameters of model {i}")
        for k in a["p"]:
            close(np.array(a["p"][k]), np.array(b["p"][k]), f"{k} of model {i}", rtol=1e-3, atol=1e-3)
