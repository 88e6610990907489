from ..fitlib import *
from ..gen import _construct
import tempfile

prop = Property("C18", ["the file is loaded into a model built with the same constructor arguments; files are written to a scratch directory"])
OPS = ["mml", "jml", "ae", "vae", "scale", "rank", "bit", "detach", "again", "params", "scores", "evaluate", "train", "reload"]


@st.composite
def sl_st(draw):
    s = draw(spec_st(ALL, max_L=2, max_items=3, max_cats=4, vmax=12))
    L = s["L"]
    c = {"m": s, "ops": [], "theta": draw(theta_st(L, 2, 4, -25, 25)), "data": draw(fit_data_st(cats_of(s), 4, 6)), "coding": draw(st.sampled_from(["nan", "-1"])),
         "used": draw(st.sampled_from(["no", "no", "scales", "fitted"])), "seed": draw(ints(0, 50))}
    n = draw(ints(0, 6))
    for _ in range(n):
        o = {"o": draw(st.sampled_from(OPS))}
        if o["o"] == "scale":
            o["d"] = draw(scales_st(L, ("rev", "rot", "flow", "link"), 1, 1))[0]
        if o["o"] in ("params",):
            o["p"] = draw(st.lists(ints(-12, 12), min_size=1, max_size=6))
        if o["o"] in ("scores",):
            o["e"] = draw(st.sampled_from(["ML", "EAP", "EAP"]))
        if o["o"] in ("ae", "vae"):
            o["bn"] = draw(st.booleans()); o["hidden"] = draw(st.sampled_from([None, [3, 2]]))
        c["ops"].append(o)
    return c


def apply(o, m, c, hold):
    from irtorch.estimation_algorithms import MML, JML, AE, VAE
    L = m.latent_variables
    D = data_t(c["data"], c["coding"])
    k = o["o"]
    if k == "mml":
        m.fit(D, MML(), max_epochs=2, quadrature_points=3, device="cpu", covariance_matrix=torch.eye(L) * 1.5)
    elif k == "jml":
        m.fit(D, JML(), max_epochs=2, device="cpu", start_thetas=torch.randn(len(D), L))
    elif k in ("ae", "vae"):
        m.fit(D, (AE if k == "ae" else VAE)(), max_epochs=2, device="cpu", hidden_layers_encoder=o["hidden"], batch_normalization_encoder=o["bn"], evaluation_interval_size=1)
    elif k == "scale":
        m.add_scale_transformation(build_scale(o["d"], m))
    elif k == "again":      # the same scale once more
        if m.scale:
            m.add_scale_transformation(m.scale[-1])
    elif k == "rank":
        from irtorch.rescale import RankCDF
        m.add_scale_transformation(RankCDF(torch.linspace(-2, 2, 9 * L).view(-1, L)))
    elif k == "bit":
        from irtorch.rescale import Bit
        m.add_scale_transformation(Bit(m, start_theta=torch.full((L,), -2.0), grid_points=60))
    elif k == "detach":
        m.detach_scale_transformations()
    elif k == "params":
        fill(m, o["p"], 20.0)
        for sub in [m] + (list(m.models) if hasattr(m, "models") else []) + ([m.correct_response_model] if c["m"]["k"] == "NEST" else []):
            if isinstance(sub, im.GradedResponse):
                order_grm(sub)
    elif k == "scores":
        try:
            m.latent_scores(D[:1], theta_estimation=o["e"], device="cpu", eap_theta_integration_points=4, rescale=False)
        except (ValueError, UnboundLocalError):
            pass
    elif k == "evaluate":
        m.evaluate.accuracy(data=D, theta=torch.zeros(len(D), L))
        m.plot
        m.expected_item_score_gradients(torch.zeros(1, L), rescale=False)
    elif k == "train":
        m.train()
    elif k == "reload":
        with tempfile.TemporaryDirectory() as d:
            m.save_model(os.path.join(d, "a.pt"))
            m.load_model(os.path.join(d, "a.pt"))


def invertible(m):
    return all(s.invertible for s in m.scale)


def snapshot(m, c):
    """Everything observable that must survive."""
    t = theta_t(c["theta"])
    D = data_t(c["data"], c["coding"])
    out = {}
    with torch.no_grad():
        out["probabilities"] = m.item_probabilities(t.clone())
        n = min(len(t), len(D))
        out["log-likelihood"] = m.log_likelihood(D[:n].clone(), m(t[:n].clone()), missing_mask=missing(D[:n]))
        out["expected scores"] = m.expected_scores(t.clone())
        out["directions"] = m.item_theta_relationship_directions(torch.tensor([[-1.0, 0.3], [0.5, -0.7], [1.2, 1.1], [-0.4, -1.6], [0.1, 0.8]])[:, :m.latent_variables].clone())
        if hasattr(m, "item_parameters"):
            out["item parameters"] = torch.tensor(m.item_parameters().to_numpy(dtype=float))
        if c["m"]["k"] != "MIX" or True:
            out["transformed thetas"] = m.transform_theta(t.clone())
            if invertible(m):
                out["inverse"] = m.inverse_transform_theta(out["transformed thetas"].clone())
    if invertible(m):
        out["jacobian"] = m.theta_transform_jacobian(t.clone()).detach()
    for e in ("EAP",) + (("MAP",) if c["seed"] % 5 == 0 else ()) + (("NN",) if hasattr(m.algorithm, "encoder") else ()):
        torch.manual_seed(1)
        try:
            out[e + " scores"] = m.latent_scores(D.clone(), theta_estimation=e, device="cpu", eap_theta_integration_points=4).detach()
        except (ValueError, UnboundLocalError) as x:     # a degenerate training sample has no normal prior
            out[e + " scores"] = type(x).__name__
    a = m.algorithm
    for k in ("training_theta_scores", "covariance_matrix", "train_data"):
        v = getattr(a, k, None)
        out[k] = None if v is None else v.detach()
    out["history"] = None if a is None else a.training_history
    out["algorithm"] = type(a).__name__
    out["scales"] = [type(s).__name__ for s in m.scale]
    out["configuration"] = [m.latent_variables, list(m.item_categories), m.mc_correct, m.items, m.max_item_responses]
    return out


def compare(a, b, what):
    for k in a:
        if isinstance(a[k], torch.Tensor):
            true(isinstance(b[k], torch.Tensor), f"{what}: {k} lost")
            exact(b[k], a[k], f"{what}: {k}")
        else:
            true(a[k] == b[k], f"{what}: {k}", before=a[k], after=b[k])


@prop.facet("roundtrip", sl_st(), 220, 3000, lambda c: len(c["ops"]) > 1)
def roundtrip(c):
    """after any sequence of fits, rescaling, parameter changes, evaluations and reloads: the loaded model (fresh, or used before) observes the same as the saved one, and saving changes nothing; non-trivial: at least two operations"""
    m = build(c["m"])
    torch.manual_seed(c["seed"])
    for o in c["ops"]:
        apply(o, m, c, None)
    mode = m.training
    m.eval()
    if not all(bool(torch.isfinite(p).all()) for p in m.parameters()):
        return
    before = snapshot(m, c)
    m.train(mode)
    sd, scales, alg = state_of(m), list(m.scale), m.algorithm
    held = {} if alg is None else {k: (v.clone() if isinstance(v, torch.Tensor) else list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in vars(alg).items()}
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "model.pt")
        m.save_model(f)
        same_state(state_of(m), sd, "saving changed the parameters")
        true(m.training == mode and m.algorithm is alg and len(m.scale) == len(scales) and all(x is y for x, y in zip(m.scale, scales)), "saving changed the model")
        for k, v in held.items():       # what the fit left behind (histories, optimiser, training data) stays with the model in use
            now = getattr(alg, k, None)
            if isinstance(v, torch.Tensor):
                exact(now, v, f"saving changed the algorithm's {k}")
            elif v is None or isinstance(v, (bool, int, float, str, torch.nn.Module, torch.optim.Optimizer)):
                true(now is v or now == v, f"saving changed the algorithm's {k}", got=now)
        m.eval()
        compare(before, snapshot(m, c), "the saved model changed by saving")
        torch.manual_seed(c["seed"] + 7)
        n = _construct(c["m"])
        n.eval()
        if c["used"] == "scales":
            from irtorch.rescale import Reverse
            n.add_scale_transformation(Reverse([True] * n.latent_variables))
        elif c["used"] == "fitted":
            from irtorch.estimation_algorithms import JML
            n.fit(data_t(c["data"], "nan").flip(0), JML(), max_epochs=1, device="cpu", start_thetas=torch.ones(len(c["data"]), n.latent_variables))
        n.load_model(f)
        os.remove(f)
    n.eval()
    compare(before, snapshot(n, c), "after loading")
    true(all(a is not b for a, b in zip(n.parameters(), m.parameters())), "the loaded model shares its parameters")
    true(all(p.requires_grad for p in n.parameters()), "loaded parameters cannot be trained")
    # independent afterwards: using one leaves the other
    fill(m, [3], 10.0)
    m.scale.clear()
    compare(before, snapshot(n, c), "the loaded model follows changes of the saved one")


@prop.facet("double", st.builds(lambda m, t, u: {"m": m, "theta": [[v % 50 - 25 for v in t[:m["L"]]]], "shift": u}, spec_st([k for k in ALL if k not in ("MIX", "NEST")], max_L=2, max_items=3, max_cats=4, vmax=12), st.lists(ints(0, 100), min_size=2, max_size=2), ints(1, 9)),
            120, 2000, dtype="float64")
def double(c):
    """models in double precision come back with every parameter and probability unrounded"""
    m, n = build(c["m"]), _construct(c["m"])
    with torch.no_grad():
        for p in m.parameters():
            p.add_(c["shift"] * 1e-11)
    t = theta_t(c["theta"])
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "model.pt")
        m.save_model(f)
        n.load_model(f)
    same_state(state_of(n), state_of(m), "loaded model in double precision")
    with torch.no_grad():
        exact(n.item_probabilities(t.clone()), m.item_probabilities(t.clone()), "probabilities of the loaded model in double precision")
