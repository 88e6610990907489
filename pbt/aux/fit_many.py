"""Run by the C26 check in a process of its own: several models fitted at once, against each of them fitted alone."""
import sys, os, json, logging
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import torch
logging.disable(logging.CRITICAL)


def state(m):
    a = m.algorithm
    tr = lambda x: None if x is None else x.detach().double().nan_to_num(-99.0).tolist()
    return {"p": {k: tr(v.float()) for k, v in m.state_dict().items()}, "kind": type(m).__name__, "latent": m.latent_variables, "alg": type(a).__name__,
            "thetas": tr(getattr(a, "training_theta_scores", None)), "data": tr(getattr(a, "train_data", None)), "loss": [float(x) for x in a.training_history["train_loss"]]}


def main():
    case = json.load(open(sys.argv[1]))
    torch.set_num_threads(2)
    import irtorch.utils as u
    from irtorch import models as M
    from irtorch.estimation_algorithms import MML, JML
    data = torch.tensor([[float("nan") if v is None else float(v) for v in r] for r in case["data"]])

    def build():
        out = []
        for kind, latent, shift in case["models"]:
            m = getattr(M, kind)(latent_variables=latent, item_categories=list(case["cats"]))
            with torch.no_grad():
                for i, p in enumerate(m.parameters()):
                    p.copy_(0.3 + 0.1 * shift + 0.05 * torch.arange(p.numel(), dtype=p.dtype).reshape(p.shape).remainder(4))
            out.append(m)
        return out
    alg = lambda: {"MML": MML, "JML": JML}[case["alg"]]()
    keep, threads = data.clone(), torch.get_num_threads()
    given = build()
    many = u.fit_multiple_models_cpu(given, data, cores_to_use=case["cores"], algorithm=alg(), **case["fixed"])
    out = {"many": [state(m) for m in many], "threads": torch.get_num_threads() == threads, "unchanged": bool(((data == keep) | keep.isnan()).all())}
    torch.set_num_threads(1)
    alone = build()
    for m in alone:
        m.fit(data, device="cpu", algorithm=alg(), **case["fixed"])
    out["alone"] = [state(m) for m in alone]
    print("\nRESULT " + json.dumps(out))


if __name__ == "__main__":
    main()
