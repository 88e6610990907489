"""Run by the C26 check in a process of its own: the same cross-validation in parallel and sequentially."""
import sys, os, json, logging
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import torch
logging.disable(logging.CRITICAL)


def main():
    case = json.load(open(sys.argv[1]))
    torch.set_num_threads(2)
    import irtorch.utils as u
    from irtorch.models import GradedResponse, TwoParameterLogistic, GeneralizedPartialCredit
    from irtorch.estimation_algorithms import MML, JML, AE
    data = torch.tensor([[float("nan") if v is None else float(v) for v in r] for r in case["data"]])
    torch.manual_seed(case["seed"])
    m = {"GRM": GradedResponse, "GPC": GeneralizedPartialCredit}[case["kind"]](latent_variables=1, item_categories=list(case["cats"]))
    with torch.no_grad():
        m.weight_param.add_(0.25)
    alg = MML()
    before = [v.clone() for v in m.state_dict().values()]
    kw = dict(params_grid=case["grid"], folds=case["folds"], theta_estimation="EAP", device="cpu", algorithm=alg, **case["fixed"])
    real = u._run_sequential
    out = {}

    def refuse(*a, **k):
        raise AssertionError("fell back to sequential processing")
    for mode in ("sequential", "parallel"):
        u._run_sequential = refuse if mode == "parallel" else real
        torch.manual_seed(case["seed"])
        keep = data.clone()
        df = u.cross_validation(m, data, multiprocessing=mode == "parallel", cores_to_use=2, **kw)
        out[mode] = {"columns": sorted(map(str, df.columns)), "rows": [{k: float(v) for k, v in r.items()} for r in df.to_dict("records")],
                     "unchanged": all(torch.equal(a, b) for a, b in zip(before, m.state_dict().values())) and bool(((data == keep) | keep.isnan()).all()) and alg.train_data is None}
    u._run_sequential = real
    print("\nRESULT " + json.dumps(out))


if __name__ == "__main__":
    main()
