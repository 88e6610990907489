"""Command line of the checks: explores every facet of one property, writes evidence and replays."""
import sys, os, json, time, importlib, argparse, traceback, multiprocessing as mp
from . import core


def load_known(prop):
    path = os.path.join(core.HERE, "known", "findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f) if x.get("property") == prop]


PROP = None


def _task(arg):
    i, shard, n, seed = arg
    facet = PROP.facets[i]
    t = time.time()
    try:
        stats, bad = core.explore(facet, n, seed)
        stats["nontrivial"] = sorted(stats["nontrivial"])
        stats["wall"] = time.time() - t
        return i, shard, stats, bad, None
    except BaseException:
        return i, shard, None, None, f"facet {facet.name}: " + traceback.format_exc()


def main():
    global PROP
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--facet"); ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = importlib.import_module(f"pbt.props.{a.prop.lower()}")
    prop = PROP = mod.prop
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        facet = next(x for x in prop.facets if x.name == r["facet"])
        msg = core.run_case(facet, r["case"])
        if msg is None:
            print("replay: holds"); return 0
        print("replay:", msg)
        print(f"VIOLATION property={prop.id} replay={a.replay}")
        return 1
    known_lines = []
    for k in load_known(prop.id):
        if k.get("status") == "open":
            facet = next(x for x in prop.facets if x.name == k["facet"])
            core.KNOWN_ACTIVE = False
            msg = core.run_case(facet, k["case"])
            core.KNOWN_ACTIVE = True
            if msg is not None:
                known_lines.append(f"KNOWN-FINDING: property={prop.id} {k['what']}")
    tasks = []
    for i, facet in enumerate(prop.facets):
        if a.facet and facet.name != a.facet:
            continue
        n = max(1, int((facet.quick if a.tier == "quick" else facet.thorough) * a.scale))
        shards = max(1, min(4 if a.tier == "quick" else 8, n // facet.shard_min))
        for k in range(shards):
            tasks.append((i, k, max(1, n // shards), seed * 100003 + i * 101 + k))
    tasks.sort(key=lambda t: t[1])      # first shards of every facet first
    results, viol, err = [], [], None
    ctx = mp.get_context("fork")
    with ctx.Pool(max(1, min(a.jobs, len(tasks))), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_task, tasks, chunksize=1):
            if r[4]:
                err = err or r[4]
                continue
            results.append(r)
            if r[3]:
                case, msg = r[3]
                facet = prop.facets[r[0]]
                os.makedirs(os.path.join(core.HERE, "replays"), exist_ok=True)
                path = os.path.join(core.HERE, "replays", f"{prop.id}-{facet.name}-{seed}.json")
                with open(path, "w") as f:
                    json.dump({"property": prop.id, "facet": facet.name, "message": msg, "case": case}, f, indent=1)
                viol.append((facet.name, msg, path))
                break   # one minimal reproduction is enough
        pool.terminate()
    per, evals, samples, total_nt = {}, 0, [], 0
    for i, facet in enumerate(prop.facets):
        rs = [r for r in results if r[0] == i]
        if not rs:
            continue
        nt = set().union(*[r[2]["nontrivial"] for r in rs])
        ev = sum(r[2]["evaluations"] for r in rs)
        for r in rs[:1]:
            samples += r[2]["samples"][:2]
        per[facet.name] = {"evaluations": ev, "distinct_nontrivial": len(nt), "excluded_known": sum(r[2]["known"] for r in rs),
                           "rule": facet.rule, "cpu_s": round(sum(r[2]["wall"] for r in rs), 2)}
        evals += ev; total_nt += len(nt)
    os.makedirs(os.path.join(core.HERE, "evidence"), exist_ok=True)
    ev = {"property": prop.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": total_nt,
                       "rule": "Hypothesis-generated cases, distinct by content; per facet: " + " || ".join(f"{k}: {v['rule']}" for k, v in per.items()),
                       "samples": samples[:16], "facets": per},
          "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(os.path.join(core.HERE, "evidence", f"{prop.id}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in known_lines:
        print(line)
    print(f"{prop.id} {a.tier} seed={seed}: {evals} cases, {total_nt} distinct non-trivial, {time.time()-t0:.1f}s; "
          + ", ".join(f"{k}={v['evaluations']}/{v['cpu_s']}s" for k, v in per.items()))
    if viol:
        for name, msg, path in viol:
            print(f"  facet {name}: {msg[:600]}")
            print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    if err:
        print(err)
        print("harness error (no verdict)")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print("harness error (no verdict)")
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
