"""Shared harness: facets (generated checks), runner, counting, shrinking, replay, evidence.

A property is decided by one or more facets.  A facet is a Hypothesis strategy producing a plain
JSON-able case and a check function that raises Violation when the oracle is contradicted.
"""
import sys, os, io, json, time, hashlib, traceback, contextlib, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
try:
    import hypothesis
except ImportError:
    for cand in (os.path.join(HERE, ".deps"), "/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
        if os.path.isdir(os.path.join(cand, "hypothesis")):
            sys.path.append(cand)          # appended: torch/numpy/... still come from the repo's venv
            break
    import hypothesis
from hypothesis import strategies as st, given, settings, HealthCheck, Phase
import numpy as np
import torch
import logging

torch.set_num_threads(1)
logging.disable(logging.CRITICAL)
import irtorch  # noqa: E402  (the code under test)

_pkg = os.path.realpath(os.path.dirname(irtorch.__file__))
assert _pkg == os.path.realpath(os.path.join(REPO, "irtorch")), f"wrong irtorch under test: {_pkg}"


KNOWN_ACTIVE = True     # False while a listed finding is itself being replayed


class Violation(Exception):
    """The code under test contradicted the oracle."""


class Known(Exception):
    """Raised by a check when the case falls in an excluded, listed known finding."""


def fail(msg, **data):
    raise Violation(msg + ("" if not data else " | " + "; ".join(f"{k}={_short(v)}" for k, v in data.items())))


def _short(v, n=400):
    if isinstance(v, torch.Tensor):
        v = v.detach().tolist()
    elif isinstance(v, np.ndarray):
        v = v.tolist()
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def close(actual, expected, what, rtol=1e-6, atol=1e-8, equal_nan=True):
    """Compare with a stated tolerance; shape must match too."""
    a = actual.detach().double().numpy() if isinstance(actual, torch.Tensor) else np.asarray(actual, dtype=float)
    e = expected.detach().double().numpy() if isinstance(expected, torch.Tensor) else np.asarray(expected, dtype=float)
    if a.shape != e.shape:
        fail(f"{what}: shape {a.shape} instead of {e.shape}")
    if a.size == 0:
        return
    with np.errstate(all="ignore"):
        ok = np.isclose(a, e, rtol=rtol, atol=atol, equal_nan=equal_nan)
    if not ok.all():
        bad = np.argwhere(~ok)
        i = tuple(bad[0])
        fail(f"{what}: got {a[i] if a.ndim else a!r}, expected {e[i] if e.ndim else e!r} at {list(map(int, i))} ({len(bad)}/{a.size} differ)",
             got=a, want=e)


def exact(actual, expected, what):
    a = actual.detach() if isinstance(actual, torch.Tensor) else torch.as_tensor(actual)
    e = expected.detach() if isinstance(expected, torch.Tensor) else torch.as_tensor(expected)
    if tuple(a.shape) != tuple(e.shape):
        fail(f"{what}: shape {tuple(a.shape)} instead of {tuple(e.shape)}")
    if a.is_floating_point() or e.is_floating_point():
        a, e = a.double(), e.double()
        same = (a == e) | (a.isnan() & e.isnan())
    else:
        same = a == e
    if not bool(same.all()):
        fail(f"{what}: not equal", got=a, want=e)


def true(cond, what, **data):
    if not bool(cond):
        fail(what, **data)


def raises(excs, fn, what):
    """fn must raise one of excs (a clean rejection)."""
    try:
        r = fn()
    except excs:
        return
    except Exception as e:  # another exception type is still a rejection of the input
        return e
    fail(f"{what}: accepted, nothing raised", result=str(type(r)))


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, nontrivial=None, rule="", dtype="float32", shard_min=40):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough
        self.nontrivial = nontrivial or (lambda case: True)
        self.rule = rule
        self.dtype = dtype
        self.shard_min = shard_min


class Property:
    def __init__(self, id, assumptions=()):
        self.id = id
        self.facets = []
        self.assumptions = list(assumptions)

    def facet(self, name, strategy, quick, thorough, nontrivial=None, rule="", dtype="float32", shard_min=40):
        def deco(fn):
            self.facets.append(Facet(name, strategy, fn, quick, thorough, nontrivial, rule or (fn.__doc__ or "").strip(), dtype, shard_min))
            return fn
        return deco


@contextlib.contextmanager
def guarded(dtype):
    """Every case starts from the same global state: default dtype, RNG, grad mode, no output."""
    old = torch.get_default_dtype()
    torch.set_default_dtype(getattr(torch, dtype))
    torch.manual_seed(0); np.random.seed(0)
    pystate = random.getstate()
    grad = torch.is_grad_enabled()
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            yield
    finally:
        torch.set_default_dtype(old)
        torch.set_grad_enabled(grad)
        random.setstate(pystate)


def from_repo(exc):
    """Does the exception's traceback run through the code under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for f in traceback.extract_tb(exc.__traceback__):
            if os.path.realpath(f.filename).startswith(_pkg + os.sep):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(facet, case):
    """Returns None or a violation message; harness errors propagate."""
    try:
        with guarded(facet.dtype):
            facet.check(case)
    except Violation as e:
        return str(e)
    except Known:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        if from_repo(e):
            tb = traceback.extract_tb(e.__traceback__)
            last = [f for f in tb if os.path.realpath(f.filename).startswith(_pkg + os.sep)]
            where = f"{os.path.relpath(last[-1].filename, REPO)}:{last[-1].name}" if last else "?"
            return f"valid input raised {type(e).__name__}: {str(e)[:300]} (in {where})"
        if isinstance(e, (AttributeError, TypeError, ValueError, IndexError, KeyError, RuntimeError, ArithmeticError)):
            # the code under test returned, but with something the check cannot even compare (None, another shape, another type)
            at = traceback.extract_tb(e.__traceback__)[-1]
            return f"result of an unusable form: {type(e).__name__}: {str(e)[:300]} (at {os.path.basename(at.filename)}:{at.lineno})"
        raise
    return None


class Stop(Exception):
    pass


def explore(facet, n, seed, shrink_s=40.0):
    stats = {"evaluations": 0, "nontrivial": set(), "samples": [], "known": 0}
    failing = {}
    state = {"first": None, "harness": None}

    def body(case):
        key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
        if state["first"] is not None and key not in failing and time.time() - state["first"] > shrink_s:
            return
        if state["first"] is None:
            stats["evaluations"] += 1
        try:
            msg = run_case(facet, case)
        except Known:
            stats["known"] += 1
            return
        if state["first"] is None:
            try:
                nt = facet.nontrivial(case)
            except Exception:
                nt = False
            if nt:
                if key not in stats["nontrivial"] and len(stats["samples"]) < 3 and len(stats["nontrivial"]) % 7 == 0:
                    stats["samples"].append({"facet": facet.name, "case": case})
                stats["nontrivial"].add(key)
        if msg is not None:
            if state["first"] is None:
                state["first"] = time.time()
            failing[key] = (case, msg)
            state["last"] = (case, msg)
            raise Violation(msg)

    test = settings(max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
                    report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink])(given(facet.strategy)(body))
    test = hypothesis.seed(seed)(test)
    try:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            test()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        if "last" in state:
            return stats, state["last"]
        raise
    if "last" in state:     # failed once but not on replay: still report what was seen
        return stats, state["last"]
    return stats, None
