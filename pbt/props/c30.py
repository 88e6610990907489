import contextlib, email.message, io, os, shutil, tempfile, urllib.request, urllib.response, zipfile
from ..gen import *

prop = Property("C30", ["the Big Five download is replaced by generated files in the published layout, with the cache in a scratch home directory; time columns hold at least one missing value, as in the published file"])
ITEMS = [f"{s}{i}" for s in ("EXT", "EST", "AGR", "CSN", "OPN") for i in range(1, 11)]
REVERSED = ["EXT2", "EXT4", "EXT6", "EXT8", "EXT10", "AGR1", "AGR3", "AGR5", "AGR7", "CSN2", "CSN4", "CSN6", "CSN8", "EST2", "EST4", "OPN2", "OPN4", "OPN6"]
OTHER = ["dateload", "screenw", "screenh", "introelapse", "testelapse", "endelapse", "IPC", "country", "lat_appx_lots_of_err", "long_appx_lots_of_err"]


@st.composite
def five_st(draw):
    rows = []
    for _ in range(draw(ints(1, 8))):
        base = [draw(ints(0, 5)) for _ in range(draw(ints(1, 7)))]
        r = {"v": base, "t": [draw(ints(1, 300000)) for _ in range(draw(ints(1, 3)))], "ipc": draw(st.sampled_from([1, 1, 1, 1, 2, 7])), "ch": []}
        for _ in range(draw(ints(0, 3))):
            kind = draw(st.sampled_from(["time", "item", "nan", "tnan"]))
            r["ch"].append([kind, draw(ints(0, 49)), draw(st.sampled_from([-1, 0, 1, 299999, 300000, 300001, 10 ** 6, -50000])) if kind == "time" else draw(ints(0, 5))])
        if draw(ints(0, 5)) == 0:
            r["v"] = [0]
        rows.append(r)
    return {"rows": rows}


def table(c):
    out = []
    for i, r in enumerate(c["rows"] + [{"v": [3], "t": [5000], "ipc": 1, "ch": [["nan", j, 0] for j in range(50)] + [["tnan", j, 0] for j in range(50)]}]):
        v = [float(r["v"][j % len(r["v"])]) for j in range(50)]
        t = [float(r["t"][j % len(r["t"])]) for j in range(50)]
        for kind, j, x in r["ch"]:
            if kind == "time": t[j] = float(x)
            if kind == "item": v[j] = float(x)
            if kind == "nan": v[j] = None
            if kind == "tnan": t[j] = None
        out.append((v, t, r["ipc"]))
    return out


def kept(rows):
    out = []
    for v, t, ipc in rows:
        if any(x is not None and (x < 0 or x > 300 * 1000) for x in t) or ipc != 1 or any(x is None for x in v) or sum(v) <= 0:
            continue
        out.append([np.nan if x == 0 else (6 - x if n in REVERSED else x) - 1 for n, x in zip(ITEMS, v)])
    return np.array(out, dtype=float).reshape(-1, 50)


@contextlib.contextmanager
def served(payload, asked):
    """A scratch home directory and a download that hands out these bytes."""
    home, old, real = tempfile.mkdtemp(prefix="c30_"), os.environ.get("HOME"), urllib.request.urlopen

    def urlopen(url, *a, **k):
        asked.append(url)
        if payload is None:
            raise OSError("no network in this sandbox")
        return urllib.response.addinfourl(io.BytesIO(payload), email.message.Message(), str(url), 200)
    os.environ["HOME"] = home
    urllib.request.urlopen = urlopen
    try:
        yield home
    finally:
        urllib.request.urlopen = real
        if old is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = old
        shutil.rmtree(home, ignore_errors=True)


@prop.facet("big_five", five_st(), 160, 2500, lambda c: 0 < len(kept(table(c))) < len(c["rows"]))
def big_five(c):
    """respondents kept, missing answers, reversed items and category coding of generated raw files; the raw data and the item texts come along; the second call reads the cache; non-trivial: some respondents kept, some not"""
    from irtorch.load_dataset import big_five as load
    rows = table(c)
    head = ITEMS + [x + "_E" for x in ITEMS] + OTHER
    num = lambda x: "" if x is None else (str(int(x)) if float(x).is_integer() else repr(x))
    text = "\t".join(head) + "\n"
    for i, (v, t, ipc) in enumerate(rows):
        text += "\t".join([num(x) for x in v] + [num(x) for x in t] + ["2016-03-03 02:01:01", "768", "1024", "9", "234", "6", str(ipc), "SE", "63.8", "20.3"]) + "\n"
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        z.writestr("IPIP-FFM-data-8Nov2018/data-final.csv", text)
        z.writestr("IPIP-FFM-data-8Nov2018/codebook.txt", "codebook")
    asked = []
    with served(buf.getvalue(), asked):
        first = load()
        true(len(asked) == 1, "the data are downloaded once", got=len(asked))
        second = load()
        true(len(asked) == 1, "the cached data are not used", got=len(asked))
    want = kept(rows)
    for data, raw, items in (first, second):
        true(data.dtype == torch.float32, "data type", got=data.dtype)
        close(data, want, "preprocessed responses", rtol=0, atol=1e-6)
        true(list(raw.columns) == head and len(raw) == len(rows), "raw data", got=raw.shape)
        close(raw[ITEMS].to_numpy(dtype=float), np.array([[np.nan if x is None else x for x in v] for v, _, _ in rows]), "raw responses")
        close(raw[[x + "_E" for x in ITEMS]].to_numpy(dtype=float), np.array([[np.nan if x is None else x for x in t] for _, t, _ in rows]), "raw times")
        true(len(items) == 50 and len(set(items)) == 50 and all(x.strip() for x in items), "one text per item", got=len(items))
        true(items[0].endswith("I am the life of the party.") and items[49].endswith("I am full of ideas."), "item texts in the order of the columns", got=items[:1] + items[-1:])


LOADERS = ["swedish_national_mathematics_1", "swedish_national_mathematics_2", "swedish_sat_verbal", "swedish_sat_quantitative", "swedish_sat", "swedish_sat_binary"]


def stored():
    import irtorch
    d = os.path.join(os.path.dirname(irtorch.__file__), "datasets")
    load = lambda *p: torch.load(os.path.join(d, *p), weights_only=False)
    key = lambda f: [int(x) - 1 for x in open(os.path.join(d, "swedish_sat", f), encoding="utf-8").read() if x.isdigit()]
    q, v, kq, kv = load("swedish_sat", "swesat22b_quant.pt"), load("swedish_sat", "swesat22b_verb.pt"), key("swesat22b_quant_correct.txt"), key("swesat22b_verb_correct.txt")
    both = torch.cat([q, v], dim=1)
    bin_ = torch.tensor(np.array([(both[:, j] == k).numpy() for j, k in enumerate(kq + kv)]).T.astype(np.float32))
    return {"swedish_national_mathematics_1": (load("national_mathematics", "mathematics_1.pt"), None), "swedish_national_mathematics_2": (load("national_mathematics", "mathematics_2.pt"), None),
            "swedish_sat_verbal": (v, kv), "swedish_sat_quantitative": (q, kq), "swedish_sat": (both, kq + kv), "swedish_sat_binary": (bin_, None)}


STORED = []


@st.composite
def calls_st(draw):
    return {"ops": [[draw(st.sampled_from(LOADERS)), draw(st.sampled_from(["keep", "overwrite", "score"]))] for _ in range(draw(ints(1, 5)))]}


@prop.facet("bundled", calls_st(), 60, 600, lambda c: len({o[0] for o in c["ops"]}) > 1)
def bundled(c):
    """sequences of loading and overwriting: every load gives the stored responses afresh, the SAT data are quantitative then verbal items with keys counted from zero that lie inside each item's categories, and the binary data score exactly the responses equal to the key; non-trivial: several data sets"""
    from irtorch import load_dataset
    from irtorch.models import NominalResponse
    if not STORED:
        STORED.append(stored())
    for name, after in c["ops"]:
        r = getattr(load_dataset, name)()
        want, key = STORED[0][name]
        data = r[0] if key is not None else r
        true(data.dtype == torch.float32, f"data type of {name}", got=data.dtype)
        exact(data.nan_to_num(-7.0), want.nan_to_num(-7.0), name)
        x = data[~data.isnan()]
        true(bool(((x >= 0) & (x == x.round())).all()), f"{name} holds something else than category indices")
        if key is not None:
            true(list(r[1]) == key, f"correct options of {name}", got=r[1])
            top = data.nan_to_num(-1.0).max(dim=0).values
            true(all(0 <= k <= t for k, t in zip(r[1], top.tolist())), f"correct options of {name} outside the item's categories")
            share = (data == torch.tensor(r[1])).float().mean(dim=0)
            true(float(share.mean()) > 0.4, f"hardly anyone chooses the correct options of {name}", share=float(share.mean()))
            if after == "score":
                m = NominalResponse(latent_variables=1, data=data[:200], mc_correct=list(r[1])) if all(k <= t for k, t in zip(r[1], data[:200].nan_to_num(-1.0).max(dim=0).values.tolist())) else None
                true(m is None or m.items == data.shape[1], "a model of the data set")
        if after == "overwrite":
            data.fill_(3.0)
            if key is not None:
                r[1].clear()
