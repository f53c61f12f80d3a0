from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require
from gens import COUNT_NAMES, HIST_NAMES, INF, layout, nice

NAN = float("nan")
UNKNOWN = ["NoSuchCounter", "exitstreamcount", "ExitStreamCountX", "", "OtherCount"]
MODEL_NAMES = ["ExitStreamTrafficModelDelayTime", "ExitCircuitTrafficModelSquaredLogDelayTime"]
DYN = ["ExitCircuitTrafficModelEmissionCount", "EntryConnectionCountryMatchCountList", "ExitStreamCount"]


def single(name):
    t = name.partition("_")[0]
    return t.endswith("Count") or "TrafficModel" in t and t.endswith("DelayTime")


@st.composite
def bins_for(draw, name):
    """mostly right for the name, with one damage at times"""
    if single(name):
        bins = draw(st.sampled_from([[[0.0, INF]], [[0, 5]], [[-INF, INF]]]))
        bins = [list(b) for b in bins]
    else:
        bins = draw(layout())
        if draw(st.booleans()):
            bins = draw(st.permutations(bins))
    kind = draw(st.sampled_from(["ok"] * 9 + ["equal", "swap", "overlap", "duplicate", "count", "nan", "inside", "third",
                                                     "prefix", "suffix", "cover"]))
    j = draw(st.integers(0, len(bins) - 1))
    if kind == "equal":
        bins[j][1] = bins[j][0]
    elif kind == "swap":
        bins[j].reverse()
    elif kind == "overlap":
        bins[j][1] = draw(nice)
    elif kind == "duplicate":
        bins.insert(draw(st.integers(0, len(bins))), list(bins[j]))
    elif kind == "count":
        bins = bins[:1] if not single(name) else bins + [[-10.0, -5.0]]
    elif kind == "nan":
        bins[j][draw(st.integers(0, 1))] = NAN
    elif kind == "inside":
        lo, hi = [max(min(x, 1e13), -1e13) for x in bins[j]]
        bins.insert(draw(st.integers(0, len(bins))), [lo + (hi - lo) / 4, lo + (hi - lo) / 2])
    elif kind in ("prefix", "suffix", "cover"):
        # a bin that shares one or both ends with the bins there are
        k = draw(st.integers(j, len(bins) - 1))
        lo, hi = min(bins[j][0], bins[k][0]), max(bins[j][1], bins[k][1])
        a, b = [max(min(x, 1e13), -1e13) for x in (lo, hi)]
        if kind == "prefix":
            hi = draw(st.sampled_from([a + (b - a) / 2, INF, b + 1]))
        elif kind == "suffix":
            lo = draw(st.sampled_from([a + (b - a) / 2, -INF, a - 1]))
        bins.insert(draw(st.integers(0, len(bins))), [lo, hi])
    elif kind == "third":
        bins = [b + [draw(st.integers(0, 9))] for b in bins]
    return bins


sigma = st.one_of(st.floats(0, 1e12), st.integers(0, 10 ** 12), st.sampled_from([0, 0.0, 1e-300]))
bad_sigma = st.sampled_from([-1, -0.5, -1e-9, NAN, -INF])


@st.composite
def configs(draw):
    names = draw(st.lists(st.sampled_from(COUNT_NAMES + HIST_NAMES), min_size=1, max_size=4, unique=True))
    if draw(st.integers(0, 6)) == 0:
        names.append(draw(st.sampled_from(UNKNOWN)))
    bins = {n: {"bins": draw(bins_for(n))} for n in names}
    bad = draw(st.integers(0, 6)) == 0
    sig = {n: {"sigma": draw(sigma)} for n in names}
    if bad:
        sig[draw(st.sampled_from(names))] = {"sigma": draw(bad_sigma)}
    change = draw(st.sampled_from(["same"] * 6 + ["less", "more", "rename"]))
    if change in ("less", "rename"):
        del sig[draw(st.sampled_from(names))]
    if change in ("more", "rename"):
        n = draw(st.sampled_from(COUNT_NAMES))
        sig.setdefault(n, {"sigma": 1.0})
    return dict(bins=bins, sigmas=sig, unknown=draw(st.sampled_from([False, False, False, True])), known=None)


def bins_ok(bins):
    bins = [b[:2] for b in bins]
    if any(not b[0] < b[1] for b in bins):
        return False
    for i, a in enumerate(bins):
        for b in bins[:i]:
            if max(a[0], b[0]) < min(a[1], b[1]):
                return False
    return True


def run(case, w):
    known = set(COUNT_NAMES + HIST_NAMES)
    why = []
    if not case["unknown"]:
        if not all(n in known for n in list(case["bins"]) + list(case["sigmas"])):
            why.append("unknown counter")
        if any((len(b["bins"]) == 1) != single(n) for n, b in case["bins"].items()):
            why.append("number of bins")
    if not all(bins_ok(b["bins"]) for b in case["bins"].values()):
        why.append("bin bounds")
    if not all(s["sigma"] >= 0 for s in case["sigmas"].values()):
        why.append("sigma")
    if set(case["bins"]) != set(case["sigmas"]):
        why.append("different counters")
    got = w.call("check_config", case)
    expect_eq(got, not why, "counter configuration accepted (%s)" % (why or "valid"))
    return True, why or ["valid"]


def run_combine(case, w):
    got = w.call("combine", case)
    want = {n: {"sigma": case["sigmas"][n]["sigma"], "bins": case["bins"][n]["bins"]}
            for n in case["bins"] if n in case["sigmas"]}
    expect_eq(got, want, "combined counters")
    return len(want) > 0, []


weight = st.one_of(st.sampled_from([0, 0.0, 1, 1.0, 0.5, 2 ** 69, 2 ** 69 - 1, 2 ** 70, 2 ** 60]), st.floats(0, 100))
bad_weight = st.sampled_from([-1, -0.25, NAN, INF, -INF])
names = st.sampled_from(["A" * 40, "B" * 40, "C" * 40, "D" * 40, "*"])


@st.composite
def weight_configs(draw):
    ws = draw(st.dictionaries(names, weight, max_size=4))
    if ws and draw(st.integers(0, 4)) == 0:
        ws[draw(st.sampled_from(sorted(ws)))] = draw(bad_weight)
    return dict(weights=ws, threshold=draw(st.one_of(st.integers(-2, 6), st.integers(0, 2 ** 21), st.just(10 ** 6),
                                                     st.just(10 ** 6 + 1))),
                ask=draw(st.lists(st.one_of(names, st.just("E" * 40), st.none()), max_size=3)))


@st.composite
def near_limit(draw):
    """sound weights, whose largest possible sum lies around the limit"""
    ns = draw(st.lists(names, min_size=1, max_size=4, unique=True))
    thr = draw(st.integers(1, 6))
    parts = [draw(st.integers(0, 100)) for _ in ns]
    total = sum(p * (thr if n == "*" else 1) for n, p in zip(ns, parts)) or 1
    goal = draw(st.one_of(st.integers(2 ** 67, 2 ** 71), st.integers(-3, 3).map(lambda d: 2 ** 69 - 1 + d)))
    ws = {n: p * goal // total for n, p in zip(ns, parts)}
    if draw(st.integers(0, 3)) == 0:
        ws = {n: float(v) for n, v in ws.items()}
    return dict(weights=ws, threshold=thr, ask=[])


def run_weights(case, w):
    ws, thr = case["weights"], case["threshold"]
    top = 2 ** 69 - 1
    thr_ok = 1 <= thr <= 10 ** 6
    each = all(0 <= v <= top for v in ws.values())
    enough = len(ws) >= thr or "*" in ws
    total = sum(ws.values())
    if "*" in ws:
        total += (thr - 1) * ws["*"]
    out = w.call("check_weights", case)
    want = thr_ok and each and enough and total <= top
    if each and abs(total - top) <= 2 ** 20:
        # at the limit, rounding decides: only exact integers are compared
        if not all(isinstance(v, int) for v in ws.values()):
            want = out["config"]
    expect_eq(out["threshold"], thr_ok, "threshold %s accepted" % thr)
    expect_eq(out["config"], want, "noise weights accepted")
    expect_eq(out["default"], "*" in ws, "there is a default weight")
    for f, v, has in out["per"]:
        exp = ws[f] if f is not None and f in ws else ws.get("*")
        expect_eq([v, has], [exp, exp is not None], "weight of %s" % f)
    return True, ["accepted" if want else "refused", "threshold" if not thr_ok else "each" if not each else
                  "too few" if not enough else "sum" if total > top else "fine"]


CHECK = Check("C05", [
    Test("config", configs(), run, 2500, 40000, shards=3),
    Test("weights", weight_configs(), run_weights, 1200, 20000),
    Test("limit", near_limit(), run_weights, 600, 10000),
    Test("combine", configs(), run_combine, 300, 3000),
], ["ops_counter"],
    "Counter configurations start valid (known names, right number of bins, shuffled layouts) and get at most a few "
    "damages (inverted, equal, overlapping, nested, duplicate, NaN bounds, wrong numbers of bins, unknown names, "
    "negative or NaN sigmas, differing counter sets); noise weight configurations mix fingerprints, the default, "
    "limits and thresholds, and sums close to the limit. The oracle is a direct pairwise model. Every case is non-trivial.",
    ["infinite sigmas are outside the domain: the documentation does not say whether they are allowed"])
