"""generators shared by the checks"""
from hypothesis import strategies as st

Q = 2 ** 70
COUNT_NAMES = ["ZeroCount", "ExitStreamCount", "ExitCircuitCount", "EntryConnectionCount",
               "Rend2ClientCircuitCount", "HSDir2StoreCount", "EntryClientIPCount", "ExitStreamByteCount",
               "MidCircuitCount", "HSDir3FetchCount"]
HIST_NAMES = ["ExitStreamByteHistogram", "ExitStreamByteRatio", "ExitStreamLifeTime", "ExitCircuitStreamHistogram",
              "EntryConnectionLifeTime", "EntryConnectionByteHistogram", "ExitDomainExactMatchWebInitialStreamCountList",
              "HSDir2StoreDescriptorByteHistogram", "EntryClientIPActiveCircuitHistogram", "MidActiveCircuitCellRatio",
              "HSDir2StoreUploadDelayTime", "HSDir2StoreRejectCachedNoClientAuthUploadDelayTime"]
INF = float("inf")

nice = st.one_of(st.integers(-1000, 1000), st.integers(-10 ** 12, 10 ** 12),
                 st.integers(-8000, 8000).map(lambda i: i / 8.0))
moduli = st.one_of(st.just(Q), st.integers(1, 40), st.integers(1, 2 ** 80),
                   st.integers(1, 80).flatmap(lambda b: st.sampled_from([2 ** b - 1, 2 ** b, 2 ** b + 1])))


@st.composite
def layout(draw, min_bins=2, max_bins=6, ends=True):
    """ordered non-overlapping bins, with and without gaps and infinite ends"""
    n = draw(st.integers(min_bins, max_bins))
    pts = sorted(draw(st.lists(nice, min_size=2 * n, max_size=2 * n, unique_by=float)), key=float)
    if ends and draw(st.booleans()):
        pts[0] = -INF
    if ends and draw(st.booleans()):
        pts[-1] = INF
    bins, i = [], 0
    lo = pts[0]
    for k in range(n):
        hi = pts[2 * k + 1]
        bins.append([lo, hi])
        lo = hi if draw(st.booleans()) or k == n - 1 else pts[2 * k + 2]
    return bins


@st.composite
def counter_set(draw, max_counters=4, max_bins=6, sigma=st.just(0.0)):
    out = {}
    for name in draw(st.lists(st.sampled_from(COUNT_NAMES + HIST_NAMES), min_size=1, max_size=max_counters, unique=True)):
        if name.endswith("Count"):
            out[name] = {"bins": [[0.0, INF]], "sigma": draw(sigma)}
        else:
            out[name] = {"bins": draw(layout(max_bins=max_bins)), "sigma": draw(sigma)}
    return out


def value_for(bins):
    """a bin value: edges of the layout, near them, infinities, anything"""
    edges = [e for b in bins for e in b if abs(e) != INF]
    opts = [nice, st.sampled_from([INF, -INF, 0, 0.0, -0.0])]
    if edges:
        opts.append(st.sampled_from(edges))
        opts.append(st.tuples(st.sampled_from(edges), st.sampled_from([-1, 1, -0.125, 0.125, -1e-9, 1e-9])).map(sum))
    return st.one_of(opts)


@st.composite
def increments(draw, counters, max_size=10, amounts=None, unknown=True):
    amounts = amounts or st.one_of(st.integers(0, 5), st.integers(0, 2 ** 40), st.integers(-5, -1))
    names = sorted(counters)
    if unknown:
        names = names + ["ExitActiveCircuitCount", "NoSuchCounter"]
    out = []
    for _ in range(draw(st.integers(0, max_size))):
        n = draw(st.sampled_from(names))
        if n in counters and len(counters[n]["bins"]) > 1:
            b = draw(value_for(counters[n]["bins"]))
        else:
            b = None
        out.append([n, b, draw(amounts)])
    return out


def in_bin(b, v):
    return b[0] <= v and (v < b[1] or b[1] == INF)


def apply_incs(counters, incs, total=None):
    """the reference: plain dictionaries of integers"""
    total = total if total is not None else {k: [0] * len(c["bins"]) for k, c in counters.items()}
    for n, b, i in incs:
        if n not in counters:
            continue
        for j, bn in enumerate(counters[n]["bins"]):
            if b is None or in_bin(bn, float(b)):
                total[n][j] += i
    return total


def signed_mod(x, q):
    x %= q
    return x - q if x >= (q + 1) // 2 else x
