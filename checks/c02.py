import math

from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require
from gens import apply_incs, counter_set, increments, moduli

big = st.one_of(st.just(2 ** 70), st.integers(2 ** 60, 2 ** 80))


@st.composite
def blind_cases(draw):
    counters = draw(counter_set())
    return dict(counters=counters, modulus=draw(st.one_of(big, moduli)),
                sks=["sk%d" % i for i in range(draw(st.integers(1, 4)))],
                incs=draw(increments(counters)), entropy=draw(st.integers(0, 2 ** 20)),
                detach_first=draw(st.booleans()), late_tally=draw(st.booleans()))


def run_blind(case, w):
    """reported = sum of the shares + counts, whatever the counts are"""
    q = case["modulus"]
    a = w.call("blind", case)
    b = w.call("blind", dict(case, incs=[]))
    c = w.call("blind", dict(case, entropy=case["entropy"] + 1, incs=[]))
    expect_eq(a["shares"], b["shares"], "shares with and without counts, from the same randomness")
    expect_eq(a["uids"], {u: u for u in case["sks"]}, "keepers of the shares")
    require(a["again"], "the shares could be taken twice")
    require(a["second"], "the counts could be taken twice")
    require(not a["late"], "counts were changed after they were reported")
    require(a["unchanged"], "the reported counts changed after they were reported")
    total = apply_incs(case["counters"], case["incs"])
    for k in case["counters"]:
        n = len(case["counters"][k]["bins"])
        for o in (a, b):
            require(len(o["counts"][k]) == n and all(isinstance(x, int) and 0 <= x < q for x in o["counts"][k]),
                    "reported values %s of %s outside [0, %s)", o["counts"][k], k, q)
        for u in case["sks"]:
            require(all(isinstance(x, int) and 0 <= x < q for x in a["shares"][u][k]),
                    "share %s of %s outside [0, %s)", a["shares"][u][k], k, q)
        for j in range(n):
            s = sum(a["shares"][u][k][j] for u in case["sks"])
            expect_eq(b["counts"][k][j], s % q, "report without counts of %s bin %d" % (k, j))
            expect_eq(a["counts"][k][j], (s + total[k][j]) % q, "report with counts of %s bin %d" % (k, j))
    if q >= 2 ** 60:
        # independent draws: no two factors agree, and other randomness gives others
        fs = [x for o in (a, c) for u in case["sks"] for k in case["counters"] for x in o["shares"][u][k]]
        require(len(set(fs)) == len(fs), "two blinding factors are equal")
        require(not any(x < 2 ** 20 or x > q - 2 ** 20 for x in fs), "a blinding factor is near the ends: %s", min(fs))
    return len(case["sks"]) > 1 and any(any(v) for v in total.values()), ["sks=%d" % len(case["sks"])]


def chi2_bound(df):
    """an upper quantile of chi-squared far beyond 1e-10 (Wilson-Hilferty)"""
    z = 7.0
    return df * (1 - 2 / (9.0 * df) + z * math.sqrt(2 / (9.0 * df))) ** 3 + 5


def uniform(vals, lo, hi, what):
    """the values are in [lo, hi] and uniform there"""
    q = hi - lo + 1
    require(all(isinstance(x, int) and lo <= x <= hi for x in vals), "%s outside [%d, %d]", what, lo, hi)
    k = int(min(q, max(1, len(vals) // 30), 64))
    if k < 2:
        return
    cells = [0] * k
    for x in vals:
        cells[(x - lo) * k // q] += 1
    sizes = [((i + 1) * q + k - 1) // k - (i * q + k - 1) // k for i in range(k)]
    chi = sum((c - len(vals) * (s / q)) ** 2 / (len(vals) * (s / q)) for c, s in zip(cells, sizes))
    require(chi < chi2_bound(k - 1), "%s is not uniform in [%d, %d]: cells %s", what, lo, hi, cells)
    if q > 2 ** 16:
        # the low bits are uniform too
        low = [0] * 16
        for x in vals:
            low[(x - lo) % 16] += 1
        if q % 16 == 0 or q > 2 ** 24:
            chi = sum((c - len(vals) / 16) ** 2 / (len(vals) / 16) for c in low)
            require(chi < chi2_bound(15), "low bits of %s are not uniform: %s", what, low)


def run_sample(case, w):
    vals = w.call("sample_many", case)
    uniform(vals, 0, case["modulus"] - 1, "sample")
    # all values of a small range occur
    if case["modulus"] <= 12:
        expect_eq(sorted(set(vals)), list(range(case["modulus"])), "values sampled")
    return case["modulus"] > 1, ["small" if case["modulus"] <= 40 else "large"]


def run_range(case, w):
    vals = w.call("sample_range", case)
    uniform(vals, case["lo"], case["hi"], "sampled integer")
    if case["hi"] - case["lo"] < 12:
        expect_eq(sorted(set(vals)), list(range(case["lo"], case["hi"] + 1)), "integers sampled")
    return case["hi"] > case["lo"], []


@st.composite
def uniform_blind(draw):
    """one collector with many bins and a small modulus, or a large one"""
    n = 600
    return dict(counters={"ExitStreamLifeTime": {"bins": [[float(i), float(i + 1)] for i in range(n)], "sigma": 0.0}},
                modulus=draw(st.one_of(st.integers(2, 20), big)), sks=["a", "b", "c"][:draw(st.integers(1, 3))],
                incs=draw(st.lists(st.tuples(st.just("ExitStreamLifeTime"), st.integers(0, n - 1), st.integers(1, 9)),
                                   max_size=3)), entropy=draw(st.integers(0, 2 ** 20)), detach_first=True,
                late_tally=False)


def run_uniform_blind(case, w):
    """every keeper's factors, and what the tally server sees without one
    keeper's share, are uniform"""
    a = w.call("blind", case)
    q = case["modulus"]
    for u in case["sks"]:
        f = a["shares"][u]["ExitStreamLifeTime"]
        uniform(f, 0, q - 1, "blinding factors of %s" % u)
        seen = [(x - sum(a["shares"][v]["ExitStreamLifeTime"][j] for v in case["sks"] if v != u)) % q
                for j, x in enumerate(a["counts"]["ExitStreamLifeTime"])]
        uniform(seen, 0, q - 1, "report less the shares of all keepers but %s" % u)
        # neighbouring factors are independent
        if q <= 8:
            pairs = [(f[i] * q + f[i + 1]) for i in range(0, len(f) - 1, 2)]
            uniform(pairs, 0, q * q - 1, "pairs of factors of %s" % u)
    for i, u in enumerate(case["sks"]):
        for v in case["sks"][:i]:
            d = [(x - y) % q for x, y in zip(a["shares"][u]["ExitStreamLifeTime"], a["shares"][v]["ExitStreamLifeTime"])]
            uniform(d, 0, q - 1, "difference of the factors of %s and %s" % (u, v))
    return True, ["small" if q <= 40 else "large"]


sampling = st.fixed_dictionaries(dict(modulus=moduli, entropy=st.integers(0, 2 ** 20), n=st.just(600)))
ranges = st.tuples(st.integers(-50, 50), st.one_of(st.integers(0, 12), st.integers(0, 2 ** 70)),
                   st.integers(0, 2 ** 20)).map(lambda t: dict(lo=t[0], hi=t[0] + t[1], entropy=t[2], n=400))

CHECK = Check("C02", [
    Test("blind", blind_cases(), run_blind, 900, 12000, shards=3),
    Test("sample", sampling, run_sample, 120, 2500),
    Test("sample_range", ranges, run_range, 60, 800),
    Test("uniform", uniform_blind(), run_uniform_blind, 40, 800, shards=2),
], ["ops_counter"],
    "A case is one collector (counters, increments, 1-4 keepers, modulus) run three times on scripted operating "
    "system randomness: with counts, without, and on other randomness; reports must be the sum of the shares plus the "
    "counts. Sampling cases draw hundreds of values and test range and uniformity (chi-squared beyond the 1e-10 "
    "quantile, decided by the seed). Non-trivial: several keepers and non-zero counts, or a modulus above 1.",
    ["os.urandom is replaced by a seeded SHA-256 stream: the quality of the system's randomness itself is assumed",
     "uniformity is tested statistically"])
