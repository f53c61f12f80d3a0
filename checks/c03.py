import math

from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require
from gens import INF, apply_incs, counter_set, increments


def spread(zs, what):
    """zs are independent standard normal draws (checks beyond the 1e-10 quantiles)"""
    n = len(zs)
    k = 7.0
    v = 2 / (9.0 * n)
    chi = sum(z * z for z in zs)
    lo, hi = n * max(0, 1 - v - k * math.sqrt(v)) ** 3, n * (1 - v + k * math.sqrt(v)) ** 3
    require(lo < chi < hi, "%s: standard deviation %.4g of the expected one (%d values)", what, math.sqrt(chi / n), n)
    m = sum(zs) / n
    require(abs(m) < k / math.sqrt(n), "%s: mean %.4g of the expected standard deviation (%d values)", what, m, n)
    require(max(abs(z) for z in zs) < 9, "%s: value %s standard deviations out", what, max(zs, key=abs))
    if n >= 100:
        require(len(set(zs)) > n * 0.9, "%s: repeated noise values", what)
        r = sum(a * b for a, b in zip(zs, zs[1:])) / n
        require(abs(r) < 7.5 / math.sqrt(n), "%s: neighbouring noise values correlate (%.3g)", what, r)
        srt = sorted(zs)
        cdf = [0.5 * (1 + math.erf(z / math.sqrt(2))) for z in srt]
        d = max(max(abs(c - i / n), abs(c - (i + 1) / n)) for i, c in enumerate(cdf))
        require(d < math.sqrt(12.0 / n), "%s: not Gaussian (KS distance %.3g, %d values)", what, d, n)


sigmas = st.one_of(st.sampled_from([1e7, 3e7, 1e9, 0.0]), st.floats(1e7, 1e10))
weights = st.one_of(st.sampled_from([0.0, 1, 1.0, 2, 4, 0.25, 0.1]), st.floats(0.05, 20))


def big_counters(draw, sigma, total):
    names = ["ExitStreamLifeTime", "ExitStreamByteHistogram", "EntryConnectionLifeTime"]
    out = {}
    for name in names[:draw(st.integers(1, 3))]:
        n = total // 3 + draw(st.integers(0, 50))
        out[name] = {"bins": [[float(i), float(i + 1)] for i in range(n)], "sigma": draw(sigma)}
    if draw(st.booleans()):
        out["ZeroCount"] = {"bins": [[0.0, INF]], "sigma": draw(sigma)}
    return out


@st.composite
def calibrated(draw, n=600):
    counters = big_counters(draw, sigmas, n)
    steps = [["noise", draw(weights)], ["shares"]] + [["inc"] + i for i in draw(increments(counters, 4))]
    steps = draw(st.permutations(steps))
    return dict(counters=counters, modulus=2 ** 70, sks=["a", "b"][:draw(st.integers(1, 2))], steps=steps,
                entropy=draw(st.integers(0, 2 ** 20)))


def run_calibrated(case, w):
    out = w.call("noisy", case)
    require("values" in out, "noise was generated but the counts were refused")
    weight = [s[1] for s in case["steps"] if s[0] == "noise"][0]
    total = apply_incs(case["counters"], [s[1:] for s in case["steps"] if s[0] == "inc"])
    check_noise(case["counters"], out["values"], total, weight)
    return weight > 0, ["weight 0" if not weight else "weighted"]


def check_noise(counters, values, total, weight):
    alls = []
    for k, c in counters.items():
        got = [x - t for x, t in zip(values[k], total[k])]
        s = c["sigma"] * weight
        if s == 0:
            require(not any(got), "noise %s in %s although sigma*weight is 0", got[:5], k)
            continue
        zs = [g / s for g in got]
        alls += zs
        spread(zs, "noise of %s (sigma %g, weight %g)" % (k, c["sigma"], weight))
    if alls:
        spread(alls, "noise of all counters (weight %g)" % weight)


@st.composite
def required(draw):
    counters = draw(counter_set())
    steps = [["shares"]] + [["inc"] + i for i in draw(increments(counters, 4))]
    if draw(st.booleans()):
        steps.append(["noise", draw(weights)])
    return dict(counters=counters, modulus=2 ** 70, sks=["a"], steps=draw(st.permutations(steps)),
                entropy=draw(st.integers(0, 2 ** 20)))


def run_required(case, w):
    out = w.call("noisy", case)
    noise = any(s[0] == "noise" for s in case["steps"])
    require(("values" in out) == noise, "counts %s noise were %s", "with" if noise else "without",
            "reported" if "values" in out else "refused")
    return not noise, ["noise" if noise else "no noise"]


FPS = ["A" * 40, "B" * 40, "0123456789ABCDEF" * 2 + "01234567", "F" * 40]
BAD_FPS = ["", "A" * 39, "A" * 41, "G" + "A" * 39, "A" * 20]


@st.composite
def relay(draw):
    """a relay with a fingerprint in a round with per-relay weights"""
    counters = big_counters(draw, st.sampled_from([1e6, 1e8]), draw(st.sampled_from([3, 420])))
    nw = draw(st.dictionaries(st.sampled_from(["*"] + FPS[:3]), weights, min_size=1, max_size=4))
    steps = []
    for _ in range(draw(st.integers(0, 4))):
        steps.append(["set", "fingerprint", draw(st.sampled_from(FPS + BAD_FPS + [" %s " % FPS[0]]))])
    return dict(counters=counters, noise_weight=nw, steps=steps, valid=draw(st.sampled_from([True, True, True, False])),
                sks=["a", "b"][:draw(st.integers(1, 2))], entropy=draw(st.integers(0, 2 ** 20)))


def run_relay(case, w):
    out = w.call("agg", case, seed=case["entropy"])
    fp = None
    for s, r in zip(case["steps"], out["results"]):
        ok = len(s[2].strip()) == 40 and all(c in "0123456789abcdefABCDEF" for c in s[2].strip())
        expect_eq(r, ["ok", ok], "fingerprint %r accepted" % s[2])
        if ok and fp is None:
            fp = s[2].strip()
    expect_eq(out["context"].get("fingerprint"), fp, "fingerprint kept")
    weight = case["noise_weight"].get(fp, case["noise_weight"].get("*"))
    require(out["second"], "counts could be taken twice")
    require(not out["after"], "events accepted after the counts were taken")
    if weight is None or not case["valid"]:
        expect_eq(out["counts"], None, "counts of a relay without a noise weight, or cancelled")
        return True, ["no weight" if weight is None else "cancelled"]
    require(out["counts"] is not None, "no counts although the relay has noise weight %s", weight)
    check_noise(case["counters"], out["counts"], {k: [0] * len(c["bins"]) for k, c in case["counters"].items()}, weight)
    if fp is not None:
        expect_eq(out["context"].get("noise_weight_value"), weight, "noise weight used")
    return weight > 0, ["default weight" if fp not in case["noise_weight"] else "own weight",
                        "no fingerprint" if fp is None else "fingerprint"]


CHECK = Check("C03", [
    Test("calibrated", calibrated(), run_calibrated, 90, 1500, shards=2),
    Test("required", required(), run_required, 300, 3000),
    Test("relay", relay(), run_relay, 200, 2500, shards=2, jy=["ops_agg"]),
], ["ops_counter"],
    "calibrated: counter sets with about 600 bins, sigma and weight drawn; noise (the report less blinding and "
    "increments) is tested for zero mean, standard deviation sigma*weight, Gaussian shape and independence beyond the "
    "1e-10 quantiles; relay: the same through a collector whose relay reports fingerprints; required: counts without "
    "noise are refused. Non-trivial: a positive weight, or a refusal.",
    ["statistical: noise deviating by less than about 20% in scale is not seen", "os.urandom is a seeded stream"])
