"""C22: noise allocation"""
import math
import re
from hypothesis import strategies as st
from vp import Check, Test, require, expect_eq

# counters of events that are sampled by circuit, and counters of other events
CIRCUIT = ["ExitCircuitLifeTime", "EntryCircuitInboundCellHistogram", "ExitStreamByteCount", "ExitStreamCount"]
OTHER = ["EntryConnectionCount", "HSDir2StoreCount", "EntryConnectionByteHistogram", "HSDir3StoreCount", "EntryConnectionLifeTime"]
ZERO = "ZeroCount"


def tail(s, eps, std):
    """probability that the privacy loss of the Gaussian mechanism exceeds eps"""
    return 0.5 * math.erfc((eps * std / s - s / (2.0 * std)) / math.sqrt(2))


def min_eps(s, std, delta):
    lo, hi = 0.0, 1.0
    if tail(s, 0.0, std) <= delta:
        return 0.0
    while tail(s, hi, std) > delta:
        hi *= 2
    for _ in range(200):
        mid = (lo + hi) / 2
        if tail(s, mid, std) <= delta:
            hi = mid
        else:
            lo = mid
    return hi


def close(a, b, rel=1e-6, ab=0.0):
    return abs(a - b) <= max(rel * max(abs(a), abs(b)), ab)


def logf(lo, hi):
    return st.floats(math.log(lo), math.log(hi)).map(math.exp)


delta = st.one_of(logf(1e-8, 1e-2), st.sampled_from([1e-3, 1e-6, 1e-8]))
eps = st.one_of(logf(0.01, 1.5), st.sampled_from([0.3, 1.0]))
sens = st.one_of(logf(1, 1e6), st.sampled_from([1, 2, 10, 6 * 1024]))
value = st.one_of(logf(1, 1e9), st.sampled_from([1, 10.0, 1e6]))


# -- the parts

@st.composite
def searches(draw):
    out = []
    for _ in range(draw(st.integers(1, 20))):
        lo = draw(st.floats(-1e6, 1e6))
        hi = lo + draw(st.one_of(logf(1e-3, 1e6), st.sampled_from([0.0, -1.0])))
        step = draw(st.one_of(st.floats(lo, max(hi, lo)), st.sampled_from([lo, hi, lo - 1, hi + 1])))
        out.append([lo, hi, step, draw(logf(1e-9, 1)), draw(st.booleans())])
    return out


def run_search(case, w):
    hard = 0
    for (lo, hi, step, tol, want), r in zip(case, w.call("search", case)):
        if hi < lo or (lo >= step and not want) or (lo < step and hi < step and want):
            require(r == ["exc", "ValueError"], "search of [%r, %r] for a step at %r: %r", lo, hi, step, r)
        elif lo >= step:
            expect_eq(r, ["ok", lo], "everything satisfies")
        elif hi < step:
            expect_eq(r, ["ok", hi], "nothing satisfies")
        else:
            require(r[0] == "ok", "search of [%r, %r] for a step at %r: %r", lo, hi, step, r)
            x = r[1]
            # values are told apart by their text, 12 digits
            slack = tol + 1e-10 * max(abs(lo), abs(hi), 1)
            if want:
                require(step <= x <= step + slack, "smallest x with x >= %r found in [%r, %r]: %r (tolerance %r)", step, lo, hi, x, tol)
            else:
                require(step - slack <= x <= step + 1e-10 * max(abs(lo), abs(hi), 1),
                        "largest x with x < %r found in [%r, %r]: %r (tolerance %r)", step, lo, hi, x, tol)
            hard += 1
    return hard > 0


point = st.tuples(sens, eps, delta, st.floats(-3, 3)).map(
    lambda t: [t[0], t[1], t[2], t[0] / t[1] * math.sqrt(2 * math.log(1 / t[2])) * math.exp(t[3])])


def run_parts(case, w):
    both = set()
    for (s, e, d, std), (ok, rs, re) in zip(case, w.call("parts", case)):
        t = tail(s, e, std)
        if not close(t, d, 1e-5):
            expect_eq(ok, t <= d, "sensitivity %r with noise %r is (%r, %r)-private" % (s, std, e, d))
        both.add(t <= d)
        require(rs[0] == "ok", "standard deviation for (%r, %r), sensitivity %r: %r", e, d, s, rs)
        # within the tolerance, and the digits compared
        tol = 2e-6 + 1e-10 * rs[1]
        require(tail(s, e, rs[1] * (1 + 1e-7)) <= d * (1 + 1e-5), "standard deviation %r is too small for (%r, %r), sensitivity %r", rs[1], e, d, s)
        if rs[1] > 2 * tol:
            require(tail(s, e, (rs[1] - tol) * (1 - 1e-7)) > d * (1 - 1e-5), "standard deviation %r is not the smallest for (%r, %r), sensitivity %r", rs[1], e, d, s)
        if re[0] == "exc" and min_eps(s, std, d) > 2:
            continue   # refused: so little noise that the search gives up
        require(re[0] == "ok", "epsilon for noise %r, sensitivity %r: %r", std, s, re)
        want = min_eps(s, std, d)
        require(close(re[1], want, 1e-6, 1e-9), "epsilon for noise %r, sensitivity %r, delta %r: %r, expected %r", std, s, d, re[1], want)
    return len(both) > 1


# -- the allocation

@st.composite
def allocations(draw, names=CIRCUIT + OTHER):
    chosen = draw(st.lists(st.sampled_from(names), min_size=1, max_size=7, unique=True))
    if draw(st.integers(0, 3)) == 0:
        s0, v0 = draw(sens), draw(value)
        c = {n: dict(sensitivity=s0, estimated_value=v0) for n in chosen}
    else:
        c = {n: dict(sensitivity=draw(sens), estimated_value=draw(value)) for n in chosen}
    if draw(st.booleans()):
        c[ZERO] = dict(sensitivity=draw(st.sampled_from([0, 0.0])), estimated_value=0.0)
    a = dict(epsilon=draw(eps), delta=draw(delta), excess=draw(st.sampled_from([1, 1, 3, 10, 2.5])), counters=c,
             rate=draw(st.sampled_from([1.0, 1.0, 0.5, 0.01])), tol={}, reject=None)
    if draw(st.integers(0, 4)) == 0:
        a["tol"] = dict(sigma_ratio_tolerance=draw(st.sampled_from([1e-8, 1e-3])))
    if len(chosen) > 1 and draw(st.integers(0, 3)) == 0:
        a["reject"] = draw(st.sampled_from(chosen))
    return a


def judge(a, names, priv, res, what):
    """oracle: the result of an allocation for the counters in names"""
    expect_eq(sorted(res), sorted(set(names) | {ZERO}), what + " covers the counters")
    expect_eq(float(res[ZERO]["sigma"]), 0.0, what + ": noise of the sanity check counter")
    d = a["delta"] / len(names)
    ratio = priv["sigma_ratio"]
    require(ratio > 0, "%s: noise ratio %r", what, ratio)
    total = 0.0
    vs = {}
    for n in names:
        c = a["counters"][n]
        v = c["estimated_value"] * (a["rate"] if n in CIRCUIT else 1.0)
        vs[n] = v
        sigma = res[n]["sigma"]
        require(sigma > 0, "%s: %s has sigma %r", what, n, sigma)
        require(close(sigma, ratio * v / math.sqrt(a["excess"]), 1e-9), "%s: %s has sigma %r, for ratio %r and value %r", what, n, sigma, ratio, v)
        require(close(res[n]["expected_noise_ratio"], ratio, 1e-9), "%s: %s has noise ratio %r, others %r", what, n, res[n]["expected_noise_ratio"], ratio)
        e = min_eps(c["sensitivity"], sigma, d)
        require(close(res[n]["epsilon"], e, 1e-5, 1e-9), "%s: %s reports epsilon %r and consumes %r", what, n, res[n]["epsilon"], e)
        total += e
    require(total <= a["epsilon"] * (1 + 1e-6) + 1e-9, "%s: consumes epsilon %r of %r", what, total, a["epsilon"])
    # and no more noise than needed
    tol = a["tol"].get("sigma_ratio_tolerance", 1e-6) * 1.01 + 1e-10 * ratio
    if ratio > 2 * tol:
        # the bound of the search is itself found within the sigma tolerance
        less = ratio - tol - 1e-6 * math.sqrt(a["excess"]) / min(vs.values())
        if less > 0:
            t = sum(min_eps(a["counters"][n]["sensitivity"], less * vs[n] / math.sqrt(a["excess"]), d) for n in names)
            require(t > a["epsilon"] * (1 - 1e-5), "%s: noise ratio %r is not the smallest that fits (epsilon %r of %r at %r)",
                    what, ratio, t, a["epsilon"], less)


def run_alloc(a, w):
    r = w.call("allocate", a)
    names = sorted(set(a["counters"]) - {ZERO})
    require(r[0] == "ok", "allocation failed: %r", r)
    judge(a, names, r[1], r[2], "allocation")
    o, s = w.call("stats", dict(a, counters={n: a["counters"][n] for n in names}))
    require(o[0] == "ok" and s[0] == "ok", "allocation failed: %r %r", o, s)
    if a["rate"] == 1.0 and not a["tol"]:
        for n in names:
            require(close(o[1][1][n], r[2][n]["sigma"], 1e-9) and close(s[1]["counters"][n]["sigma"], r[2][n]["sigma"], 1e-9),
                    "the entry points disagree about the sigma of %s: %r, %r, %r", n, o[1][1][n], s[1]["counters"][n]["sigma"], r[2][n]["sigma"])
    return len(names) > 1, ["sanity"] * (ZERO in a["counters"]) + ["sampled"] * (a["rate"] < 1)


def run_conf(a, w):
    out = w.call("configure", a)
    names = sorted(set(a["counters"]) - {ZERO, a["reject"]})
    for i, o in enumerate(out):
        what = "tally server with %s" % ["a noise file", "the allocation it wrote", "everything in one file"][i]
        require(o[0] == "ok", "%s: refused (%r)", what, o[1])
        judge(a, names, o[2]["privacy"], o[1], what)
        judge(a, names, o[2]["privacy"], o[2]["counters"], what + " (file)")
        expect_eq(o[3], sorted(names + [ZERO]), what + ": counters collected")
    expect_eq(len(out), 3, "configurations loaded")
    for n in names:
        for o in out[1:]:
            require(close(out[0][1][n]["sigma"], o[1][n]["sigma"], 1e-9), "sigma of %s after reloading: %r, was %r", n, o[1][n]["sigma"], out[0][1][n]["sigma"])
    return len(names) > 1, ["sanity"] * (ZERO in a["counters"]) + ["rejected"] * bool(a["reject"])


# -- what is printed for operators

def number(text, after):
    m = re.search(re.escape(after) + r" *([^\s]+)$", text, re.M)
    require(m, "%r is not printed in %r", after, text[:300])
    return float(m.group(1))


def judge_print(text, eps, sigmas, ratio, what):
    """the printed epsilons (largest first), noise ratio and sigmas"""
    head, mid, rest = text.partition("Ratio of sigma")
    lines = [l.rsplit(": ", 1) for l in head.splitlines() if ": " in l]
    expect_eq(sorted(l[0] for l in lines), sorted(eps), what + ": counters with an epsilon")
    for n, v in lines:
        require(close(float(v), eps[n], 1e-9), "%s: epsilon of %s is printed as %s, it is %r", what, n, v, eps[n])
    vals = [float(v) for _, v in lines]
    expect_eq(vals, sorted(vals, reverse=True), what + ": order of the epsilons")
    require(close(number(mid + rest, "Ratio of sigma value to expected value:"), ratio, 1e-9), "%s: noise ratio %r is printed as %r", what, ratio, rest[:100])
    got = dict(re.findall(r"^    (\S+):\n        sigma: *(\S+)$", rest, re.M))
    expect_eq(sorted(got), sorted(set(sigmas) | {ZERO}), what + ": counters with a sigma")
    for n, v in got.items():
        require(abs(float(v) - (sigmas[n] if n != ZERO else 0.0)) <= 1e-6 * max(1.0, float(v)), "%s: sigma of %s is printed as %s, it is %r", what, n, v, sigmas.get(n))


def run_report(a, w):
    names = sorted(set(a["counters"]) - {ZERO})
    r = w.call("report", dict(a, counters={n: a["counters"][n] for n in names}))
    expect_eq([r["print_"], r["compare"]], ["ok", "ok"], "printing and comparing an allocation")
    judge_print(r["text"], r["eps"], r["sigmas"], r["ratio"], "report")
    return len(names) > 1


def base_of(name):
    """the counter of the things a histogram is about"""
    m = re.match(r"^(\w+TrafficModel\w+?)(_START)?_<", name)
    if m:
        return m.group(1) if not m.group(2) else "ExitStreamTrafficModelStreamCount"
    m = re.match(r"^ExitCircuit(OtherPort|Web|P2P|Interactive|)(StreamHistogram|InterStreamCreationTime|LifeTime)$", name)
    if m:
        return "Exit%s%sCount" % (m.group(1), "Stream" if m.group(2).startswith("Inter") else "Circuit")
    m = re.match(r"^Exit(OtherPort|Web|P2P|Interactive|)Stream(Inbound|Outbound)?Byte(Histogram|Ratio)$", name)
    return m and "Exit%sStreamCount" % m.group(1)


changes = st.lists(st.one_of(st.none(), st.tuples(st.sampled_from([1, 1, 2, 0.5, 10]), st.one_of(st.just(1), logf(0.1, 10)))), min_size=1, max_size=9)
scripts = st.fixed_dictionaries(dict(script=st.sampled_from(["compute_noise.py", "compute_noise_traffic_model.py"]),
                                     change=st.one_of(st.just([(1, 1)]), changes)))


def run_script(case, w):
    r = w.call("script", case)
    require(r["how"] == "ok", "the script fails: %r", r["what"])
    for t in r["given"].values():
        for n in t:
            b = base_of(n)
            if b in t:
                require(t[n][0] >= 2 * t[b][0], "the bins of %s change by up to %r when one user of %s does, by at most %r", n, t[n][0], b, t[b][0])
    used = []
    for doc in r["docs"]:
        names = sorted(set(doc["counters"]) - {ZERO})
        t = [k for k in r["tables"] if sorted(r["tables"][k]) == names and all(
            [doc["counters"][n]["sensitivity"], doc["counters"][n]["estimated_value"]] == r["tables"][k][n] for n in names)]
        require(t, "an allocation for other counters: %s", names)
        used += t[:1] if t[0] not in used else t[1:2]
        priv = doc["privacy"]
        expect_eq(priv["excess_noise_ratio"], r["machines"], "relays the noise is shared by")
        a = dict(epsilon=priv["epsilon"], delta=priv["delta"], excess=priv["excess_noise_ratio"], rate=1.0, tol={},
                 counters={n: dict(sensitivity=r["tables"][t[0]][n][0], estimated_value=r["tables"][t[0]][n][1]) for n in names})
        judge(a, names, priv, doc["counters"], case["script"])
    expect_eq(len(r["docs"]), len(r["tables"]), "tables with an allocation")
    parts = r["text"].split("Epsilon values")[1:]
    expect_eq(len(parts), len(r["docs"]), "allocations printed")
    for doc, text in zip(r["docs"], parts):
        cs = {n: c for n, c in doc["counters"].items() if n != ZERO}
        judge_print(text.split("noise config")[0], {n: c["epsilon"] for n, c in cs.items()}, {n: c["sigma"] for n, c in cs.items()},
                    doc["privacy"]["sigma_ratio"], case["script"])
    return True, [case["script"]]


CHECK = Check("C22", [
    Test("report", allocations(), run_report, 60, 2000),
    Test("script", scripts, run_script, 8, 200),
    Test("search", searches(), run_search, 400, 6000),
    Test("parts", st.lists(point, min_size=1, max_size=6), run_parts, 500, 8000, shards=2),
    Test("allocation", allocations(), run_alloc, 250, 4000, shards=2),
    Test("configure", allocations(), run_conf, 120, 2000, shards=2)], ["ops_noise"],
    "search: intervals, steps and tolerances for the binary search. parts: sensitivities, budgets and noise around the "
    "boundary of privacy; non-trivial when both sides occur. allocation, configure: budgets with 1 to 7 counters of "
    "differing sensitivity and value, with and without the sanity check counter, circuit sampling and rejected counters, "
    "judged by the tail of the privacy loss (computed with erfc). configure has the tally server load the noise file and "
    "then the allocation it wrote. Non-trivial with more than one counter. report, script: what is printed for operators, and the "
    "two scripts with counters left out of their tables and values changed, judged the same way.",
    ["epsilon 0.01 to 1.5, delta 1e-8 to 1e-2, sensitivities 1 to 1e6, estimated values 1 to 1e9",
     "of the tables in privcount/tools/compute_noise*.py, it is judged only that a histogram has at least twice the sensitivity of its count"])
