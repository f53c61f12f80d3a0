from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require
from gens import apply_incs, counter_set, increments, moduli, signed_mod


@st.composite
def rounds(draw, bad=False):
    counters = draw(counter_set())
    nsk = draw(st.integers(1, 4))
    ndc = draw(st.integers(1, 4))
    dcs = []
    noise = draw(st.booleans())
    for _ in range(ndc):
        steps = [["inc"] + i for i in draw(increments(counters))]
        for s in (["shares"], ["noise", draw(st.sampled_from([0, 0.5, 1, 3]))]):
            if s[0] == "shares" or noise:
                steps.insert(draw(st.integers(0, len(steps))), s)
        dcs.append(steps)
    return dict(counters=counters, modulus=draw(moduli), sks=["sk%d" % i for i in range(nsk)], dcs=dcs, noise=noise,
                sk_order=draw(st.lists(st.integers(0, 5), max_size=4)),
                ts_order=draw(st.lists(st.integers(0, 8), max_size=8)), entropy=draw(st.integers(0, 2 ** 20)),
                bad=draw(st.tuples(st.integers(0, 20), st.sampled_from(
                    ["drop_counter", "drop_bin", "dup_bin", "no_count", "extra_item", "no_bins"]),
                    st.integers(0, 20))) if bad else None)


def run(case, w):
    out = w.call("full_round", case, seed=case["entropy"])
    q = case["modulus"]
    require(out["shares_ok"], "a genuine share was refused")
    total = None
    for steps in case["dcs"]:
        total = apply_incs(case["counters"], [s[1:] for s in steps if s[0] == "inc"], total)
    for rep in out["dc"] + out["sk"]:
        expect_eq(sorted(rep), sorted(case["counters"]), "counters in a report")
        for k in rep:
            expect_eq([b[:2] for b in rep[k]["bins"]], case["counters"][k]["bins"], "bin bounds in a report")
            for b in rep[k]["bins"]:
                require(len(b) == 3 and isinstance(b[2], int) and 0 <= b[2] < q,
                        "reported value %s outside [0, %s)", b, q)
    if case["bad"]:
        require(not out["accepted"], "a report with %s was combined", case["bad"][1])
        return True, [case["bad"][1]]
    require(out["accepted"], "the genuine reports were refused")
    want = {k: [signed_mod(x, q) for x in v] for k, v in total.items()}
    got = {k: [b[2] for b in out["tally"][k]["bins"]] for k in out["tally"]}
    expect_eq(got, want, "tally (modulus %s)" % q)
    nz = any(x for v in want.values() for x in v)
    neg = any(x < 0 for v in want.values() for x in v)
    wrapped = any(not -q // 2 <= x < (q + 1) // 2 for v in total.values() for x in v)
    lab = ["dcs=%d" % len(case["dcs"]), "sks=%d" % len(case["sks"])]
    lab += ["negative total"] * neg + ["wrapped total"] * wrapped + ["odd modulus"] * (q % 2)
    return nz, lab


def run_signed(case, w):
    x, q = case
    expect_eq(w.call("signed", [x % q, q]), signed_mod(x, q), "signed value of %d mod %d" % (x, q))
    return x % q != 0, ["negative" if signed_mod(x, q) < 0 else "positive"]


def run_limits(case, w):
    out = w.call("limits", None)
    q = out["modulus"]
    require(q > 2 ** 64, "modulus %s is not above 64 bits", q)
    expect_eq([out["min_b"], out["max_b"]], [0, q - 1], "limits of blinded values")
    expect_eq([out["min_t"], out["max_t"]], [-(q // 2), (q + 1) // 2 - 1], "limits of tallied values")


edge = st.one_of(moduli.flatmap(lambda q: st.tuples(
    st.one_of(st.integers(-3, 3), st.integers(-3, 3).map(lambda d: q // 2 + d), st.integers(0, q)), st.just(q))))

CHECK = Check("C01", [
    Test("round", rounds(), run, 900, 12000, shards=4),
    Test("mismatch", rounds(bad=True), run, 250, 3000),
    Test("signed", edge, run_signed, 1500, 20000),
    Test("limits", st.just(0), run_limits, 1, 1),
], ["ops_counter"],
    "A case is a whole aggregation: 1-4 collectors, 1-4 keepers, 1-4 counters with random bin layouts, random "
    "increments interleaved with share and noise steps (sigma 0), random import and tally order, random modulus; "
    "non-trivial when some expected tally is not zero (round), a report is damaged (mismatch) or the value is not 0 "
    "(signed). The oracle adds plain integers.",
    ["bin bounds of mismatched reports are not compared by the code (only names and bin numbers), as documented",
     "single-bin counters use the bin [0, inf], as every configuration in the repository does"])
