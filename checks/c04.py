from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require
from gens import INF, apply_incs, counter_set, in_bin, increments, nice, signed_mod, value_for


@st.composite
def cases(draw):
    counters = draw(counter_set(max_bins=8))
    for k in counters:
        if len(counters[k]["bins"]) > 1 and draw(st.integers(0, 5)) == 0:
            # any layout, overlaps and order included
            counters[k]["bins"] = [sorted(b, key=float) for b in draw(st.lists(
                st.lists(st.one_of(nice, st.sampled_from([INF, -INF])), min_size=2, max_size=2), min_size=2, max_size=6))]
    return dict(counters=counters, modulus=draw(st.sampled_from([2 ** 70, 2 ** 31 - 1, 1000003])),
                incs=draw(increments(counters, max_size=16)))


@st.composite
def misuse(draw):
    case = draw(cases())
    k = draw(st.sampled_from(sorted(case["counters"])))
    bins = case["counters"][k]["bins"]
    kind = draw(st.sampled_from(["wrong", "fraction"]))
    b = draw(value_for(bins)) if (len(bins) == 1) == (kind == "wrong") else None
    inc = draw(st.integers(1, 9)) if kind == "wrong" else draw(st.sampled_from([0.5, 1.25, -3.75]))
    case["bad_at"] = draw(st.integers(0, len(case["incs"])))
    case["kind"] = kind
    case["incs"].insert(case["bad_at"], [k, b, inc])
    return case


def run(case, w):
    out = w.call("binning", case)
    q = case["modulus"]
    for i, t in enumerate(out["trace"]):
        if i == case.get("bad_at"):
            continue
        expect_eq(t[0], "ok", "increment %s" % case["incs"][i])
    good = [x for i, x in enumerate(case["incs"]) if i != case.get("bad_at")]
    if "bad_at" in case:
        require(out["trace"][case["bad_at"]][0] == "exc", "increment %s was accepted", case["incs"][case["bad_at"]])
    want = {k: [signed_mod(x, q) for x in v] for k, v in apply_incs(case["counters"], good).items()}
    expect_eq(out["tally"], want, "counts after increments")
    hist = [i for i in good if i[1] is not None]
    lab = ["edge value"] * any(i[1] in [e for b in case["counters"][i[0]]["bins"] for e in b] for i in hist)
    lab += ["infinite value"] * any(abs(i[1]) == INF for i in hist)
    lab += ["in no bin"] * any(not any(in_bin(b, i[1]) for b in case["counters"][i[0]]["bins"]) for i in hist)
    lab += ["uncollected counter"] * any(i[0] not in case["counters"] for i in good)
    return bool(good) and any(any(v) for v in want.values()), lab + [case.get("kind", "valid")]


CHECK = Check("C04", [
    Test("increments", cases(), run, 2500, 40000, shards=4),
    Test("misuse", misuse(), run, 600, 6000),
], ["ops_counter"],
    "A case is a counter set with random layouts (ordered, gapped, overlapping, infinite ends) and up to 16 "
    "increments at bin edges, next to edges, at infinities and anywhere; the oracle is a list of integers per counter. "
    "Non-trivial when some bin ends up non-zero.",
    ["an increment whose bin kind does not suit the counter, or whose amount is fractional, must be refused (the code asserts)"])
