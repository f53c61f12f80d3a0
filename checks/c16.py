from hypothesis import strategies as st
from vp import Check, Test, expect_eq
import evgen
import evmodel
from evmodel import Model, EVENTS, layouts, totals

FAM = evmodel.family("PRIVCOUNT_STREAM_ENDED")


@st.composite
def cases(draw):
    lists = draw(evgen.domain_lists)
    ev = draw(st.lists(evgen.stream(lists), min_size=1, max_size=6))
    for e in ev:
        # busy and bare streams
        k = draw(st.integers(0, 11))
        if k >= 7 and lists:
            e["port"], e["num"] = draw(st.sampled_from([80, 443])), 1
            e["host"] = draw(evgen.hosts(lists))
        if k == 0:
            e["read"], e["write"] = 0, 0
        elif k == 1:
            e["read"] = draw(st.sampled_from([-1, 0]))
        elif k == 2:
            e["write"] = draw(st.sampled_from([-1, 0]))
    return dict(lists=lists, events=ev, mode=draw(st.sampled_from(["all", "all", "some", "exact", "suffix", "neither"])),
                seed=draw(st.integers(0, 10 ** 6)))


def collected(case):
    import random
    rnd = random.Random(case["seed"])
    m = case["mode"]
    names = FAM
    if m == "some":
        names = [n for n in FAM if rnd.random() < 0.2]
    elif m == "exact":
        names = [n for n in FAM if "SuffixMatch" not in n and rnd.random() < 0.7]
    elif m == "suffix":
        names = [n for n in FAM if "ExactMatch" not in n and rnd.random() < 0.7]
    elif m == "neither":
        names = [n for n in FAM if "Match" not in n]
    return names or FAM[:1]


def run(case, w):
    conf = dict(domain_lists=case["lists"])
    m = Model(FAM, conf)
    for e in case["events"]:
        m.stream(e)
    names = collected(case)
    counters = layouts(names, m.out, case["seed"])
    r = w.call("agg", dict(conf, counters=counters, sks=[], sparse=True,
                           steps=[["event", evgen.stream_items(e)] for e in case["events"]]))
    for x in r["results"]:
        expect_eq(x, ["ok", True], "handling of the event")
    want = totals(counters, m.out)
    expect_eq(r["counts"], want, diff(r["counts"], want))
    matched = any(n.startswith(("ExitDomainExactMatch", "ExitDomainSuffixMatch")) and b is not None and b < 100
                  and n.endswith("StreamCountList") for n, b, _ in m.out)
    return bool(m.out), ["mode " + case["mode"]] + ["in a domain list"] * matched + \
        ["nothing transferred"] * (not m.out) + ["several streams"] * (len(case["events"]) > 1)


def diff(got, want):
    d = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))[:6]
    return "counts differ in %s" % ", ".join("%s %s/%s" % (k, got.get(k), want.get(k)) for k in d)


CHECK = Check("C16", [Test("streams", cases(), run, 1200, 20000, shards=3)], ["ops_agg"],
    "A case is a sequence of STREAM_ENDED events (ports on and next to every class boundary, host names in and near the "
    "domain lists, IPv4/IPv6/no address, first and later streams, empty and negative byte counts), up to three disjoint "
    "domain lists, and a set of collected counters. The counts of all collected counters must equal those of the "
    "reference model, with bins that separate the expected value from its neighbours. Non-trivial when something is counted.",
    ["event fields are well formed, as Tor sends them", "domain lists are disjoint, as the tally server makes them"])
