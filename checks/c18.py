from hypothesis import strategies as st
from vp import Check, Test, expect_eq
import evgen
import evmodel
from c16 import diff
from evmodel import Model, layouts, totals

FAM = evmodel.family("PRIVCOUNT_CONNECTION_CLOSE")
CLIENT = ["EntryClientIPCount", "EntryActiveClientIPCount", "EntryInactiveClientIPCount",
          "EntryClientIPActiveCircuitHistogram", "EntryClientIPInactiveCircuitHistogram"]
START = 1500000000.0


@st.composite
def conns(draw):
    return dict(countries=draw(evgen.lists_of(st.sampled_from(evgen.COUNTRIES[:5]))),
                as_lists=draw(evgen.lists_of(st.sampled_from(evgen.AS_NUMBERS))), as_maps=draw(evgen.as_maps()),
                events=draw(st.lists(st.tuples(evgen.connection(), st.integers(0, 9999)), min_size=1, max_size=5)),
                all=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)))


def run_conns(case, w):
    conf = dict(country_lists=case["countries"], as_lists=case["as_lists"], as_maps=case["as_maps"])
    m = Model(FAM, conf)
    for e, _ in case["events"]:
        m.connection(e)
    counters = layouts(evmodel.pick(m.out, FAM, case["seed"], everything=case["all"]), m.out, case["seed"])
    r = w.call("agg", dict(conf, counters=counters, sks=[], sparse=True, steps=[
        ["event", evgen.fields_items("PRIVCOUNT_CONNECTION_CLOSE", e, o)] for e, o in case["events"]]))
    for x in r["results"]:
        expect_eq(x, ["ok", True], "handling of the event")
    want = totals(counters, m.out)
    expect_eq(r["counts"], want, diff(r["counts"], want))
    return True, [k for k, f in (("country match", "CountryMatchLife"), ("AS match", "ASMatchLife"), ("relay on address", "RelayOnAddressConnectionCount"))
                  if any(f in n and "No" + f not in n for n, _, _ in m.out)]


@st.composite
def clients(draw):
    period = draw(st.sampled_from([600, 60, 1.0]))
    t, steps = START, []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.integers(0, 3))
        if k == 0:
            steps.append(["advance", draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 3.5])) * period])
            t += steps[-1][1]
        else:
            e = draw(evgen.circuit())
            if draw(st.integers(0, 4)):
                e.update(IsEntryFlag=1, IsLegacyCircuitEndEventFlag=1, PreviousChannelId=1, PreviousCircuitId=1,
                         InboundExitByteCount=0, OutboundExitByteCount=0)
                if draw(st.integers(0, 5)):
                    e["PreviousNodeIPAddress"] = draw(st.sampled_from(evgen.IPV4[:3] + evgen.IPV6[:2]))
                for k2 in ("InboundSent", "InboundReceived", "OutboundSent", "OutboundReceived"):
                    if draw(st.booleans()):
                        e[k2 + "CellCount"] = draw(st.integers(0, 9))
            if draw(st.integers(0, 3)):
                # created around the rotations
                back = draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 1.25, 2.5])) * period
                e["CreatedTimestamp"] = max(0.0, t - back)
                e["EventTimestamp"] = t
            steps.append(["circuit", e])
    steps.append(["advance", draw(st.sampled_from([0.0, 1.0, 2.0, 3.0])) * period])
    return dict(period=period, steps=steps, seed=draw(st.integers(0, 10 ** 6)))


def run_clients(case, w):
    m = Model(CLIENT, {}, START)
    now, nxt = START, START + case["period"]
    steps, rotations = [], 0
    for k, x in case["steps"]:
        if k == "circuit":
            m.circuit(x)
            steps.append(["event", evgen.fields_items("PRIVCOUNT_CIRCUIT_CLOSE", x)])
        else:
            now += x
            while nxt <= now:
                m.rotate(nxt)
                nxt += case["period"]
                rotations += 1
            steps.append(["advance", x])
    incs = [i for i in m.out if i[0] in CLIENT]
    counters = layouts(CLIENT, incs, case["seed"])
    r = w.call("agg", dict(counters=counters, sks=[], sparse=True, steps=steps, rotate_period=case["period"]), now=START)
    want = totals(counters, incs)
    expect_eq(r["counts"], want, diff(r["counts"], want))
    return bool(want), ["rotations>1"] * (rotations > 1) + ["several clients"] * any(
        n == "EntryClientIPCount" and i > 1 for n, _, i in incs)


CHECK = Check("C18", [Test("connections", conns(), run_conns, 420, 12000, shards=3),
                      Test("clients", clients(), run_clients, 1200, 30000, shards=3)], ["ops_agg"],
    "connections: sequences of CONNECTION_CLOSE events (client and relay peers, shared addresses, country codes and "
    "IPv4/IPv6 addresses in and out of country and AS lists and nested prefix maps, absent optional fields) against the "
    "reference model. clients: histories of entry circuits from a few addresses, created before and after the rotations "
    "of a virtual clock, against a model of the current and previous address windows. Non-trivial when something is counted.",
    ["pyasn (not installed here) is replaced by a longest-prefix-match stand-in", "time is the reactor's virtual clock"])
