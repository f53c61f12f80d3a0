from hypothesis import strategies as st
from vp import Check, Test, expect_eq
import evgen
import evmodel
from c16 import diff
from evmodel import Model, layouts, totals

FAM = evmodel.family("PRIVCOUNT_CIRCUIT_CLOSE")
START = 1500000000.0


@st.composite
def cases(draw):
    lists = draw(evgen.lists_of(st.sampled_from([r.lower() for r in evgen.REASONS])))
    ev = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 2)) == 0:
            ev.append(["stream", draw(evgen.stream())])
        else:
            ev.append(["circuit", draw(evgen.circuit()), draw(st.integers(0, 9999))])
    # exit circuits with a life: streams on the circuit, in any order, then the close
    if draw(st.booleans()):
        c, k = draw(evgen.chan), draw(evgen.chan)
        for _ in range(draw(st.integers(1, 5))):
            s = draw(evgen.stream())
            s.update(chan=c, circ=k)
            ev.insert(draw(st.integers(0, len(ev))), ["stream", s])
        e = draw(evgen.circuit())
        for f in ("IsDirFlag", "IsHSDirFlag", "IsIntroFlag", "IsRendFlag", "IsEntryFlag"):
            e.pop(f, None)
        e.update(IsExitFlag=1, IsLegacyCircuitEndEventFlag=1, PreviousChannelId=c, PreviousCircuitId=k,
                 InboundExitByteCount=1, OutboundExitByteCount=2)
        ev.insert(draw(st.integers(0, len(ev))), ["circuit", e, 0])
        if draw(st.booleans()):
            ev.append(["circuit", e, 1])
    return dict(lists=lists, events=ev, seed=draw(st.integers(0, 10 ** 6)))


def run(case, w):
    conf = dict(circuit_failure_lists=case["lists"])
    m = Model(FAM, conf, START)
    steps = []
    for e in case["events"]:
        if e[0] == "stream":
            m.stream(e[1])
            steps.append(["event", evgen.stream_items(e[1])])
        else:
            m.circuit(e[1])
            steps.append(["event", evgen.fields_items("PRIVCOUNT_CIRCUIT_CLOSE", e[1], e[2])])
    incs = [i for i in m.out if i[0] in set(FAM)]
    counters = layouts(evmodel.pick(incs, FAM, case["seed"], limit=40), incs, case["seed"])
    r = w.call("agg", dict(conf, counters=counters, sks=[], sparse=True, steps=steps), now=START)
    for x in r["results"]:
        expect_eq(x, ["ok", True], "handling of the event")
    want = totals(counters, incs)
    expect_eq(r["counts"], want, diff(r["counts"], want))
    names = {n for n, _, _ in incs}
    labels = [p for p in ("Origin", "Entry", "Mid", "End", "SingleHop", "Exit", "Dir", "HSDir", "Intro", "Rend")
              if p + "CircuitCount" in names]
    labels += ["failed"] * ("ExitFailureCircuitCount" in names or "EntryFailureCircuitCount" in names)
    labels += ["streams counted at circuit end"] * ("ExitCircuitStreamHistogram" in names)
    return bool(incs), labels


CHECK = Check("C17", [Test("circuits", cases(), run, 800, 20000, shards=4)], ["ops_agg"],
    "A case is a sequence of CIRCUIT_CLOSE events (every position, hop count, hidden service role and version, failure "
    "reasons, cell counts around the activity threshold, shuffled fields, fields of newer Tor versions) mixed with stream "
    "events on the same and other circuits. Collected are the counters that should change and a sample of the 4000 "
    "others; all their counts must equal the reference model's. Non-trivial when something is counted.",
    ["well formed events: malformed ones are C20"])
