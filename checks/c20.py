from hypothesis import strategies as st
from vp import Check, Test, expect_eq
import evgen
import evmodel
import evvalid
from c16 import diff
from evmodel import Model, layouts, totals

START = 1500000000.0
KINDS = {"PRIVCOUNT_CIRCUIT_CLOSE": evgen.circuit(), "PRIVCOUNT_CONNECTION_CLOSE": evgen.connection(),
         "PRIVCOUNT_HSDIR_CACHE_STORE": evgen.hsdir("Store"), "PRIVCOUNT_HSDIR_CACHE_FETCH": evgen.hsdir("Fetch")}
FAM = evmodel.family(*KINDS)
VALUES = ["", "x", "-1", "0", "1", "2", "3", "4", "10", "11", "20", "21", "100", "101", "131072", "131073", "1.5", "nan", "NaN",
          "inf", "-inf", "Infinity", "1e400", "-0.0", "-0.5", "1e3", "+1", "0x1", "None", "True", "a" * 50, "a" * 51, "b" * 39,
          "b" * 40, "b" * 41, "c" * 15, "c" * 16, "c" * 17, "d" * 31, "d" * 32, "e" * 42, "e" * 43, "e" * 44, "1,2", "," * 19,
          "," * 20, "us", "usa", "999.1.1.1", "1.2.3.4", "::1", ":::1", "40960", "40961", "1048576", "1048577",
          "18446744073709551615", "-18446744073709551616", "\xe9\xff", "1.", ".5", "1e", "--1", "1-"]


@st.composite
def mutated(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    raw = evgen.fields_items(kind, draw(KINDS[kind]), draw(st.integers(0, 999)))[1:]
    spec = evvalid.SPEC[kind][0]
    n = draw(st.sampled_from([0, 1, 1, 1, 2, 3]))
    for _ in range(n):
        how = draw(st.integers(0, 12))
        i = draw(st.integers(0, len(raw) - 1)) if raw else 0
        if how <= 3 and raw:
            raw[i] = raw[i].split("=")[0] + "=" + draw(st.sampled_from(VALUES))
        elif how <= 6:
            name = draw(st.sampled_from(sorted(spec)))
            raw = [x for x in raw if x.split("=")[0] != name]
            raw.insert(min(i, len(raw)), name + "=" + draw(st.sampled_from(VALUES)))
        elif how <= 8 and raw:
            need = [j for j, x in enumerate(raw) if x.split("=")[0] in evvalid.SPEC[kind][1]]
            if need:
                del raw[draw(st.sampled_from(need))]
        elif how == 9 and raw:
            raw.append(raw[i])
        elif how == 10:
            raw.insert(i, draw(st.sampled_from(["", "=", "=1", "novalue", "a=b=c", "a==b", "NewTorField=", "x y=1", "z=1\r", "z=\x00", "\xff=1"])))
        elif how == 11:
            raw = raw[:draw(st.integers(0, len(raw)))]
        elif how == 12:
            kind = draw(st.sampled_from(sorted(KINDS)))
            spec = evvalid.SPEC[kind][0]
    return [kind] + raw


def wild():
    return st.tuples(st.sampled_from(sorted(KINDS) + ["PRIVCOUNT_CIRCUIT_CELL", "PRIVCOUNT_NO_SUCH_EVENT", "PRIVCOUNT_CIRCUIT_ENDED",
                                                      "PRIVCOUNT_CONNECTION_ENDED"]),
                     st.lists(st.text(st.characters(max_codepoint=255), max_size=12), max_size=12)).map(lambda t: [t[0]] + t[1])


@st.composite
def cases(draw):
    return dict(events=draw(st.lists(st.one_of(mutated(), mutated(), mutated(), wild()), min_size=1, max_size=5)),
                seed=draw(st.integers(0, 10 ** 6)))


FEED = {"PRIVCOUNT_CIRCUIT_CLOSE": lambda m, e: m.circuit(e), "PRIVCOUNT_CONNECTION_CLOSE": lambda m, e: m.connection(e),
        "PRIVCOUNT_HSDIR_CACHE_STORE": lambda m, e: m.hsdir(e, "Store"), "PRIVCOUNT_HSDIR_CACHE_FETCH": lambda m, e: m.hsdir(e, "Fetch")}


def run(case, w):
    m = Model(FAM, {}, START)
    ignored = counted = 0
    touched = []
    for e in case["events"]:
        t = evvalid.typed(e[0], e[1:])
        if t is None:
            ignored += 1
            # what it would have counted, had it been well formed
            touched.append(e[0])
        else:
            counted += 1
            FEED[e[0]](m, t)
    fams = evmodel.family(*touched) if touched else []
    incs = [i for i in m.out if i[0] in set(FAM)]
    names = evmodel.pick(incs, FAM, case["seed"], limit=30)
    names = sorted(set(names) | set(BASE) | set(fams[case["seed"] % 7::97]))
    counters = layouts(names, incs, case["seed"])
    r = w.call("agg", dict(counters=counters, sks=[], sparse=True, steps=[["event", e] for e in case["events"]]), now=START)
    for e, x in zip(case["events"], r["results"]):
        expect_eq(x, ["ok", True], "handling of %r" % e[0])
    want = totals(counters, incs)
    expect_eq(r["counts"], want, diff(r["counts"], want))
    return ignored > 0, ["ignored event"] * (ignored > 0) + ["ignored and counted events"] * (ignored > 0 and counted > 0)


# the broadest counters, that any event of their kind changes
BASE = [n for n in FAM if n in (
    "EntryCircuitCount", "MidCircuitCount", "EndCircuitCount", "ExitCircuitCount", "DirCircuitCount", "HSDirCircuitCount",
    "IntroCircuitCount", "RendCircuitCount", "OriginCircuitCount", "EntryConnectionCount", "NonEntryConnectionCount",
    "EntryConnectionByteCount", "HSDirStoreCount", "HSDirFetchCount", "HSDir2StoreCount", "HSDir3StoreCount",
    "EntryConnectionLifeTime", "NonEntryConnectionLifeTime", "EntryCircuitLifeTime", "EndCircuitLifeTime",
    "HSDir2StoreUploadDelayTime", "HSDirStoreDescriptorByteCount", "HSDirFetchDescriptorByteCount", "HSDir3StoreRevisionHistogram")]

MINIMAL = {
    "PRIVCOUNT_CIRCUIT_CLOSE": dict(EventTimestamp="2.0", CreatedTimestamp="1.0", IsLegacyCircuitEndEventFlag="0", StateString="open",
                                    PurposeCode="1", IsMidFlag="1"),
    "PRIVCOUNT_CONNECTION_CLOSE": dict(EventTimestamp="2.0", CreatedTimestamp="1.0", ChannelId="1", RemoteIsClientFlag="1",
                                       RemoteIPAddress="1.2.3.4", RemoteIPAddressConnectionCount="1",
                                       PeerIPAddressConsensusRelayCount="0"),
    "PRIVCOUNT_HSDIR_CACHE_STORE": dict(HiddenServiceVersionNumber="2", EventTimestamp="2.0", CacheReasonString="x",
                                        WasAddedToCacheFlag="1"),
    "PRIVCOUNT_HSDIR_CACHE_FETCH": dict(HiddenServiceVersionNumber="3", EventTimestamp="2.0", CacheReasonString="x",
                                        CacheQueryByteCount="1")}


@st.composite
def field_cases(draw):
    """many events, each with one field set, changed or missing"""
    kind = draw(st.sampled_from(sorted(MINIMAL) + ["PRIVCOUNT_CIRCUIT_CLOSE"]))
    spec = sorted(evvalid.SPEC[kind][0]) + ["SupportedProtocolBitfield", "IntroPointFingerprintList", "DescriptorLifetime"]
    ev = []
    for _ in range(draw(st.integers(1, 30))):
        base = dict(MINIMAL[kind])
        if "HSDIR" in kind:
            base["HiddenServiceVersionNumber"] = draw(st.sampled_from(["2", "3"]))
        name = draw(st.sampled_from(spec))
        if draw(st.integers(0, 6)) == 0:
            base.pop(name, None)
        else:
            base[name] = draw(st.sampled_from(VALUES))
        ev.append([kind] + ["%s=%s" % kv for kv in base.items()])
    return dict(events=ev)


def run_fields(case, w):
    m = Model(FAM, {}, START)
    ignored = 0
    for e in case["events"]:
        t = evvalid.typed(e[0], e[1:])
        ignored += t is None
        if t is not None:
            FEED[e[0]](m, t)
    counters = layouts(BASE, [i for i in m.out if i[0] in BASE], 0)
    r = w.call("agg", dict(counters=counters, sks=[], sparse=True, steps=[["event", e] for e in case["events"]]), now=START)
    for e, x in zip(case["events"], r["results"]):
        expect_eq(x, ["ok", True], "handling of %r" % e)
    want = totals(counters, m.out)
    expect_eq(r["counts"], want, diff(r["counts"], want))
    return ignored > 0, [case["events"][0][0]]


CHECK = Check("C20", [Test("fields", field_cases(), run_fields, 700, 15000, shards=3),
                      Test("events", cases(), run, 600, 20000, shards=3)], ["ops_agg"],
    "A case is a sequence of tagged events, each well formed or with up to three mutations: values out of range or of the "
    "wrong type, mandatory fields missing, fields of another event or version, duplicate fields, missing or extra separators, "
    "truncation, or arbitrary bytes (events), or a run of minimal events that each have one field set to a boundary value, junk, "
    "or missing (fields). A table of the fields decides which events count; the rest must be ignored, with all "
    "counts as if they had not arrived and no exception. Non-trivial when an event has to be ignored.",
    ["fields are split on spaces by the line parser, integers have at most 20 digits"])
