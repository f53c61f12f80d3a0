import hashlib

from hypothesis import strategies as st
from vp import Check, Test, expect_eq
import evgen
import evmodel
from c16 import diff
from evmodel import Model, layouts, totals

EV = {"Store": "PRIVCOUNT_HSDIR_CACHE_STORE", "Fetch": "PRIVCOUNT_HSDIR_CACHE_FETCH"}
FAM = {k: evmodel.family(v) for k, v in EV.items()}


def md5(o):
    return hashlib.md5((o + ".onion").encode()).hexdigest()

ADDRESSES = evgen.ONIONS[:3] + [md5(o) for o in evgen.ONIONS[2:]]


def one_form(lists):
    """no address in one list that is in another in its other form"""
    seen, out = set(), []
    for l in lists:
        keep = []
        for a in l:
            k = {a, md5(a)}
            if not k & seen:
                seen |= k
                keep.append(a)
        out.append(keep)
    return [l for l in out if l]


@st.composite
def cases(draw):
    ev = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(["Store", "Fetch"]))
        ev.append([op, draw(evgen.hsdir(op)), draw(st.integers(0, 9999))])
    reasons = evgen.lists_of(st.sampled_from([r.lower() for r in evgen.REASONS]))
    return dict(store=draw(reasons), fetch=draw(reasons), onions=one_form(draw(evgen.lists_of(st.sampled_from(ADDRESSES)))),
                events=ev, all=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)))


def run(case, w):
    conf = dict(hsdir_store_lists=case["store"], hsdir_fetch_lists=case["fetch"], onion_lists=case["onions"])
    fam = FAM["Store"] + FAM["Fetch"]
    m = Model(fam, conf)
    for op, e, _ in case["events"]:
        m.hsdir(e, op)
    counters = layouts(evmodel.pick(m.out, fam, case["seed"], everything=case["all"]), m.out, case["seed"])
    r = w.call("agg", dict(conf, counters=counters, sks=[], sparse=True,
                           steps=[["event", evgen.fields_items(EV[op], e, o)] for op, e, o in case["events"]]))
    for x in r["results"]:
        expect_eq(x, ["ok", True], "handling of the event")
    want = totals(counters, m.out)
    expect_eq(r["counts"], want, diff(r["counts"], want))
    labels = sorted({"%s v%d" % (op, e["HiddenServiceVersionNumber"]) for op, e, _ in case["events"]})
    if any(n.endswith("OnionAddressCountList") and b < 100 for n, b, _ in m.out if b is not None):
        labels.append("onion address in a list")
    if any(n.endswith("ReasonCountList") and b < 100 for n, b, _ in m.out if b is not None):
        labels.append("reason in a list")
    return True, labels


CHECK = Check("C19", [Test("directory", cases(), run, 480, 12000, shards=4)], ["ops_agg"],
    "A case is a sequence of HSDIR_CACHE_STORE and FETCH events of both versions (flags present and absent, byte counts up "
    "to the limits, onion addresses in lists as names and as MD5 digests in either case, listed and unlisted reasons). The "
    "counts of the counters that should change and a sample, or all, of the others must equal the reference model's.",
    ["well formed events: malformed ones are C20"])
