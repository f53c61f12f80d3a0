"""C24: counting with a traffic model, and updating it from the tallies"""
import copy
import json
import math
from hypothesis import strategies as st
from vp import Check, Test, require, expect_eq
import tmodel
from tmodel import models, templates, count, PREFIX, lognormal, exponential

EVENT = {"packet_model": ("PRIVCOUNT_VITERBI_PACKETS", "ViterbiPathPackets"),
         "stream_model": ("PRIVCOUNT_VITERBI_STREAMS", "ViterbiPathStreams")}
INF = float("inf")

delays = st.one_of(st.sampled_from([0, 0, 1, 2, 4, 5, 100, 35432, 10 ** 9, 10 ** 15]), st.integers(0, 10 ** 7))


@st.composite
def paths(draw, m, kind):
    if kind in m:
        h = m[kind]
        good = [(s, o) for s, row in sorted(h["emission_probability"].items()) for o in sorted(row)]
    else:
        good = [("m1s1", "+")]
    out = []
    for _ in range(draw(st.integers(0, 7))):
        k = draw(st.integers(0, 19))
        if k == 0:
            s, o = draw(st.sampled_from(["zz", "sActive9", "m9Dwell", "sDwell"])), draw(st.sampled_from("+-$F"))
        elif k == 1:
            s, o = draw(st.sampled_from(good))[0], draw(st.sampled_from("+-$F"))
        elif k == 2:
            out.append(list(draw(st.sampled_from([(), ("m1s1",), ("m1s1", "+")]))))
            continue
        else:
            s, o = draw(st.sampled_from(good))
        out.append([s, o, draw(delays)])
    return out


@st.composite
def counting(draw):
    m = draw(st.one_of(models(), models(), models(), st.none()))
    ev = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(sorted(PREFIX)))
        ev.append([kind, draw(paths(m or {}, kind))])
    return dict(model=m, events=ev, some=draw(st.sampled_from([False, False, True])), seed=draw(st.integers(0, 1000)),
                stamp=draw(st.sampled_from(["1500000000.5", "0.0", "1"])))


def run_count(case, w):
    import random
    m = case["model"]
    labels = sorted(templates(m)) if m else sorted(p + x for p in PREFIX.values() for x in ("EmissionCount", "TransitionCount"))
    if case["some"]:
        labels = [l for l in labels if random.Random("%s%s" % (case["seed"], l)).random() < 0.5] or labels[:1]
    steps = []
    want = {l: 0 for l in labels}

    def add(l, n):
        if l in want:
            want[l] += n
    for kind, path in case["events"]:
        code, field = EVENT[kind]
        steps.append(["event", [code, "%s=%s" % (field, json.dumps(path, separators=(";", ":"))), "EventTimestamp=" + case["stamp"]]])
        if m and kind in m:
            count(kind, path, add)
    r = w.call("agg", dict(traffic_model=m, counters={l: dict(bins=[[0.0, INF]], sigma=0.0) for l in labels}, sks=[], steps=steps))
    for x in r["results"]:
        expect_eq(x, ["ok", m is not None], "handling of the event")
    got = {l: v[0] for l, v in r["counts"].items()}
    d = sorted(l for l in want if got.get(l) != want[l])
    require(not d and set(got) == set(want), "counts differ in %s", [(l, got.get(l), want[l]) for l in d[:5]])
    if m and not case["some"]:
        # the documented sums
        for kind in m:
            for part in ("EmissionCount",):
                tot = sum(v for l, v in got.items() if l.startswith(PREFIX[kind] + part + "_"))
                require(tot <= got[PREFIX[kind] + part], "the parts of %s add up to %s of %s", part, tot, got[PREFIX[kind] + part])
    return any(want.values()), ["no model"] * (m is None) + ["some counters"] * case["some"]


# -- update

@st.composite
def updates(draw):
    m = draw(models())
    labels = sorted(templates(m))
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        mode = draw(st.integers(0, 3))
        t = {}
        for l in labels:
            k = draw(st.integers(0, 7))
            if k == 0 and mode != 3:
                continue
            if k == 1:
                v = 0
            elif k == 2:
                v = -draw(st.integers(1, 50))
            else:
                v = draw(st.sampled_from([1, 2, 10, 1000, 10 ** 6])) * draw(st.integers(1, 9))
            t[l] = v
        if mode == 0:
            t = {l: 0 for l in t}
        # log delays in proportion to the emissions
        if mode >= 2:
            for l in list(t):
                for part in ("SquaredLogDelayTime_", "LogDelayTime_"):
                    if part in l:
                        n = t.get(l.replace(part, "EmissionCount_"), 0)
                        if n > 0:
                            mu = draw(st.integers(0, 12))
                            t[l] = n * mu if part == "LogDelayTime_" else n * (mu * mu + draw(st.integers(0, 9)))
                        break
        inertia = draw(st.sampled_from([[], [], [0.5, 0.5], [0.9, 0.1], [0.25, 0.75], [1.0, 1.0]]))
        rounds.append(dict(tallies=t, inertia=inertia))
    return dict(model=m, rounds=rounds)


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-12)


def mix(old, counts, inertia, what):
    """probabilities moved towards the (non-negative) counts"""
    c = {k: float(max(0, v)) for k, v in counts.items()}
    tot = math.fsum(c.values())
    new = {k: inertia * old[k] + (1 - inertia) * (c[k] / tot if tot > 0 else 0.0) for k in old}
    s = math.fsum(new.values())
    return {k: v / s for k, v in new.items()} if s > 0 else new


def check_updated(got, conf, t, ti, ei):
    """an updated model against the tallies"""
    moved = False
    expect_eq(sorted(got), sorted(conf), "parts of the updated model")
    for kind in conf:
        o, n, pre = conf[kind], got[kind], PREFIX[kind]
        for k in ("state_space", "observation_space"):
            expect_eq(n[k], o[k], k)
        want = mix(o["start_probability"], {s: t.get("%sTransitionCount_START_%s" % (pre, s), 0) for s in o["start_probability"]}, ti, "start")
        compare(n["start_probability"], want, "start probability")
        expect_eq(sorted(n["transition_probability"]), sorted(o["transition_probability"]), "transitions")
        for s, row in o["transition_probability"].items():
            want = mix(row, {d: t.get("%sTransitionCount_%s_%s" % (pre, s, d), 0) for d in row}, ti, "transition")
            compare(n["transition_probability"][s], want, "transition probability from " + s)
        expect_eq(sorted(n["emission_probability"]), sorted(o["emission_probability"]), "emissions")
        for s, row in o["emission_probability"].items():
            cnt = {b: t.get("%sEmissionCount_%s_%s" % (pre, s, b), 0) for b in row}
            want = mix({b: row[b][0] for b in row}, cnt, ei, "emission")
            nrow = n["emission_probability"][s]
            compare({b: nrow[b][0] for b in nrow}, want, "emission probability in " + s)
            for b in row:
                params(row[b], nrow[b], s, b, cnt[b], t, pre, ei)
                moved |= cnt[b] > 0
    return moved


def run_update(case, w):
    out = w.call("update", case)
    conf = case["model"]
    moved = False
    for r, (got, valid) in zip(case["rounds"], out):
        moved |= check_updated(got, conf, r["tallies"], *(r["inertia"] or [0.5, 0.5]))
        require(valid, "the updated model is not valid")
        require(tmodel.valid(got), "the updated model is not a valid model")
        conf = got
    return moved, ["rounds>1"] * (len(out) > 1)


def compare(got, want, what):
    require(sorted(got) == sorted(want), "%s: %r, expected %r", what, got, want)
    for k in want:
        require(near(got[k], want[k]), "%s: %r, expected %r", what, got, want)


def params(old, new, s, b, n, t, pre, ei):
    what = "parameters of %s in %s (%r, was %r)" % (b, s, new, old)
    require(len(new) == len(old), "%s: wrong number", what)
    require(all(x == x and abs(x) < INF for x in new), "%s: not finite", what)
    if lognormal(s, b):
        # delays that were not counted, or not positive, are zero
        mu = max(0, t.get("%sLogDelayTime_%s_%s" % (pre, s, b), 0)) / float(n) if n > 0 else 0.0
        require(near(new[1], ei * old[1] + (1 - ei) * mu), "%s: mu should be %r", what, ei * old[1] + (1 - ei) * mu)
        sq = t.get("%sSquaredLogDelayTime_%s_%s" % (pre, s, b), 0)
        var = sq / float(n) - mu * mu if n > 0 and sq > 0 else 0.0
        if var >= 0.11:
            require(near(new[2], ei * old[2] + (1 - ei) * math.sqrt(var)), "%s: sigma should be %r", what, ei * old[2] + (1 - ei) * math.sqrt(var))
        else:
            # small and negative variances have a small default
            require(ei * old[2] - 1e-9 <= new[2] <= ei * old[2] + (1 - ei) * 0.34, "%s: sigma for variance %r", what, var)
    elif exponential(s, b):
        d = t.get("%sDelayTime_%s_%s" % (pre, s, b), 0)
        if n > 0 and d > 0:
            want = 1 / (ei / old[3] + (1 - ei) * d / float(n))
        else:
            want = old[3]
        require(near(new[3], want), "%s: lambda should be %r", what, want)


CHECK = Check("C24", [
    Test("count", counting(), run_count, 700, 12000, shards=2),
    Test("update", updates(), run_update, 700, 12000, shards=2)], ["ops_agg", "ops_traffic"],
    "count: Viterbi events with paths of up to seven steps through a generated model (some steps in unknown states, with "
    "unexpected observations, or too short) fed to an aggregator collecting all or some of the model's counters; compared "
    "with a reference count. update: one to three rounds of tallies (missing, zero, negative, small, large, consistent or "
    "noisy) applied to a valid model; the result is compared with the documented formulas, must be valid, and is the input "
    "of the next round after a JSON round trip. Non-trivial when something is counted.",
    ["paths are well formed JSON with non-negative delays", "the inertia is positive, and the rates of the model are"])
