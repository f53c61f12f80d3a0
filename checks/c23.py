"""C23: validation of traffic models and their noise"""
import copy
from hypothesis import strategies as st
from vp import Check, Test, require, expect_eq, same
import tmodel
from tmodel import models, valid, templates, REQ, PREFIX

INF = float("inf")


@st.composite
def mutated(draw):
    m = copy.deepcopy(draw(models()))
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        kinds = sorted(k for k in PREFIX if m.get(k) and all(x in m[k] for x in REQ))
        if not kinds:
            break
        kind = draw(st.sampled_from(kinds))
        h = m[kind]
        trans, emit, start = h["transition_probability"], h["emission_probability"], h["start_probability"]
        op = draw(st.sampled_from(["drop", "delkey", "none", "sum", "sum", "sum", "tiny", "state", "space", "obs", "params",
                                   "obsspace", "strange", "nostart", "nan", "other"]))
        eps = draw(st.sampled_from([1e-3, -1e-3, 0.5, 1e-7, -1e-7]))
        if op == "tiny":
            eps = draw(st.sampled_from([1e-12, -1e-12]))
        if op == "nan":
            eps = float("nan")
        if op == "drop":
            del m[kind]
        elif op == "delkey":
            del h[draw(st.sampled_from(REQ))]
        elif op == "none":
            m[kind] = None
        elif op in ("sum", "tiny", "nan"):
            where = draw(st.integers(0, 2))
            if where == 0 and start:
                start[draw(st.sampled_from(sorted(start)))] += eps
            elif where == 1:
                s = draw(st.sampled_from(sorted(trans)))
                if trans[s]:
                    trans[s][draw(st.sampled_from(sorted(trans[s])))] += eps
            else:
                s = draw(st.sampled_from(sorted(emit)))
                if emit[s]:
                    emit[s][draw(st.sampled_from(sorted(emit[s])))][0] += eps
        elif op == "state":
            # a state that is not in the state space
            where = draw(st.integers(0, 3))
            if where == 0:
                start["nowhere"] = 0.0
            elif where == 1:
                trans[draw(st.sampled_from(sorted(trans)))]["nowhere"] = 0.0
            elif where == 2:
                trans["nowhere"] = {h["state_space"][0]: 1.0} if h["state_space"] else {}
            else:
                emit["nowhere"] = {"F": [1.0]}
        elif op == "space":
            if h["state_space"]:
                h["state_space"].remove(draw(st.sampled_from(h["state_space"])))
        elif op == "obs":
            h["observation_space"] = [o for o in h["observation_space"] if o != draw(st.sampled_from(["+", "-", "$", "F"]))]
        elif op == "obsspace":
            h["observation_space"] = h["observation_space"] + [draw(st.sampled_from(["$", "+", "x"]))]
        elif op == "params":
            s = draw(st.sampled_from(sorted(emit)))
            if emit[s]:
                ps = emit[s][draw(st.sampled_from(sorted(emit[s])))]
                if draw(st.booleans()) and len(ps) > 1:
                    ps.pop()
                else:
                    ps.append(0.0)
        elif op == "strange":
            s = draw(st.sampled_from(sorted(emit)))
            emit[s][draw(st.sampled_from(["x", "$", "+", "F"]))] = [0.0] + [1.0] * draw(st.sampled_from([0, 3]))
        elif op == "nostart":
            h["start_probability"] = {}
        elif op == "other":
            m["note"] = 1
    return m


def run_check(case, w):
    both = set()
    for m, r in zip(case, w.call("check", case)):
        want = valid(m)
        expect_eq(r, ["ok", want], "traffic model accepted (%s)" % m)
        both.add(want)
    return len(both) > 1


def expand(m, noise):
    t = templates(m)
    return {l: noise["counters"][x] for l, x in t.items() if x in noise["counters"]}


@st.composite
def noises(draw, m):
    names = sorted(set(templates(m).values()))
    chosen = names if draw(st.booleans()) else draw(st.lists(st.sampled_from(names), unique=True, max_size=6))
    n = {x: dict(sigma=draw(st.sampled_from([0.0, 1.0, 2.5]))) for x in chosen}
    k = draw(st.integers(0, 11))
    if k == 0:
        n[draw(st.sampled_from(["ExitStreamCount", "ExitStreamTrafficModelEmissionCount_<STATE>_<DIRECTION>",
                                "ExitCircuitTrafficModelStreamCount", "TransitionCount_START_<STATE>"]))] = dict(sigma=1.0)
    elif k == 1:
        labels = sorted(set(templates(m)) - set(names))
        if labels:
            n[draw(st.sampled_from(labels))] = dict(sigma=1.0)
    return dict(counters=n)


@st.composite
def noise_cases(draw):
    m = draw(models())
    n = [draw(noises(m)) for _ in range(3)]
    if draw(st.booleans()):
        n.append({})
    return dict(model=m, noise=n)


def run_noise(case, w):
    r = w.call("noise", case)
    t = templates(case["model"])
    expect_eq(r["labels"], sorted(t), "counters of the model")
    expect_eq(r["all"], ["ok", {l: dict(bins=[[0.0, INF]]) for l in t}], "counters without a noise file")
    bad = 0
    for n, (ok, ni, bi) in zip(case["noise"], r["noise"]):
        want = "counters" in n and all(k in t.values() for k in n["counters"])
        expect_eq(ok, ["ok", want], "noise file accepted")
        if want:
            e = expand(case["model"], n)
            expect_eq(ni, ["ok", e], "noise of each counter")
            expect_eq(bi, ["ok", {l: dict(bins=[[0.0, INF]]) for l in e}], "bins of each counter")
        else:
            bad += 1
            expect_eq(ni, ["ok", None], "noise from a refused file")
    return bad < len(case["noise"]), ["refused"] * bool(bad)


@st.composite
def confs(draw):
    m = draw(mutated()) if draw(st.integers(0, 3)) == 0 else draw(models())
    good = draw(models())
    n = draw(noises(m if valid(m) else good))
    if draw(st.integers(0, 9)) == 0:
        n = None
    counters = {"ExitStreamCount": dict(bins=[[0.0, INF]], sigma=3.0)}
    if draw(st.booleans()):
        counters["EntryConnectionLifeTime"] = dict(bins=[[0, 1], [1, INF]], sigma=4.0)
    return dict(model=m, noise=n, counters=counters)


def run_conf(case, w):
    r, c = w.call("configure", case)
    m, n = case["model"], case["noise"]
    ok = valid(m)
    if ok and n is not None:
        ok = all(k in templates(m).values() for k in n["counters"])
    if n is None:
        ok = False    # every counter needs noise
    require(r[0] == "ok", "the tally server failed: %r", r)
    expect_eq(c is not None, ok, "configuration accepted")
    if not ok:
        return True, ["refused"]
    e = expand(m, n)
    base = sorted(case["counters"])
    expect_eq(sorted(c["counters"]), sorted(set(e) | set(base) | {"ZeroCount"}), "counters collected")
    for l in e:
        expect_eq(c["counters"][l]["bins"], [[0.0, INF]], "bins of " + l)
        expect_eq(c["noise"][l]["sigma"], e[l]["sigma"], "sigma of " + l)
        ev = "PRIVCOUNT_VITERBI_PACKETS" if l.startswith("ExitStream") else "PRIVCOUNT_VITERBI_STREAMS"
        expect_eq(c["events"][l], [ev], "events of " + l)
    for l in base:
        expect_eq(c["noise"][l]["sigma"], case["counters"][l]["sigma"], "sigma of " + l)
    require(same(c["model"], m), "the model in use is not the one in the file")
    return len(e) > 0, ["accepted"]


@st.composite
def unnormal(draw):
    """a model whose rows hold weights of any scale, some of them counts"""
    m = draw(models())
    for part in m.values():
        rows = [part["start_probability"]] + [part["transition_probability"][s] for s in sorted(part["transition_probability"])]
        for row in rows:
            factor = draw(st.sampled_from([1, 2, 7.5, 1e-3, 1e6]))
            counts = draw(st.booleans())
            for s in row:
                row[s] = draw(st.integers(0, 9)) if counts else row[s] * factor
            if counts and not any(row.values()) and row is rows[0]:
                row[sorted(row)[0]] = 1
        for s in sorted(part["emission_probability"]):
            row = part["emission_probability"][s]
            factor = draw(st.sampled_from([1, 2, 7.5, 1e-3, 1e6]))
            counts = draw(st.booleans())
            for o in row:
                row[o][0] = draw(st.integers(1, 9)) if counts else row[o][0] * factor
    return m


def near(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(map(near, a, b))
    if isinstance(a, (int, float)):
        return isinstance(b, (int, float)) and tmodel.close(a, b)
    return same(a, b)


def run_normalise(case, w):
    status, got = w.call("normalise", case)
    require(status == "ok", "normalising raised %s", got)
    want = copy.deepcopy(case)
    zero = False
    for part in want.values():
        for row in [part["start_probability"]] + list(part["transition_probability"].values()):
            total = float(sum(row.values()))
            zero = zero or bool(row) and not total
            for s in row:
                # a state that is never left stays so
                row[s] = row[s] / total if total else 0.0
        for row in part["emission_probability"].values():
            total = float(sum(x[0] for x in row.values()))
            for x in row.values():
                x[0] /= total
    require(near(got, want), "normalised model: got %s, expected %s", got, want)
    return True, ["a row of zeroes"] * zero


CHECK = Check("C23", [
    Test("normalise", unnormal(), run_normalise, 300, 4000),
    Test("check", st.lists(mutated(), min_size=1, max_size=4), run_check, 700, 12000, shards=2),
    Test("noise", noise_cases(), run_noise, 400, 6000),
    Test("configure", confs(), run_conf, 300, 4000, shards=2)], ["ops_traffic"],
    "Packet and stream models with one to three states, end states, zero probabilities and states with several "
    "observations; valid, and with up to two mutations (missing keys or sections, sums off by 0.5 down to 1e-12, states and "
    "observations outside their space, parameter counts, NaN). A reference predicate and expansion of noise templates are "
    "the oracle. check: non-trivial when accepted and refused models occur; noise, configure: when some counter gets noise "
    "(or the tally server must refuse). normalise: rows of weights of any scale, also counts and rows of zeroes, against "
    "exact proportions.",
    ["models have the types the format documents", "negative probabilities that sum to one are not judged"])
