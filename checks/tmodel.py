"""Traffic models: generators and the reference"""
import copy
import math
from hypothesis import strategies as st

REQ = ["state_space", "observation_space", "emission_probability", "transition_probability", "start_probability"]
PACKET_STATES = ["m1s1", "m2s4", "Blabbing", "Thinking", "m10s3"]
STREAM_STATES = ["sActive0", "sActive1", "sDwell0", "Dwell", "Active"]
ENDS = ["m4sEnd", "End"]
PREFIX = {"packet_model": "ExitStreamTrafficModel", "stream_model": "ExitCircuitTrafficModel"}
PATHS = {"packet_model": "StreamCount", "stream_model": "CircuitCount"}


@st.composite
def split(draw, n, zeros=True):
    w = draw(st.lists(st.integers(0 if zeros else 1, 6), min_size=n, max_size=n))
    if not any(w):
        w[0] = 1
    return [x / sum(w) for x in w]


def param():
    return st.one_of(st.sampled_from([0.01, 1.0, 2.5]), st.floats(0.01, 20))


@st.composite
def hmm(draw, kind):
    pool = PACKET_STATES if kind == "packet_model" else STREAM_STATES
    states = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
    ends = draw(st.lists(st.sampled_from(ENDS), min_size=0, max_size=2, unique=True))
    allobs = ["+", "-", "F"] if kind == "packet_model" else ["$", "F"]
    emit = {}
    for s in states:
        obs = draw(st.lists(st.sampled_from(allobs[:-1] * 3 + ["F"]), min_size=1, max_size=3, unique=True))
        emit[s] = {o: [p] + ([] if o == "F" else [draw(param()), draw(param()), draw(param())])
                   for o, p in zip(obs, draw(split(len(obs))))}
    for s in ends:
        emit[s] = {"F": [1.0]}
    trans = {}
    for s in states:
        dst = draw(st.lists(st.sampled_from(states + ends), min_size=1, max_size=4, unique=True))
        trans[s] = dict(zip(dst, draw(split(len(dst)))))
    for s in ends:
        k = draw(st.integers(0, 2))
        if k == 1:
            trans[s] = {}
        elif k == 2:
            trans[s] = {s: 0.0}
    start = draw(st.lists(st.sampled_from(states), min_size=1, max_size=3, unique=True))
    return dict(state_space=states + ends, observation_space=allobs, emission_probability=emit,
                transition_probability=trans, start_probability=dict(zip(start, draw(split(len(start))))))


@st.composite
def models(draw):
    kinds = draw(st.sampled_from([["packet_model"], ["stream_model"], ["packet_model", "stream_model"]]))
    return {k: draw(hmm(k)) for k in kinds}


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def valid_hmm(m, kind):
    if m is None or any(k not in m for k in REQ):
        return False
    need = {"packet_model": "+-F", "stream_model": "$F"}[kind]
    if any(o not in m["observation_space"] for o in need):
        return False
    S = m["state_space"]
    if any(s not in S for s in m["start_probability"]) or not close(math.fsum(m["start_probability"].values()), 1):
        return False
    for s, row in m["transition_probability"].items():
        if s not in S or any(d not in S for d in row):
            return False
        if "End" not in s and not close(math.fsum(row.values()), 1):
            return False
    for s, row in m["emission_probability"].items():
        if s not in S or any(o not in m["observation_space"] for o in row):
            return False
        for o, ps in row.items():
            if (o == "F" and len(ps) != 1) or (o in ("$", "+", "-") and len(ps) != 4):
                return False
        if not close(math.fsum(ps[0] for ps in row.values()), 1):
            return False
    return True


def valid(m):
    if m is None or not ("packet_model" in m or "stream_model" in m):
        return False
    return all(valid_hmm(m[k], k) for k in PREFIX if k in m)


def lognormal(state, obs):
    return obs in ("+", "-") or (obs == "$" and "Dwell" in state)


def exponential(state, obs):
    return obs == "$" and "Active" in state and "Dwell" not in state


def templates(m):
    """label -> template label"""
    out = {}
    for kind, pre in PREFIX.items():
        if kind not in m:
            continue
        h = m[kind]
        for x in [PATHS[kind], "EmissionCount", "TransitionCount", "DelayTime", "LogDelayTime", "SquaredLogDelayTime"]:
            out[pre + x] = pre + x
        for s, row in h["emission_probability"].items():
            for o in row:
                kinds = ["EmissionCount"]
                if lognormal(s, o):
                    kinds += ["LogDelayTime", "SquaredLogDelayTime"]
                elif exponential(s, o):
                    kinds += ["DelayTime"]
                for k in kinds:
                    out["%s%s_%s_%s" % (pre, k, s, o)] = "%s%s_<STATE>_<OBS>" % (pre, k)
        for s, row in h["transition_probability"].items():
            for d, p in row.items():
                if p > 0:
                    out["%sTransitionCount_%s_%s" % (pre, s, d)] = pre + "TransitionCount_<SRCSTATE>_<DSTSTATE>"
        for s, p in h["start_probability"].items():
            if p > 0:
                out["%sTransitionCount_START_%s" % (pre, s)] = pre + "TransitionCount_START_<STATE>"
    return out


def count(kind, path, add):
    """reference: what a path adds to the counters"""
    pre = PREFIX[kind]
    add(pre + PATHS[kind], 1)
    for i, step in enumerate(path):
        if len(step) < 3:
            continue
        s, o, delay = step[:3]
        ld = 0 if delay < 1 else int(math.floor(math.log(delay) + 0.5))
        add(pre + "EmissionCount", 1)
        add("%sEmissionCount_%s_%s" % (pre, s, o), 1)
        inc = {}
        if lognormal(s, o):
            inc = {"LogDelayTime": ld, "SquaredLogDelayTime": ld * ld}
        elif exponential(s, o):
            inc = {"DelayTime": delay}
        for k, v in inc.items():
            add(pre + k, v)
            add("%s%s_%s_%s" % (pre, k, s, o), v)
        if i == 0:
            add("%sTransitionCount_START_%s" % (pre, s), 1)
        if i + 1 < len(path) and len(path[i + 1]) >= 3:
            add(pre + "TransitionCount", 1)
            add("%sTransitionCount_%s_%s" % (pre, s, path[i + 1][0]), 1)
