from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require
from gens import COUNT_NAMES, HIST_NAMES

NAMES = (COUNT_NAMES + HIST_NAMES)[:5]
BASE = [0, 1.0, 10.0, 100.0, 1e6]
TOL = [0.0, 1e-6, 0.01, 0.5]


@st.composite
def alloc(draw, pool):
    if pool and draw(st.integers(0, 3)) > 0:
        # derived from an earlier one
        a = {k: dict(v) for k, v in draw(st.sampled_from(pool)).items()}
        kind = draw(st.sampled_from(["same", "up", "down", "tiny", "add", "remove", "swap"]))
        names = sorted(a)
        if kind in ("up", "down", "tiny") and names:
            n = draw(st.sampled_from(names))
            d = {"up": draw(st.sampled_from([0.25, 1.0, 1000.0])), "down": -draw(st.sampled_from([0.25, 0.625, 1.0, 9.0])),
                 "tiny": draw(st.sampled_from([-0.0078125, -1e-7, 1e-7, -0.5]))}[kind]
            a[n]["sigma"] = max(0.0, a[n]["sigma"] + d)
        elif kind == "add":
            a[draw(st.sampled_from(NAMES))] = {"sigma": draw(st.sampled_from(BASE))}
        elif kind == "remove" and len(names) > 1:
            del a[draw(st.sampled_from(names))]
        elif kind == "swap" and names:
            a[draw(st.sampled_from(NAMES))] = a.pop(draw(st.sampled_from(names)))
    else:
        a = {n: {"sigma": draw(st.sampled_from(BASE))} for n in
             draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))}
    pool.append(a)
    return {k: dict(v, bins=[[0, 1]]) for k, v in a.items()}


@st.composite
def histories(draw):
    steps, pool = [], []
    t = 1000.0
    const = draw(st.booleans())
    fixed = dict(delay=draw(st.sampled_from([0, 1, 60, 3600.0])), always=False, tol=draw(st.sampled_from(TOL)), rtt=0.0)
    for _ in range(draw(st.integers(1, 10))):
        conf = dict(fixed) if const else dict(
            delay=draw(st.sampled_from([0, 1, 60, 3600.0])), always=draw(st.sampled_from([False, False, False, True])),
            tol=draw(st.sampled_from(TOL)), rtt=draw(st.sampled_from([0.0, 0.0, 2.5])))
        t += draw(st.sampled_from([0, 0.5, 1, 59, 60, 61, 3599, 3600, 3601, 7300]))
        if draw(st.booleans()):
            steps.append(dict(conf, op="ask", alloc={"counters": draw(alloc(pool))}, t=t))
        else:
            start = t
            t += draw(st.sampled_from([1, 100, 5000]))
            steps.append(dict(conf, op="stop", alloc={"counters": draw(alloc(pool))}, start=start, end=t,
                              success=draw(st.sampled_from([True, True, True, False]))))
            if draw(st.booleans()):
                # ask around the end of the delay
                d = draw(st.sampled_from([-0.5, 0, 0.5]))
                at = max(t + conf["delay"] + conf["rtt"] + d, t)
                steps.append(dict(conf, op="ask", alloc={"counters": draw(alloc(pool))}, t=at))
                t = at
    return steps


def needs_delay(old, new, tol):
    if old is None:
        return False
    if set(old) != set(new):
        return True
    return any(new[k]["sigma"] < old[k]["sigma"] and old[k]["sigma"] - new[k]["sigma"] > tol for k in old)


def run(case, w):
    out = w.call("delay", case)
    noise, end = None, None
    refused = delays = 0
    for s, r in zip(case, out):
        new = s["alloc"]["counters"]
        nd = s["always"] or needs_delay(noise, new, s["tol"])
        if s["op"] == "ask":
            earliest = 0 if end is None else end + (s["delay"] + s["rtt"] if nd else 0)
            expect_eq(r[0], s["t"] >= earliest, "start permitted at %s (last end %s, earliest %s)" % (s["t"], end, earliest))
            expect_eq(float(r[1]), float(earliest), "earliest start")
            refused += not r[0]
            delays += nd
        elif s["success"]:
            end = s["end"]
            if noise is None or s["always"] or needs_delay(noise, new, s["tol"]):
                noise = new
    return delays > 0, ["refused"] * (refused > 0) + ["rounds>1"] * (sum(s["op"] == "stop" for s in case) > 1)


CHECK = Check("C06", [Test("history", histories(), run, 2500, 40000, shards=3)], ["ops_counter"],
    "A case is a history of up to 20 questions (may this round start now?) and round ends, successful or not, with "
    "noise allocations derived from earlier ones (equal, raised, lowered, lowered within tolerance, counters added, "
    "removed or swapped) and times around the end of the delay. The reference keeps the allocation that started the "
    "current series and the end of the last successful round. Non-trivial when some question needs the delay.",
    ["rounds end after they start, as the callers ensure"])
