from hypothesis import strategies as st
import evgen
from evmodel import Model, totals
from vp import Check, Test, expect_eq, require
from nodegen import Delay, start, TOL, FPS

BAD = ["no counters", "no noise", "no noise_weight", "no dc_threshold", "no collect_period", "no sharekeepers", "overlap",
       "inverted bin", "negative sigma", "extra noise", "missing noise", "too few weights", "negative weight",
       "huge weight", "threshold", "traffic model", "unknown counter", "too few bins"]
KEEPERS = ["missing", "extra", "replaced", "twice", "twice more", "none", "foreign"]
ticks = st.sampled_from([0.5, 1, 10, 12, 60, 61, 700, 3599, 3601])
stops = st.sampled_from([["stop", {"send_counters": True}]] * 4 + [["stop", {"send_counters": False}], ["stop", {}]])


@st.composite
def starts(draw, pool, own, clean=False):
    cfg, good, defect = draw(start(bad=() if clean else BAD, pool=pool))
    keys = list(own)
    kind = draw(st.sampled_from(KEEPERS)) if not clean and draw(st.integers(0, 3)) == 0 else None
    free = [k for k in range(4) if k not in own]
    if kind == "missing" and len(keys) > 1:
        keys.pop(draw(st.integers(0, len(keys) - 1)))
    elif kind == "extra":
        keys.append(free[0])
    elif kind == "replaced":
        keys[draw(st.integers(0, len(keys) - 1))] = free[0]
    elif kind == "twice" and len(keys) > 1:
        keys[0] = keys[1]
    elif kind == "twice more":
        keys.append(keys[0])
    elif kind == "none":
        keys = []
    elif kind == "foreign":
        keys = [free[0]] * len(keys)
    else:
        kind = None
    if defect != "no sharekeepers":
        cfg["sharekeepers"] = [["sk%d" % i, k] for i, k in enumerate(draw(st.permutations(keys)))]
    if draw(st.booleans()):
        cfg["defer_time"] = draw(st.sampled_from([0.0, 2.5, 30.0, 300.0]))
    return ["start", cfg, good, defect, kind]


@st.composite
def cases(draw):
    conf = dict(name="dc1", delay_period=draw(st.sampled_from([0, 60, 3600])),
                always_delay=draw(st.sampled_from([False, False, True])),
                sigma_decrease_tolerance=draw(st.sampled_from([TOL, 5.0])))
    own = draw(st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True))
    fp = draw(st.sampled_from(FPS + ["D" * 40]))
    pool, steps = [], []
    some = st.one_of(st.builds(lambda e: ["event", e], evgen.stream()), st.just(["relay", fp]), stops, st.just(["checkin"]),
                     st.builds(lambda t: ["tick", t], ticks))
    for _ in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 3)) == 0:
            # a round that is stopped before it has begun
            near = st.sampled_from([1, 10, 12, 20, 29.5, 30])
            steps += [draw(starts(pool, own, True)), ["tick", draw(near)], draw(stops), ["tick", draw(near)]]
            if draw(st.booleans()):
                steps += [draw(starts(pool, own, True)), ["tick", draw(near)]]
                steps[-2][1]["defer_time"] = draw(st.sampled_from([30.0, 300.0]))
                steps[-6][1]["defer_time"] = draw(st.sampled_from([30.0, 30.0, 0.0]))
        steps.append(draw(starts(pool, own, draw(st.booleans()))))
        steps.append(["tick", draw(ticks)])
        for _ in range(draw(st.integers(0, 3))):
            steps += [draw(some), ["tick", draw(ticks)]]
        if draw(st.integers(0, 2)):
            if draw(st.booleans()):
                steps.append(["tick", 301])
            steps += [["relay", fp], ["event", draw(evgen.stream())]]
            for _ in range(draw(st.integers(0, 2))):
                steps += [draw(st.one_of(some, starts(pool, own))), ["tick", draw(ticks)]]
        if draw(st.integers(0, 4)):
            steps += [["tick", 1], draw(stops), ["tick", draw(ticks)]]
    return dict(conf=conf, keepers=own, source={"ip": "127.0.0.1", "port": 20003}, steps=steps, seed=draw(st.integers(0, 999)))


def wire_steps(steps):
    return [["event", evgen.stream_items(s[1])] if s[0] == "event" else s for s in steps]


def run(case, w):
    out = w.call("collector", dict(case, steps=wire_steps(case["steps"])), seed=case["seed"])
    c = case["conf"]
    d = Delay(c["delay_period"], c["always_delay"], c["sigma_decrease_tolerance"])
    now, agg, begun = 1500000000.0, None, None
    labels = set()
    require(out[0]["ok"], "the configuration was refused")
    expect_eq(len(out), len(case["steps"]) + 1, "commands handled (%s)" % out[-1])
    for s, o in zip(case["steps"], out[1:]):
        what = "%s at %s" % (s[0], now)
        require(o.get("result", ["ok"])[0] != "exit" and not o["exits"], "the process ended after %s: %s", what, o)
        dials = 0
        if s[0] == "tick":
            now += s[1]
            if agg and not agg["live"] and agg["at"] <= now:
                agg["live"] = True
                dials = 1
        elif s[0] == "start":
            _, cfg, good, defect, keys = s
            why = defect
            if why is None and not d.permitted(now, cfg["noise"]["counters"]):
                why = "delay"
            if why is None and agg:
                why = "running"
            if why is None and keys:
                why = "keepers: " + keys
                begun = "unknown"
            if why:
                expect_eq(o["result"], ["none", None], "answer to a start command that must be refused (%s)" % why)
                labels.add("refused: " + why)
            else:
                expect_eq(o["result"][0], "ok", "answer to a good start command")
                offered = dict(cfg["sharekeepers"])
                expect_eq(o["readers"], {u: [k] for u, k in offered.items()}, "who can read the shares")
                expect_eq(sorted(o["names"]), sorted([u, c["name"]] for u in offered), "names on the shares")
                require(o["distinct"], "two keepers got the same share")
                require(not o["plain"], "a share shows its contents")
                require("layout" not in o, "counters of the shares: %s instead of %s", o.get("layout"), good)
                agg = dict(live=False, at=now + cfg.get("defer_time", 0.0), up=False, cancelled=False, cfg=cfg, good=good,
                           fp=None, model=Model(list(good)))
                begun = now
                labels.add("started")
        elif s[0] == "relay":
            if agg and agg["live"] and not agg["up"]:
                agg["up"] = True
                agg["fp"] = s[1]
                wt = agg["cfg"]["noise_weight"]
                if s[1] not in wt and "*" not in wt:
                    agg["cancelled"] = True
                    labels.add("cancelled")
        elif s[0] == "event":
            if agg and agg["up"] and not agg["cancelled"]:
                agg["model"].stream(s[1])
        elif s[0] == "stop":
            r = o["result"][1]
            ran = agg is not None and agg["live"] and not agg["cancelled"]
            if ran and not agg["up"]:
                ran = "*" in agg["cfg"]["noise_weight"]
            want = bool(ran and s[1].get("send_counters", False))
            require(("counts" in o) == want, "counts %s reported (stop %s, %s)", "are" if "counts" in o else "are not", s[1],
                    "a round ran" if ran else "no round ran")
            if want:
                expect_eq(o["bins"], agg["good"], "counters reported")
                sure = {n: x for n, x in o["counts"].items() if any(x)}
                expect_eq(sure, totals({n: dict(bins=b) for n, b in agg["good"].items()}, agg["model"].out), "reported counts")
                expect_eq([r["Config"]["Start"][k] for k in ("collect_period", "noise_weight", "dc_threshold")],
                          [agg["cfg"][k] for k in ("collect_period", "noise_weight", "dc_threshold")], "reported start command")
                expect_eq([r["Config"]["Time"]["Start"], r["Config"]["Time"]["Stop"]], [begun, now], "reported times")
                d.stopped(now, agg["cfg"]["noise"]["counters"])
                labels.add("reported" + (" events" if sure else ""))
            else:
                labels.add("stopped without counts" if agg else "stopped while idle")
            agg = None
        elif s[0] == "checkin":
            pass
        expect_eq(o["state"], "active" if agg else "idle", "state after %s" % what)
        expect_eq(len(o["connects"]), dials, "connections to the relay opened during %s" % what)
    return "reported" in labels or "reported events" in labels or any("refused" in x for x in labels), sorted(labels)


CHECK = Check("C15", [Test("history", cases(), run, 450, 10000, shards=4)], ["ops_node"],
    "A case is a history of start and stop commands to a real data collector, with its relay's control dialogue, stream events, "
    "check-ins and clock steps in between: valid starts with and without a deferred start, starts with one of 18 defects, starts "
    "with one of 7 wrong sets of share keeper keys, starts within the required delay or while a round runs. Shares are opened "
    "with each of four private keys; the unblinded counts are compared with the reference model of the events. Non-trivial when "
    "counts were reported or a start was refused.",
    ["time passes between two commands", "share keeper keys are well-formed public keys",
     "noise weights are zero so that counts are exact (C02 checks the noise)"])
