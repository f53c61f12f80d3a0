import copy

from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require
from nodegen import Delay, start, TOL

Q = 2 ** 70
BAD = ["no counters", "no noise", "no noise_weight", "no dc_threshold", "no collect_period", "no shares", "overlap",
       "inverted bin", "negative sigma", "extra noise", "missing noise", "too few weights", "negative weight",
       "huge weight", "threshold"]
WRONG = ["foreign", "flip", "cut", "missing counter", "missing bin", "extra bin", "no count", "no secret", "plain"]
ticks = st.sampled_from([1, 1.5, 59, 60, 61, 3599, 3601])


@st.composite
def starts(draw, pool):
    cfg, good, defect = draw(start(known=False, bad=BAD, pool=pool))
    shares = []
    for i in range(draw(st.integers(0, 4))):
        shares.append(dict(kind="good", key=0, name="dc%d" % i, at=0))
    wrong = None
    if shares and draw(st.integers(0, 3)) == 0:
        s = draw(st.sampled_from(shares))
        wrong = s["kind"] = draw(st.sampled_from(WRONG))
        s["at"] = draw(st.integers(0, 5000))
        if wrong == "foreign":
            s["key"] = 1
        if wrong in ("missing bin",) and min(len(good[n]) for n in good) < 2:
            s["kind"], wrong = "no secret", "no secret"
    if defect != "no shares":
        cfg["shares"] = shares
    layout = {n: dict(bins=good[n], sigma=0.0) for n in good}
    return ["start", cfg, layout, defect, wrong]


stops = st.sampled_from([["stop", {"send_counters": True}]] * 4 + [["stop", {"send_counters": False}], ["stop", {}]])


@st.composite
def cases(draw):
    conf = dict(delay_period=draw(st.sampled_from([0, 60, 3600])), always_delay=draw(st.sampled_from([False, False, True])),
                sigma_decrease_tolerance=draw(st.sampled_from([TOL, 5.0])))
    pool, steps = [], []
    for _ in range(draw(st.integers(1, 5))):
        steps.append(draw(st.one_of(starts(pool), starts(pool), starts(pool), stops)))
        steps.append(["tick", draw(ticks)])
        if draw(st.integers(0, 4)):
            steps.append(draw(stops))
            steps.append(["tick", draw(ticks)])
    return dict(conf=conf, steps=steps, seed=draw(st.integers(0, 999)))


def run(case, w):
    out = w.call("keeper", case, seed=case["seed"])
    c = case["conf"]
    d = Delay(c["delay_period"], c["always_delay"], c["sigma_decrease_tolerance"])
    now, held, noise, begun = 1500000000.0, None, None, None
    last = None
    labels = set()
    reported = False
    require(out[0]["ok"], "the configuration was refused")
    expect_eq(out[0]["state"], "idle", "state before any command")
    for s, o in zip(case["steps"], out[1:]):
        what = "%s at %s" % (s[0], now)
        if s[0] == "tick":
            now += s[1]
        elif s[0] == "start":
            _, cfg, layout, defect, wrong = s
            ok = defect is None
            if ok and not d.permitted(now, cfg["noise"]["counters"]):
                ok, defect = False, "delay"
            if ok and wrong:
                require(o["result"][0] != "ok", "a start with a share that is wrong (%s) was accepted", wrong)
                labels.add("wrong share: " + wrong)
                if o["result"][0] == "exit":
                    # the keeper gives up: it reports nothing
                    return True, sorted(labels)
                held, noise, begun, last = None, cfg["noise"]["counters"], now, s
                expect_eq(o["state"], "idle", "state after a share was refused (%s)" % wrong)
            elif not ok:
                expect_eq(o["result"][0], "none", "answer to a start command with a defect: %s (%s)" % (defect, o["result"]))
                labels.add("refused: " + defect)
                last = None
            else:
                expect_eq(o["result"], ["ok", {}], "answer to a start command")
                held = {n: [sum(-m[n][i] for m in o["mine"]) % Q for i in range(len(layout[n]["bins"]))] for n in layout}
                noise, begun, last = cfg["noise"]["counters"], now, s
                labels.add("shares=%d" % len(cfg["shares"]))
        elif s[0] == "stop":
            expect_eq(o["result"][0], "ok", "answer to a stop command")
            r = o["result"][1]
            want = s[1].get("send_counters", False) and held is not None
            require(("Counts" in r) == want, "counts %s reported (stop %s, %s)", "are" if "Counts" in r else "are not", s[1],
                    "started" if held is not None else "not started")
            if want:
                got = {n: [b[2] for b in r["Counts"][n]["bins"]] for n in r["Counts"]}
                expect_eq(got, held, "reported sums")
                if last:
                    expect_eq(o["bins"], {n: last[2][n]["bins"] for n in last[2]}, "reported bins")
                    require("Start" in r["Config"] and r["Config"]["Start"]["collect_period"] == last[1]["collect_period"],
                            "the start configuration is not reported")
                    expect_eq(len(r["Config"]["Start"]["shares"]), len(last[1]["shares"]), "number of shares reported")
                d.stopped(now, noise)
                reported = True
                labels.add("reported")
            if begun is not None:
                expect_eq([r["Config"]["Time"]["Start"], r["Config"]["Time"]["Stop"]], [begun, now], "reported times")
                expect_eq(r["Config"]["Time"]["Collect"], now - begun, "reported duration")
            require(not o["leak"], "the answer contains an encrypted share")
            held = None
        expect_eq(o["state"], "idle" if held is None else "active", "state after %s" % what)
        expect_eq(o["exits"], 0, "exits after %s" % what)
    return reported or any(x.startswith(("refused", "wrong")) for x in labels), sorted(labels)


CHECK = Check("C14", [Test("history", cases(), run, 1000, 16000, shards=4)], ["ops_node"],
    "A case is a history of start and stop commands to a real share keeper: valid starts with 0 to 4 encrypted shares, "
    "starts with one of 15 defects or one of 9 wrong shares, starts within the required delay, stops that do or do not ask for "
    "counts, and clock steps. The expected report is minus the sum of the blinded zeros of the collectors that made the "
    "shares. Non-trivial when counts were reported or something was refused.",
    ["time passes between two commands",
     "a share that cannot be decrypted may also end the keeper's process, which reports nothing either"])
