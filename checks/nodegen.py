"""start configurations for the client checks (C14, C15) and what makes them
acceptable"""
from hypothesis import strategies as st
from gens import layout, INF

NAMES = ["ExitStreamCount", "ExitStreamByteCount", "ExitStreamByteHistogram", "ZeroCount", "ExitCircuitStreamHistogram",
         "EntryConnectionCount"]
SIGMAS = [0.0, 1.0, 10.0, 100.0]
FPS = ["A" * 40, "B" * 40, "C" * 40]
TOL = 1e-6


@st.composite
def counters(draw):
    out = {}
    for n in draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)):
        out[n] = {"bins": [[0.0, INF]] if n.endswith("Count") else draw(layout(max_bins=4))}
    return out


@st.composite
def start(draw, known=True, bad=(), every=None, pool=None):
    """a start configuration; bad lists the defects to draw from"""
    if pool and draw(st.integers(0, 2)):
        c, sig = draw(st.sampled_from(pool))
        c = {n: {"bins": [list(b) for b in c[n]["bins"]]} for n in c}
        sig = dict(sig)
        k = draw(st.integers(0, 3))
        if k == 0:
            n = draw(st.sampled_from(sorted(sig)))
            sig[n] = draw(st.sampled_from(SIGMAS))
        elif k == 1 and len(c) > 1:
            n = draw(st.sampled_from(sorted(sig)))
            del c[n], sig[n]
    else:
        c = draw(counters())
        if not known and draw(st.booleans()):
            c["NewCounter"] = {"bins": [[0.0, 1.0], [1.0, INF]]}
        sig = {n: draw(st.sampled_from(SIGMAS)) for n in c}
    if pool is not None:
        pool.append((c, sig))
    noise = {n: {"sigma": sig[n]} for n in sig}
    thr = draw(st.integers(1, 3))
    w = draw(st.sampled_from(["default", "default", "listed", "both"]))
    weights = {}
    if w != "default":
        weights = {f: 0 for f in FPS}
    if w != "listed":
        weights["*"] = 0
    cfg = dict(counters={n: {"bins": [list(b) for b in c[n]["bins"]]} for n in c}, noise={"counters": noise},
               noise_weight=weights, dc_threshold=thr, collect_period=draw(st.sampled_from([60, 3600])))
    good = {n: [list(b) for b in c[n]["bins"]] for n in c}
    defect = draw(st.sampled_from(list(bad))) if bad and draw(st.integers(0, 2)) == 0 else None
    n = draw(st.sampled_from(sorted(c)))
    if defect and defect.startswith("no "):
        cfg.pop(defect[3:], None)
    elif defect == "overlap":
        cfg["counters"][n]["bins"] = [[0.0, 5.0], [3.0, 9.0]]
    elif defect == "inverted bin":
        cfg["counters"][n]["bins"][0] = [7.0, -7.0]
    elif defect == "negative sigma":
        noise[n]["sigma"] = -1.0
    elif defect == "extra noise":
        noise["MidCircuitCount"] = {"sigma": 1.0}
    elif defect == "missing noise":
        del noise[n]
    elif defect == "unknown counter":
        cfg["counters"]["Bogus"] = {"bins": [[0.0, 1.0], [1.0, INF]]}
        noise["Bogus"] = {"sigma": 1.0}
    elif defect == "too few weights":
        weights.clear()
        weights.update({f: 0 for f in FPS[:draw(st.integers(0, 1))]})
        cfg["dc_threshold"] = len(weights) + 1
    elif defect == "negative weight":
        weights[FPS[1]] = -1
    elif defect == "huge weight":
        weights[FPS[1]] = 2 ** 70
    elif defect == "threshold":
        cfg["dc_threshold"] = draw(st.sampled_from([0, -1, 10 ** 7]))
    elif defect == "traffic model":
        cfg["traffic_model"] = draw(st.sampled_from([{}, {"start_probability": {"a": 1.0}}]))
    elif defect == "too few bins":
        cfg["counters"]["ExitStreamByteRatio"] = {"bins": [[0.0, INF]]}
        noise["ExitStreamByteRatio"] = {"sigma": 1.0}
    return cfg, good, defect


class Delay:
    """when a round may start (C06 checks this rule on its own)"""
    def __init__(self, delay, always, tol):
        self.delay, self.always, self.tol = delay, always, tol
        self.noise = self.end = None

    def differs(self, new):
        old = self.noise
        if old is None:
            return False
        return set(old) != set(new) or any(old[k]["sigma"] - new[k]["sigma"] > self.tol for k in old)

    def permitted(self, now, new):
        if self.end is None:
            return True
        return now >= self.end + (self.delay if self.always or self.differs(new) else 0)

    def stopped(self, now, new):
        self.end = now
        if self.noise is None or self.always or self.differs(new):
            self.noise = new
