from hypothesis import strategies as st
from vp import Check, Test, Violation, require, short

T0 = 1499825281
START = 1500000000.0
TOK = st.text(st.sampled_from("abZ019_.:/-,$~"), min_size=1, max_size=6)
KEYS = ["CircuitId", "IsEntryFlag", "HSDirCacheReplicaSocketNumber", "CacheCreatedTime", "Cells", "RemoteIPAddress", "EventTimestampX", "MyEventTimestamp"]
POSITIONAL = {"PRIVCOUNT_STREAM_BYTES_TRANSFERRED": (6, 6, 6), "PRIVCOUNT_STREAM_ENDED": (11, 7, 8),
              "PRIVCOUNT_CIRCUIT_ENDED": (12, 7, 8), "PRIVCOUNT_CONNECTION_ENDED": (5, 2, 3)}
TAGGED = ["PRIVCOUNT_CIRCUIT_CELL", "PRIVCOUNT_CIRCUIT_CLOSE", "PRIVCOUNT_CONNECTION_CLOSE", "PRIVCOUNT_HSDIR_CACHE_STORE",
          "PRIVCOUNT_HSDIR_CACHE_FETCH", "PRIVCOUNT_VITERBI_PACKETS", "PRIVCOUNT_VITERBI_STREAMS", "PRIVCOUNT_NEW_EVENT"]


def stamp(t, digits):
    return "%.*f" % (digits, t)


@st.composite
def line(draw, t):
    """one line of a log ending at time t: (text, kind)"""
    digits = draw(st.sampled_from([0, 1, 2, 6]))
    alive = draw(st.sampled_from([0, 0, 1, 2.5, 60, 3600, 0.25, 86400]))
    e, s = stamp(t, digits), stamp(t - alive, digits)
    sep = draw(st.sampled_from([" ", " ", " ", "  "]))
    kind = draw(st.sampled_from(["positional", "positional", "tagged", "tagged", "tagged", "bad", "blank", "odd"]))
    if kind == "positional":
        name = draw(st.sampled_from(sorted(POSITIONAL)))
        n, a, b = POSITIONAL[name]
        parts = [name] + draw(st.lists(TOK, min_size=n, max_size=n))
        parts[a], parts[b] = s, e
        if a == b:
            parts[a] = e
    elif kind == "tagged":
        name = draw(st.sampled_from(TAGGED))
        f = {k: draw(st.one_of(st.just(""), TOK)) for k in draw(st.lists(st.sampled_from(KEYS), max_size=5, unique=True))}
        f["EventTimestamp"] = e
        if draw(st.booleans()):
            f["CreatedTimestamp"] = s
        parts = [name] + ["%s=%s" % (k, f[k]) for k in draw(st.permutations(sorted(f)))]
    elif kind == "bad":
        which = draw(st.integers(0, 5))
        if which == 0:
            name = draw(st.sampled_from(sorted(POSITIONAL)))
            n, a, b = POSITIONAL[name]
            parts = [name] + ["1"] * n
            parts[a], parts[b] = s, e
            parts[b] = draw(st.sampled_from(["x", "1.2.3", "-", "T"]))
        elif which == 1:
            parts = [draw(st.sampled_from(TAGGED)), "A=1", "B=2"]
        elif which == 2:
            parts = [draw(st.sampled_from(TAGGED)), "A=1", "EventTimestamp=" + draw(st.sampled_from(["", "x", "nan", "inf", "-inf", "1,5"]))]
        elif which == 3:
            parts = [draw(st.sampled_from(TAGGED)), "EventTimestamp=" + e, "CreatedTimestamp=" + draw(st.sampled_from(["", "x", "nan"]))]
        else:
            parts = [draw(st.sampled_from(TAGGED)), "CreatedTimestamp=" + s]
    elif kind == "blank":
        return draw(st.sampled_from(["", " ", "\t", "   "]))
    else:
        parts = draw(st.sampled_from([["PRIVCOUNT_STREAM_ENDED", "1"], ["650", "OK"], ["garbage"], ["PRIVCOUNT_CIRCUIT_CELL"],
                                      ["PRIVCOUNT_CIRCUIT_CELL", "A=1", "A=2", "EventTimestamp=5"], ["X", "=", "a=b"], ["PRIVCOUNT_CONNECTION_ENDED"]]))
    return draw(st.sampled_from(["", "", " "])) + sep.join(parts) + draw(st.sampled_from(["", "", " ", "\r"]))


@st.composite
def log(draw):
    t = T0 + draw(st.integers(0, 100))
    lines = []
    for _ in range(draw(st.integers(0, 12))):
        t += draw(st.sampled_from([0, 0, 0.5, 1, 1.5, 5, 59, 61, 1000, -3, -0.25, 86400]))
        lines.append(draw(line(t)))
    text = "\n".join(lines)
    if lines and draw(st.integers(0, 3)):
        text += "\n"
    before, after = 0.0, float(2 ** 31 - 1)
    if draw(st.booleans()):
        before = T0 + draw(st.sampled_from([-10, 0, 50, 100, 200, 1e6]))
    if draw(st.booleans()):
        after = T0 + draw(st.sampled_from([-10, 60, 100, 200, 1100, 1e6]))
    if draw(st.integers(0, 2)) == 0:
        # exactly the time of some line
        ts = [m[2] for m in map(model_line, lines) if m]
        if ts:
            x = draw(st.sampled_from(ts))
            if draw(st.booleans()):
                before = x
            else:
                after = x
    return dict(log=text, pause=draw(st.booleans()), before=float(before), after=float(after),
                events=["PRIVCOUNT_STREAM_ENDED", "PRIVCOUNT_CIRCUIT_CELL"], most=200,
                stop=draw(st.sampled_from(["lose", "quit", "events"])), stop_after=draw(st.sampled_from([-1, -1, 0, 1, 2, 5])))


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def model_fields(parts):
    f = {}
    for p in parts:
        k, eq, v = p.partition("=")
        if not eq or not k or "=" in v or k in f:
            return None
        f[k] = v
    return f


def model_line(text):
    """None: no usable times; else (kind, start, end, parts)"""
    parts = text.split()
    if not parts:
        return None
    if parts[0] in POSITIONAL and len(parts) == POSITIONAL[parts[0]][0] + 1:
        _, a, b = POSITIONAL[parts[0]]
        s, e = number(parts[a]), number(parts[b])
        return None if s is None or e is None else ("positional", s, e, parts)
    if "=" in text and len(parts) >= 2:
        f = model_fields(parts[1:])
        if f is None:
            return "odd", 0.0, 0.0, parts
        e = number(f.get("EventTimestamp", ""))
        s = number(f["CreatedTimestamp"]) if "CreatedTimestamp" in f else e
        if s is None or e is None or not abs(s) < 1e300 or not abs(e) < 1e300:
            return None
        return "tagged", s, e, parts
    return "odd", 0.0, 0.0, parts


def near(a, b, tol):
    a = number(a)
    return a is not None and abs(a - b) <= tol


def run(case, w):
    r = w.call("replay", case)
    require(r["exc"] is None, "the control port stub raised %s", r["exc"])
    require(r["exits"] == 0 and r["left"] == 0, "the injector ended abnormally, or is still busy: %s", short(r))
    require(all(r["listening"]) or not case["log"], "the injector still listens for other connections")
    lines = case["log"].split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    want, last, odd = [], 0.0, False
    for l in lines:
        m = model_line(l)
        if m is None:
            odd = True
            continue
        if case["before"] <= m[2] <= case["after"]:
            gap = max(0.0, m[2] - last) if case["pause"] and last > 0 else 0.0
            want.append((m, gap))
        if case["pause"] or not case["before"] <= m[2] <= case["after"]:
            last = m[2]
    replies = [x for x in r["sent"] if not x[1].startswith("650 ")]
    sent = [x for x in r["sent"] if x[1].startswith("650 ")]
    require(replies[:1] and replies[0][1] == "250 OK" and r["sent"][0] == replies[0], "SETEVENTS was not answered first")
    cut = r["stopped"] is not None
    if cut:
        after = [x for x in r["sent"][r["stopped"]:] if x[1].startswith("650 ")]
        require(not after, "events were sent after the stop: %s", short(after))
        require(len(sent) <= len(want), "too many events: %s", short(sent))
        require(case["stop_after"] < 0 or len(sent) <= case["stop_after"] + 1, "unexpected events")
        require(len(sent) == min(len(want), case["stop_after"]), "%d events were sent before the stop, expected %d", len(sent), min(len(want), case["stop_after"]))
    else:
        require(len(sent) == len(want), "%d events were sent, expected %d of log:\n%s", len(sent), len(want), case["log"])
    prev = START
    for (when, text), (m, gap) in zip(sent, want):
        kind, s, e, parts = m
        require(abs(when - prev - gap) < 1e-3, "an event was sent %r s after the one before it, expected %r: %r", when - prev, gap, text)
        prev = when
        got = text[4:].split(" ")
        if kind == "odd":
            require(got == parts, "a line that is no event was changed: %r from %r", got, parts)
            continue
        require(got[0] == parts[0], "the event name changed: %r from %r", got, parts)
        if kind == "positional":
            _, a, b = POSITIONAL[parts[0]]
            require(len(got) == len(parts) and all(x == y for i, (x, y) in enumerate(zip(got, parts)) if i not in (a, b)),
                    "fields were changed: %r from %r", got, parts)
            if a != b:
                require(near(got[a], when - (e - s), 0.011), "start time %s, expected %r: %r from %r", got[a], when - (e - s), got, parts)
            require(near(got[b], when, 0.011), "end time %s, expected %r: %r from %r", got[b], when, got, parts)
        else:
            g, p = model_fields(got[1:]), model_fields(parts[1:])
            require(g is not None and set(g) == set(p), "fields were changed: %r from %r", got, parts)
            require(all(g[k] == p[k] for k in p if k not in ("EventTimestamp", "CreatedTimestamp")), "fields were changed: %r from %r", got, parts)
            require(near(g["EventTimestamp"], when, 0.011), "event time %s, expected %r: %r from %r", g["EventTimestamp"], when, got, parts)
            if "CreatedTimestamp" in g:
                require(near(g["CreatedTimestamp"], when - (e - s), 0.011), "start time %s, expected %r: %r from %r", g["CreatedTimestamp"], when - (e - s), got, parts)
    return bool(sent), ["stopped" if cut else "whole", "paused" if case["pause"] else "at once"] + (["skipped"] if odd else [])


def ending(case, w):
    r = w.call("replay", dict(case, stop_after=-1))
    sent = [x for x in r["sent"] if x[1].startswith("650 ")]
    if not r["closed"] or not r["reactor"]:
        raise Violation("the replay is over, but the connection is open and the injector runs on", finding="replay-never-ends")
    return bool(sent)


CHECK = Check("C27", [Test("replay", log(), run, 900, 30000, shards=3), Test("ending", log(), ending, 60, 600)], ["ops_inject"],
              rule="a case is non-trivial if at least one event was delivered",
              assumptions=["replayed times are compared with a tolerance of 0.011 s, as they are printed with 12 digits",
                           "events with the time NaN in a positional field are outside the domain"])
