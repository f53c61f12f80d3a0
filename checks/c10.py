import json
import re

from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require
from evmodel import EVENTS

VALID = sorted({e for v in EVENTS.values() for e in v} | {
    "PRIVCOUNT_CIRCUIT_CELL", "PRIVCOUNT_STREAM_BYTES_TRANSFERRED", "PRIVCOUNT_DNS_RESOLVED", "PRIVCOUNT_CIRCUIT_ENDED",
    "PRIVCOUNT_CONNECTION_ENDED"})
FP = "F" * 39
fps = st.sampled_from([FP + "0"] * 8 + [FP + "1", FP + "1", "abc", " " + FP + "2 "])
word = st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=12)
fact = st.one_of(
    word.map(lambda v: "250 Nickname=" + v), st.just("250 Nickname"),
    st.tuples(st.sampled_from(["250 ", "250-"]), st.sampled_from(["ORPort", "DirPort"]), word).map(lambda t: "%s%s=%s" % t),
    st.sampled_from(["250 ORPort", "250 DirPort", "250 GeoIPFile", "250 GeoIPv6File", "551 Address unknown", "250 OK"]),
    st.tuples(st.sampled_from(["GeoIPFile", "GeoIPv6File"]), word).map(lambda t: "250 %s=%s" % t),
    word.map(lambda v: "250-version=" + v), word.map(lambda v: "250-privcount-version=" + v),
    word.map(lambda v: "250-address=" + v))
flags = st.lists(st.sampled_from(["Fast", "Guard", "Exit", "HSDir", "Stable", "Valid"]), max_size=4)
ns = flags.map(lambda f: ["250+ns/id/%s=" % FP, "r test O+Lh BuWv 2017-06-22 03:59:43 127.0.0.1 5000 7000",
                          ("s " + " ".join(f)), "w Bandwidth=0", "p reject 1-65535", ".", "250 OK"])
no_ns = st.sampled_from([["250-ns/id/%s=" % FP, "250 OK"], ['552 Unrecognized key "ns/id/%s"' % FP]])
field = st.text(st.characters(min_codepoint=33, max_codepoint=126), max_size=8)
event = st.tuples(st.sampled_from(VALID + ["PRIVCOUNT_BOGUS", "PRIVCOUNT_", "privcount_circuit_close"]),
                  st.lists(field, max_size=4)).map(lambda t: "650 " + " ".join([t[0]] + t[1]))
error = st.sampled_from(["552 Unrecognized option: Unknown option 'EnablePrivCount'.  Failing.", "500 x", "510 Unrecognized command",
                         '552 Unrecognized event "PRIVCOUNT_CIRCUIT_CLOSE"', '552 Unrecognized key "privcount-version"',
                         "551 Not running in server mode", "650 BW 1 2", "junk", "", "650 PRIVCOUNT", "3xx"])
on = st.sampled_from(["250 EnablePrivCount=1"] * 12 + ["250 EnablePrivCount=1", "250 EnablePrivCount=0", "250 EnablePrivCount=",
                      "250 EnablePrivCount=auto"])
REAL = sorted(n for n in EVENTS if EVENTS[n])
counters = st.one_of(st.lists(st.sampled_from(REAL), min_size=1, max_size=3, unique=True), st.none(), st.lists(st.sampled_from(["ZeroCount", "EntryConnectionCount", "ExitStreamCount",
                                                          "HSDir2StoreCount", "HSDir3FetchCount",
                                                          "ExitStreamTrafficModelStreamCount"]) | st.sampled_from(REAL),
                                         max_size=4, unique=True))
extra = st.one_of(st.none(), st.lists(st.sampled_from(VALID + [VALID[0].lower(), "BOGUS"]), max_size=2))
model = st.one_of(st.none(), st.just({"start_probability": {"a": 1.0}, "x": [1, 2]}))


@st.composite
def cases(draw):
    c = dict(use_setconf=draw(st.booleans()), sample_rate=draw(st.sampled_from([1.0, 1.0, 0.5, 0.0])),
             max_cells=draw(st.sampled_from([-1, 0, 5])), refuse=draw(st.sampled_from([None, None, None, 1, 2, 3])))
    start = st.tuples(st.just("start"), counters, extra, model).map(list)
    # begin with a plausible dialogue, then anything
    steps = []
    if draw(st.integers(0, 9)) == 0:
        steps.append(draw(start))
    steps += [["line", "250-PROTOCOLINFO 1"], ["line", "250-AUTH METHODS=NULL"],
              ["line", '250-VERSION Tor="%s"' % draw(word.filter(lambda x: '"' not in x and "\\" not in x))], ["line", "250 OK"]]
    if draw(st.integers(0, 5)) == 0:
        steps.append(["line", draw(st.one_of(event, error, fact))])
    steps.append(["line", "250 OK"])
    steps += [["line", l] for l in draw(st.lists(fact, max_size=5))]
    if draw(st.integers(0, 5)) == 0:
        steps.append(draw(st.one_of(start, event.map(lambda l: ["line", l]))))
    steps.append(["line", "250-fingerprint=" + draw(fps)])
    body = draw(st.lists(st.one_of(
        start, start, start, st.just(["stop"]), event.map(lambda l: ["line", l]), event.map(lambda l: ["line", l]), event.map(lambda l: ["line", l]),
        ns.map(lambda l: ["ns", l]), no_ns.map(lambda l: ["ns", l]), st.just(["line", "250 OK"]),
        fact.filter(lambda l: l[0] == "2").map(lambda l: ["line", l]),
        on.map(lambda l: ["line", l]), st.just(["tick", 3600]), st.just(["tick", 10])), min_size=draw(st.integers(0, 10)), max_size=14))
    tail = draw(st.lists(st.one_of(error.map(lambda l: ["line", l]), st.just(["lose"]), start, st.just(["stop"]),
                                   event.map(lambda l: ["line", l]), st.just(["tick", 7200])), max_size=4))
    pick = draw(st.integers(0, 5))
    if draw(st.integers(0, 3)):
        body.insert(0, draw(start))
    seq = []
    active = None
    for s in body:
        if s[0] == "start":
            active = sorted(wanted(s[1], s[2]))
        if s[0] == "ns":
            lines = list(s[1])
            if active and pick == 1:
                # events may come between the lines of another answer
                lines.insert(draw(st.integers(0, len(lines))), "650 %s a=b" % draw(st.sampled_from(active)))
            seq += [["line", l] for l in lines]
        elif s[0] == "line" and s[1].startswith("650 ") and active and draw(st.integers(0, 3)):
            seq.append(["line", "650 %s %s" % (draw(st.sampled_from(active)), (s[1].split(" ", 2) + ["a"])[2])])
        else:
            seq.append(s)
    c["steps"] = steps + seq + tail
    c["seed"] = draw(st.integers(0, 99))
    return c


def wanted(cs, ev):
    w = {e for n in cs or [] for e in EVENTS.get(n, [])}
    return w | {e.upper() for e in ev or [] if e.upper() in VALID}


FACTS = [("250 Nickname=", "set_nickname"), ("250 ORPort=", "set_orport"), ("250-ORPort=", "set_orport"),
         ("250 DirPort=", "set_dirport"), ("250-DirPort=", "set_dirport"), ("250 GeoIPFile=", "set_geoip_file"),
         ("250 GeoIPv6File=", "set_geoipv6_file"), ("250-version=", "set_tor_version"),
         ("250-privcount-version=", "set_tor_privcount_version"), ("250-address=", "set_address")]
EMPTY = {"250 Nickname": "set_nickname", "250 GeoIPFile": "set_geoip_file", "250 GeoIPv6File": "set_geoipv6_file"}


class Model:
    """what the control client must do at each step: calls of the collector,
    whether the connection ends, whether events are on"""
    def __init__(self, case):
        self.c = case
        self.phase = "protocolinfo"
        self.wanted = None          # events of the collection, None when not collecting
        self.model = None
        self.on = False
        self.ns = False
        self.fp = None
        self.delivered = 0
        self.age = 0                # seconds since the client got ready

    def enable(self):
        if self.phase == "ready" and self.wanted is not None:
            self.on = True
            return ["on"]
        return []

    def close(self):
        self.phase, self.on, self.ns = "closed", False, False
        return ["close"]

    def step(self, s):
        """calls, and marks: on, off, close, ask"""
        if s[0] == "start":
            self.wanted, self.model = wanted(s[1], s[2]), s[3]
            return [], self.enable()
        if s[0] == "stop":
            self.wanted = None
            self.on = False
            return [], ["off"] if self.phase != "closed" else []
        if self.phase == "closed":
            return [], []
        if s[0] == "lose":
            return [], self.close()
        if s[0] == "tick":
            if self.phase != "ready":
                return [], []
            e, self.age = self.age, self.age + s[1]
            return [], ["ask"] * (self.age // 3600 - e // 3600)
        l = s[1].strip()
        return self.line(l)

    def unexpected(self, l):
        if l.startswith("2") or l.startswith("650 PRIVCOUNT_"):
            return [], []
        return [], self.close()

    def line(self, l):
        if self.phase == "protocolinfo":
            if l.startswith(("250-PROTOCOLINFO", "250-AUTH")):
                return [], []
            if l.startswith("250-VERSION"):
                return [["set_tor_version", l.split('"')[1]]], []
            if l == "250 OK":
                self.phase = "auth"
                return [], []
            return self.unexpected(l)
        if self.phase == "auth" and l == "250 OK":
            self.phase = "discover"
            return [], ["off", "facts"]
        if self.phase == "discover":
            for p, f in FACTS:
                if l.startswith(p):
                    return [[f, l[len(p):]]], []
            if l in EMPTY:
                return [[EMPTY[l], ""]], []
            if l == "551 Address unknown":
                return [], []
            if l.startswith("250-fingerprint="):
                v = l.split("=", 1)[1]
                calls = [["set_fingerprint", v]]
                if len(v.strip()) != 40:
                    # no valid fingerprint: the relay cannot be asked for
                    return calls, self.close()
                self.fp = v.strip()
                self.phase = "ready"
                return calls, ["ask"] + self.enable()
            return self.unexpected(l)
        if l.startswith("250-ns/id/") or l.startswith('552 Unrecognized key "ns/id/'):
            return [["set_flag_list", ""]], []
        if l.startswith("250+ns/id/"):
            self.ns = True
            return [], []
        if self.ns and l.startswith("s "):
            return [["set_flag_list", l[2:]]], []
        if self.ns and l.startswith("."):
            self.ns = False
            return [], []
        if self.on and l.startswith("250 EnablePrivCount="):
            return [], [] if l.endswith("=1") else self.close()
        if self.on and l.startswith("650 PRIVCOUNT_"):
            p = l.split(" ")
            if p[1] not in self.wanted or len(p) <= 2:
                return [], []
            self.delivered += 1
            return [["event", p[1:]]], self.close() if self.c["refuse"] == self.delivered else []
        if self.ns:
            return [], []
        return self.unexpected(l)


def sent_ok(case, m, marks, sent, was_on):
    """the lines sent to Tor at this step"""
    setconf = [l for l in sent if l.startswith("SETCONF")]
    if not case["use_setconf"]:
        require(not setconf, "SETCONF sent although it is off: %s", setconf)
    if "on" in marks:
        i = sent.index([l for l in sent if l.startswith("SETEVENTS")][-1])
        ev = sent[i].split()[1:]
        expect_eq(sorted(ev), sorted(m.wanted), "events asked for")
        require("GETCONF EnablePrivCount" in sent[:i], "EnablePrivCount is not checked: %s", sent)
        if case["use_setconf"]:
            want = ["SETCONF __ReloadTorrcOnSIGHUP=0"]
            if case["sample_rate"] != 1.0:
                want.append("SETCONF PrivCountCircuitSampleRate=%s" % case["sample_rate"])
            if case["max_cells"] >= 0:
                want.append("SETCONF PrivCountMaxCellEventsPerCircuit=%d" % case["max_cells"])
            want.append("SETCONF EnablePrivCount=1")
            expect_eq(sorted(setconf), sorted(want), "settings when collection starts")
            require(max(sent.index(l) for l in setconf) < i and
                    sent.index("SETCONF EnablePrivCount=1") < sent.index("GETCONF EnablePrivCount"), "order of %s", sent)
        t = [l for l in sent if l.startswith("SET_TMODEL TRUE ")]
        expect_eq([json.loads(x[16:].replace(";", ",")) for x in t], [m.model] if m.model is not None else [], "traffic model")
        require(not t or sent.index(t[0]) < i, "the traffic model came after the events")
    elif "off" in marks:
        require("SETEVENTS" in sent and "SET_TMODEL FALSE" in sent, "events stay on: %s", sent)
        if case["use_setconf"]:
            want = ["SETCONF EnablePrivCount=0", "SETCONF __ReloadTorrcOnSIGHUP=1"]
            if case["sample_rate"] != 1.0:
                want.append("SETCONF PrivCountCircuitSampleRate=1.0")
            if case["max_cells"] >= 0:
                want.append("SETCONF PrivCountMaxCellEventsPerCircuit=-1")
            expect_eq(sorted(setconf), sorted(want), "settings when collection stops")
    else:
        require(not [l for l in sent if l.startswith("SETEVENTS ")], "events asked for: %s", sent)
    if "facts" in marks:
        for l in ("GETCONF Nickname", "GETCONF ORPort", "GETCONF DirPort", "GETINFO version", "GETINFO address",
                  "GETINFO privcount-version", "GETINFO fingerprint", "GETCONF GeoIPFile", "GETCONF GeoIPv6File"):
            require(l in sent, "did not ask %s", l)
    asked = [l for l in sent if l.startswith("GETINFO ns/id/")]
    expect_eq(asked, ["GETINFO ns/id/" + str(m.fp)] * marks.count("ask"), "consensus requests")


def run(case, w):
    r = w.call("control", case, seed=case["seed"])
    m = Model(case)
    labels = set()
    n = 0
    for s, o in zip(case["steps"], r["out"][1:]):
        was_on, was_closed = m.on, m.phase == "closed"
        calls, marks = m.step(s)
        what = "%s in phase %s" % (s, m.phase)
        require(o["exc"] is None and o["exits"] == 0, "%s raised %s", what, o["exc"])
        expect_eq(o["calls"], calls, "calls after %s" % what)
        expect_eq(o["closed"], m.phase == "closed", "closed after %s" % what)
        if was_closed:
            require(not o["sent"], "sent after the connection ended: %s", o["sent"])
        elif "close" in marks:
            if was_on and s[0] != "lose":
                require("SETEVENTS" in o["sent"], "closed with the events on: %s", o["sent"])
            if not case["use_setconf"]:
                require(not [l for l in o["sent"] if l.startswith("SETCONF")], "SETCONF sent although it is off")
            labels.add("closed by " + (s[0] if s[0] != "line" else "refused event" if calls and calls[0][0] == "event" else "answer"))
        else:
            sent_ok(case, m, marks, o["sent"], was_on)
        for c in calls:
            if c[0] == "event":
                n += 1
                labels.add("delivered")
        if s[0] == "line" and s[1].startswith("650 PRIVCOUNT_") and not calls:
            labels.add("held back " + ("while on" if was_on else m.phase))
    if m.phase == "closed":
        expect_eq(r["timers"], 0, "timers left after the connection ended")
    return n > 0, sorted(labels)


@st.composite
def maps(draw):
    # blocks of neighbours: every counter is in several of the blocks drawn
    names = sorted(EVENTS)
    n = draw(st.sampled_from([1, 30] + [400] * 6))
    i = 50 * draw(st.sampled_from(range(len(names) // 50 + 1)))
    return (names + names)[i:i + n]


def run_map(case, w):
    got = w.call("events_for", case)
    for n in case:
        expect_eq(got[n], sorted(EVENTS[n]), "events of %s" % n)


CHECK = Check("C10", [
    Test("control", cases(), run, quick=3000, thorough=60000, shards=2),
    Test("map", maps(), run_map, quick=300, thorough=500, jy=["ops_agg"]),
], jy=["ops_torctl"],
    rule="at least one event was delivered",
    assumptions=["Answers Tor could not give at this point of the dialogue are limited to the listed lines.",
                 "checks/data/counters.txt records which event each counter is counted from (C16 to C19 and C24 check that "
                 "it is counted from that event)."])
