"""Reference model of the tally server (C11, C12, C13) and a generator of
histories: clients that connect, report, answer, fail, fall silent and come
back, ticks and configuration changes"""
import base64
import json
import random
from hypothesis import strategies as st
from gens import INF, Q

START = 1500000000.0
CADDR = ("client_address", "tally_server_address")
HOUR = 3600.0


def clone(x):
    return json.loads(json.dumps(x))


class Phase:
    def __init__(self, conf, dcs, sks, keys, padding, now):
        self.conf, self.dcs, self.sks, self.keys, self.padding = conf, list(dcs), list(sks), keys, padding
        self.begin, self.stopping = now, None
        self.state = "starting_dcs"
        self.wait_shares = set(self.dcs)
        self.shares = {s: [] for s in self.sks}
        self.wait_counts = set()
        self.counts = {}
        self.configs = {}
        self.error = False
        self.seen = set()

    def members(self):
        return self.dcs + self.sks


class Server:
    """what a tally server does, message by message"""
    def __init__(self, config, now=START):
        self.now = now
        self.config = self.pending = None
        self.load(config)
        self.refresh()
        self.clients = {}
        self.phase = None
        self.done = 0
        self.idle_since = now
        self.last_noise = self.last_end = None
        self.interval = self.config["event_period"]
        self.next_loop = now + self.interval
        self.conns = {}
        self.labels = set()
        self.results = []
        self.starts = 0

    # -- configuration -----------------------------------------------------
    def load(self, c):
        self.pending = c

    def refresh(self):
        c = self.pending
        if c.get("bad"):
            return
        t = dict(c["ts"])
        n = {"event_period": 600, "checkin_period": 600, "delay_period": 86400, "always_delay": False, "continue": False,
             "sigma_decrease_tolerance": 1e-6, "circuit_sample_rate": 1.0, "max_cell_events_per_circuit": -1,
             "dc_threshold": 1, "sk_threshold": 1, "noise_weight": {"*": 1.0}, "collect_period": 1200}
        for k in ("event_period", "checkin_period", "delay_period"):
            if k not in c.get("drop", []):
                n[k] = {"event_period": 60, "checkin_period": 60, "delay_period": 0}[k]
        n.update(t)
        if n["delay_period"] < 0:
            n["delay_period"] = 86400
        for k in ("event_period", "checkin_period"):
            n[k] = min(n[k], n["collect_period"] // 2)
        counters = {k: [list(b) for b in v["bins"]] for k, v in c["counters"].items()}
        for kind in c.get("lists", {}):
            k = len(c["lists"][kind])
            for name in counters:
                if kind == LISTED.get(name):
                    counters[name] = [[float(i), float(i + 1)] for i in range(k)] + [[float(k), INF]]
        counters["ZeroCount"] = [[-INF, INF]]
        n["bins"] = counters
        n["sigma"] = dict(c["sigmas"], ZeroCount=0.0)
        n["lists"] = c.get("lists", {})
        n["maps"] = c.get("maps")
        n["start_at"] = c.get("start_at", 0)
        self.config = n

    # -- the loop ----------------------------------------------------------
    def advance(self, dt):
        end = self.now + dt
        while self.next_loop <= end:
            self.now = self.next_loop
            self.loop()
            self.next_loop += self.interval
        self.now = end

    def rtt(self, uid):
        return self.clients[uid].get("rtt", 2.0) + 1.0

    def max_rtt(self):
        return max([1.0] + [self.rtt(u) for u in self.clients])

    def in_state(self, typ, state):
        return [u for u, c in self.clients.items() if c["type"] == typ and c["state"] == state]

    def differs(self, new, tol):
        old = self.last_noise
        if old is None:
            return False
        return set(old) != set(new) or any(old[k] - new[k] > tol for k in old)

    def earliest(self):
        c = self.config
        if self.last_end is None:
            return 0
        if c["always_delay"] or self.differs(c["sigma"], c["sigma_decrease_tolerance"]):
            return self.last_end + c["delay_period"] + self.max_rtt()
        return self.last_end

    def remaining(self):
        c = self.config["continue"]
        if c is True:
            return True
        return self.done < (1 if c is False else int(c))

    def loop(self):
        self.refresh()
        c = self.config
        for u in list(self.clients):
            if self.now - self.clients[u]["alive"] > 7 * c["checkin_period"] + self.rtt(u):
                self.labels.add("client lost")
                if self.phase and u in self.phase.members():
                    self.labels.add("participant lost")
                del self.clients[u]
        p = self.phase
        if p is None:
            dcs, sks = self.in_state("DataCollector", "idle"), self.in_state("ShareKeeper", "idle")
            ready = len(dcs) >= c["dc_threshold"] and len(sks) >= c["sk_threshold"]
            if ready and not self.remaining():
                self.labels.add("no rounds left")
            elif ready and self.now < self.earliest():
                self.labels.add("delayed")
            elif ready and self.now < c["start_at"]:
                self.labels.add("before the start time")
            elif ready:
                padding = max(self.clients[u]["rtt"] + self.clients[u]["clock_skew"] for u in dcs + sks) + c["checkin_period"]
                self.phase = Phase(c, dcs, sks, {u: self.clients[u]["public_key"] for u in sks}, padding, self.now)
                self.starts += 1
                self.labels.add("round started")
        elif p.error or self.now - p.begin >= p.conf["collect_period"]:
            self.stop()

    def stop(self):
        p = self.phase
        status = (json.loads(json.dumps(self.clients)), self.status())
        if p.stopping is None:
            p.stopping = self.now
        if p.state == "starting_dcs":
            p.wait_shares, p.error, p.state = set(), True, "stopping"
            p.wait_counts = set(p.members())
            self.labels.add("stopped before shares")
        elif p.state in ("starting_sks", "started"):
            if p.state == "starting_sks":
                self.labels.add("stopped before keepers")
            p.state, p.wait_counts = "stopping", set(p.members())
        elif not p.wait_counts:
            self.finish(status)

    def finish(self, status):
        p = self.phase
        end = self.now
        self.done += 1
        tally = None
        if not p.error and p.counts:
            tally = combine(p.conf["bins"], list(p.counts.values()))
        self.labels.add("tally" if tally is not None else "no tally")
        if tally is not None and self.starts > 1:
            self.labels.add("later tally")
        self.results.append(dict(begin=p.begin, stopping=p.stopping, end=end, tally=tally, padding=p.padding, clients=status[0],
                                 configs=p.configs, server=status[1], conf=p.conf, counts=p.counts, error=p.error,
                                 members=p.members()))
        if not p.error:
            self.labels.add("rounds: %d" % min(self.done, 4))
            # an equivalent allocation keeps the first one of its series
            if self.last_noise is None or self.config["always_delay"] or self.differs(
                    p.conf["sigma"], self.config["sigma_decrease_tolerance"]):
                self.last_noise = p.conf["sigma"]
            self.last_end = end
        self.phase = None
        self.idle_since = self.now

    # -- status ------------------------------------------------------------
    def recent(self, u):
        p = self.phase
        if p is None:
            return True
        last = self.clients[u].get("last_event_time", p.begin + p.padding)
        return self.now - last <= HOUR + 2 * self.config["checkin_period"] + self.rtt(u)

    def status(self):
        c, p = self.config, self.phase
        di, da = self.in_state("DataCollector", "idle"), self.in_state("DataCollector", "active")
        si, sa = self.in_state("ShareKeeper", "idle"), self.in_state("ShareKeeper", "active")
        control = [u for u in da if "tor_privcount_version" in self.clients[u]]
        out = {"state": "active" if p else "idle", "time": p.begin if p else self.idle_since,
               "dcs_idle": len(di), "dcs_active": len(da), "dcs_total": len(di) + len(da), "dcs_required": c["dc_threshold"],
               "dcs_control": len(control), "dcs_event": len([u for u in control if self.recent(u)]),
               "sks_idle": len(si), "sks_active": len(sa), "sks_total": len(si) + len(sa), "sks_required": c["sk_threshold"],
               "completed_phases": self.done, "continue": c["continue"], "delay_until": max(self.earliest(), c["start_at"])}
        if p:
            out["expected_end_time"] = p.begin + c["collect_period"]
        return out

    # -- messages ----------------------------------------------------------
    def open(self, who):
        self.conns[who] = {"sent": self.now, "uid": None, "closed": False}
        return [("STATUS", self.status())]

    def close(self, who):
        self.conns.pop(who, None)

    def got_status(self, who, when, status):
        conn = self.conns.get(who)
        if conn is None or conn["closed"]:
            return []
        s = dict(status, alive=self.now, clock_skew=0.0, rtt=0.0)
        if conn["sent"] > 0:
            s["rtt"] = self.now - conn["sent"]
            s["clock_skew"] = abs(self.now - s["rtt"] / 2.0 - when)
            conn["sent"] = 0
        uid = conn["uid"] = s["name"]
        version = (s.get("privcount_version") or "").split(" ")[0]
        if s["type"] == "DataCollector" and version in ("1.0.0", "1.0.1", ""):
            self.labels.add("old version")
        else:
            old = self.clients.get(uid)
            merged = dict(old or {}, **s)
            merged["time"] = old["time"] if old and old["state"] == s["state"] else s["alive"]
            if old and old.get("fingerprint") is not None:
                if s.get("fingerprint") not in (None, old["fingerprint"]):
                    self.labels.add("fingerprint changed")
                merged["fingerprint"] = old["fingerprint"]
            if old is None:
                self.clients[uid] = merged
            else:
                old.clear()
                old.update(merged)
        p = self.phase
        if p and uid in p.wait_counts:
            return [("STOP", {"send_counters": not p.error})]
        if p is None and uid in self.clients and self.clients[uid]["state"] == "active":
            self.labels.add("stale client")
            return [("STOP", {"send_counters": False})]
        if p and uid in p.wait_shares and p.state == "starting_dcs" and uid in p.dcs:
            return [("START", self.dc_start(p))]
        if p and uid in p.wait_shares and p.state == "starting_sks" and uid in p.sks:
            return [("START", self.sk_start(p, uid))]
        return [("CHECKIN", int(self.config["checkin_period"]))]

    @staticmethod
    def common(p):
        c = p.conf
        return {"counters": {k: {"bins": v} for k, v in c["bins"].items()}, "noise": c["sigma"], "noise_weight": c["noise_weight"],
                "dc_threshold": c["dc_threshold"], "collect_period": c["collect_period"]}

    def dc_start(self, p):
        c = p.conf
        return dict(self.common(p), sharekeepers={u: base64.b64encode(k.encode()).decode() for u, k in p.keys.items()},
                    defer_time=p.padding, max_cell_events_per_circuit=c["max_cell_events_per_circuit"],
                    circuit_sample_rate=c["circuit_sample_rate"], lists=c["lists"], maps=c["maps"])

    def sk_start(self, p, uid):
        return dict(self.common(p), shares=p.shares[uid])

    def got_start(self, who, data):
        conn = self.conns.get(who)
        if conn is None or conn["closed"]:
            return []
        uid, p = conn["uid"], self.phase
        conn["sent"] = self.now
        if p is None or data is None:
            pass
        elif uid in p.dcs:
            if uid in p.wait_shares and p.state == "starting_dcs":
                if all(s in data for s in p.sks):
                    for s in p.sks:
                        p.shares[s].append(data[s])
                    p.wait_shares.remove(uid)
                    if not p.wait_shares:
                        p.wait_shares = set(p.sks)
                        p.state = "starting_sks"
                else:
                    self.labels.add("shares missing")
            else:
                self.labels.add("start twice")
        elif uid in p.sks:
            if uid in p.wait_shares and p.state == "starting_sks":
                p.wait_shares.remove(uid)
                if not p.wait_shares:
                    p.state = "started"
                    self.labels.add("all started")
            elif p.state == "starting_dcs":
                self.labels.add("keeper starts early")
        else:
            self.labels.add("outsider starts")
        return [("STATUS", self.status())]

    def got_stop(self, who, data):
        conn = self.conns.get(who)
        if conn is None or conn["closed"]:
            return []
        uid, p = conn["uid"], self.phase
        conn["sent"] = self.now
        if p is None or data is None:
            pass
        else:
            if data.get("Config") is not None:
                p.configs[uid] = clone(data["Config"])
            if uid not in p.members():
                self.labels.add("outsider stops")
            elif uid in p.wait_counts:
                counts = data.get("Counts")
                if not p.error:
                    if not counts:
                        p.error = True
                        self.labels.add("no counts" if counts is None else "empty counts")
                        if p.counts:
                            self.labels.add("no counts after counts")
                    else:
                        p.counts[uid] = counts
                elif counts:
                    self.labels.add("counts after an error")
                p.wait_counts.remove(uid)
            else:
                self.labels.add("stop twice" if p.state == "stopping" else "stop too early")
        return [("STATUS", self.status())]

    def got_checkin(self, who):
        if who in self.conns:
            self.conns[who]["closed"] = True
        return []


def combine(bins, reports):
    """the sum of the reports; None if one of them does not fit"""
    out = {k: [0] * len(v) for k, v in bins.items()}
    for r in reports:
        if any(k not in r or len(r[k]["bins"]) != len(bins[k]) or any(len(b) < 3 for b in r[k]["bins"]) for k in bins):
            return None
        for k in bins:
            out[k] = [(a + b[2]) % Q for a, b in zip(out[k], r[k]["bins"])]
    return {k: [x - Q if x >= Q // 2 else x for x in v] for k, v in out.items()}


# --- generation ----------------------------------------------------------------

LISTED = {"ExitDomainExactMatchWebInitialStreamCountList": "domain", "EntryConnectionCountryMatchCountList": "country",
          "EntryConnectionASMatchCountList": "as", "HSDir2StoreOnionAddressCountList": "onion_address",
          "HSDir2StoreReasonCountList": "hsdir_store", "HSDir2FetchReasonCountList": "hsdir_fetch",
          "MidFailureCircuitReasonCountList": "circuit_failure"}
PLAIN = {"ExitStreamCount": [[0.0, INF]], "EntryConnectionCount": [[0.0, INF]],
         "ExitStreamByteHistogram": [[0.0, 512.0], [512.0, 4096.0], [4096.0, INF]],
         "MidActiveCircuitCellRatio": [[-INF, -1.0], [-1.0, 1.0], [1.0, INF]]}


@st.composite
def configs(draw, profile):
    ts = dict(event_period=draw(st.sampled_from([60, 60, 30, 120])), checkin_period=draw(st.sampled_from([60, 30, 45])),
              collect_period=draw(st.sampled_from([240, 300, 600, 90])),
              dc_threshold=draw(st.sampled_from([1, 1, 2])), sk_threshold=draw(st.sampled_from([1, 1, 2])),
              noise_weight={"*": 1.0})
    ts["continue"] = draw(st.sampled_from([True, True, True, 2, 3, False, 0] if profile == "time" else [True, True, 2, False]))
    c = dict(ts=ts)
    if draw(st.integers(0, 3)) and profile == "time":
        ts["delay_period"] = draw(st.sampled_from([100, 300, 300, 600, 0, -1]))
        ts["always_delay"] = draw(st.sampled_from([False, True]))
        ts["sigma_decrease_tolerance"] = draw(st.sampled_from([1e-6, 0.5]))
    if draw(st.integers(0, 2)) == 0:
        ts["circuit_sample_rate"] = draw(st.sampled_from([0.0, 0.25, 1.0]))
        ts["max_cell_events_per_circuit"] = draw(st.sampled_from([-1, 0, 17]))
    if draw(st.integers(0, 3)) == 0 and profile == "time":
        c["drop"] = draw(st.sampled_from([["event_period"], ["checkin_period"], ["delay_period"]]))
        for k in c["drop"]:
            ts.pop(k, None)
    if draw(st.integers(0, 4)) == 0 and profile == "time":
        at = draw(st.integers(1, 20)) * 60
        c["start_at"] = START + at
        ts["start_after"] = "2017-07-14T%02d:%02d:00Z" % (2 + (40 + at // 60) // 60, (40 + at // 60) % 60)
    names = draw(st.lists(st.sampled_from(sorted(PLAIN)), min_size=1, max_size=2, unique=True))
    c["counters"] = {n: {"bins": PLAIN[n]} for n in names}
    if profile == "context" or draw(st.integers(0, 5)) == 0:
        c["lists"] = {}
        for n in draw(st.lists(st.sampled_from(sorted(LISTED)), max_size=3, unique=True)):
            c["counters"][n] = {"bins": [[0.0, INF]]}
            c["lists"][LISTED[n]] = draw(lists(LISTED[n]))
        if "as" in c["lists"]:
            c["maps"] = ["10.0.%d.0/24\t%d\n11.0.0.0/8\t7\n12.0.0.0/8\t8\n" % (i, i + 5) for i in range(1)] + \
                        ["2001:db8::/32\t9\n2001:db9::/32\t10\n2001:dba::/32\t11\n"]
    if draw(st.integers(0, 4)) == 0:
        ts["noise_weight"] = {"A" * 40: 1.0, "B" * 40: 2.5, "C" * 40: 0.5}
    c["sigmas"] = {n: draw(st.sampled_from([0.0, 1.0, 10.0, 10.25])) for n in c["counters"]}
    return c


def words(kind, i, n):
    if kind == "domain":
        return ["w%d-%d.example" % (i, j) for j in range(n)]
    if kind == "country":
        return [chr(97 + i) + chr(97 + j) for j in range(n)]
    if kind == "as":
        return [str(1000 * (i + 1) + j) for j in range(n)]
    if kind == "onion_address":
        return ["abcdefghijklmn%s%s" % ("abcdefgh"[i], "abcdefghijklmnopqrstuvwxyz"[j]) for j in range(n)]
    return ["reason%d%s" % (i, chr(97 + j)) for j in range(n)]


@st.composite
def lists(draw, kind):
    return [words(kind, i, draw(st.sampled_from([1, 2, 3, 5, 26]))) for i in range(draw(st.integers(1, 3)))]


DEFECTS = ["dc threshold", "sk threshold", "period", "unknown counter", "no sigma", "weights", "no collect_period", "bins",
           "sample rate"]


@st.composite
def changed(draw, c):
    """the configuration after an edit by the operator"""
    n = json.loads(json.dumps({k: v for k, v in c.items() if k != "bad"}))
    if draw(st.integers(0, 3)) == 0:
        d = draw(st.sampled_from(DEFECTS))
        n["bad"] = d
        good = c
        if d == "dc threshold":
            n["ts"]["dc_threshold"] = 0
        elif d == "sk threshold":
            n["ts"]["sk_threshold"] = -1
        elif d == "period":
            n["ts"]["collect_period"] = draw(st.sampled_from([0, 1, -600]))
        elif d == "unknown counter":
            n["counters"]["Bogus"] = {"bins": [[0.0, INF]]}
            n["sigmas"]["Bogus"] = 1.0
        elif d == "no sigma":
            del n["sigmas"][sorted(n["sigmas"])[0]]
        elif d == "weights":
            n["ts"]["noise_weight"] = {"*": -1.0}
        elif d == "no collect_period":
            n["drop"] = ["collect_period"]
        elif d == "bins":
            n["counters"]["ExitStreamByteHistogram"] = {"bins": [[0.0, 5.0], [3.0, 9.0]]}
            n["sigmas"]["ExitStreamByteHistogram"] = 1.0
        elif d == "sample rate":
            n["ts"]["circuit_sample_rate"] = 1.5
        return n, good
    for k in draw(st.lists(st.sampled_from(["dc_threshold", "sk_threshold", "continue", "sigma", "counter", "checkin_period",
                                            "collect_period", "delay_period", "list"]), min_size=1, max_size=2)):
        if k == "sigma":
            m = draw(st.sampled_from(sorted(n["sigmas"])))
            n["sigmas"][m] = draw(st.sampled_from([0.0, 1.0, 10.0, 10.25, 9.75]))
        elif k == "counter":
            m = draw(st.sampled_from(sorted(PLAIN)))
            if m in n["counters"] and len(n["counters"]) > 1:
                del n["counters"][m], n["sigmas"][m]
            else:
                n["counters"][m] = {"bins": PLAIN[m]}
                n["sigmas"][m] = 1.0
        elif k == "continue":
            n["ts"][k] = draw(st.sampled_from([True, False, 1, 2, 4]))
        elif k == "checkin_period":
            if "checkin_period" in n["ts"]:
                n["ts"][k] = draw(st.sampled_from([15, 60, 90]))
        elif k == "collect_period":
            n["ts"][k] = draw(st.sampled_from([180, 240, 600]))
        elif k == "delay_period":
            if k not in n.get("drop", []):
                n["ts"][k] = draw(st.sampled_from([0, 60, 300]))
        elif k == "list":
            for kind in sorted(n.get("lists", {})):
                n["lists"][kind] = draw(lists(kind))
        else:
            n["ts"][k] = draw(st.sampled_from([1, 1, 2, 3]))
    return n, n


class Client:
    def __init__(self, who, typ):
        self.who, self.typ = who, typ
        self.state = "idle"
        self.version = "3.0.0"
        self.finger = None
        self.extra = {}
        self.owed = None        # the command this client has not answered
        self.round = 0


class History:
    """builds the list of steps with a model at its side"""
    def __init__(self, draw, conf, profile):
        self.draw, self.profile = draw, profile
        self.m = Server(conf)
        self.good = conf
        self.steps = []
        self.serial = 0
        self.budget = 160
        self.rnd = random.Random(draw(st.integers(0, 2 ** 32)))

    def add(self, *step):
        self.steps.append(list(step))
        self.budget -= 1
        return self.play(self.m, self.steps[-1])

    @staticmethod
    def play(m, s):
        """the server's answers to a step, by the model"""
        if s[0] == "tick":
            m.advance(s[1])
        elif s[0] == "config":
            m.load(s[1])
        elif s[0] == "open":
            return m.open(s[1])
        elif s[0] == "close":
            m.close(s[1])
        elif s[0] == "send":
            out = []
            for line in s[2]:
                word, _, rest = line.partition(" ")
                if word == "STATUS":
                    t, _, body = rest.partition(" ")
                    out += m.got_status(s[1], float(t), json.loads(body))
                elif word in ("START", "STOP"):
                    data = json.loads(rest[8:]) if rest.startswith("SUCCESS ") else None
                    out += (m.got_start if word == "START" else m.got_stop)(s[1], data)
                elif word == "CHECKIN":
                    out += m.got_checkin(s[1])
            return out
        return []

    # -- clients -----------------------------------------------------------
    def status_line(self, c):
        s = {"name": c.who, "type": c.typ, "state": c.state}
        if c.version is not None:
            s["privcount_version"] = c.version
        if c.typ == "ShareKeeper":
            s["public_key"] = "PUBLIC-KEY-OF-" + c.who
        elif c.finger:
            s["fingerprint"] = c.finger
        s.update(c.extra)
        skew = self.draw(st.sampled_from([0, 0, 0.25, -3.0, 40.0])) if self.profile == "time" else 0
        return "STATUS %r %s" % (self.m.now + skew, json.dumps(s, sort_keys=True))

    def start_data(self, c, kind="good"):
        self.serial += 1
        if c.typ == "ShareKeeper":
            return {"result": "success %d" % self.serial}
        p = self.m.phase
        sks = list(p.sks) if p else ["sk0"]
        if kind == "missing" and sks:
            sks = sks[1:]
        elif kind == "extra":
            sks = sks + ["stranger"]
        return {s: {"secret": "SHARE-%s-%s-%d" % (c.who, s, self.serial)} for s in sks}

    def stop_data(self, c, kind):
        self.serial += 1
        p = self.m.phase
        bins = (p.conf if p else self.m.config)["bins"]
        top = Q if self.rnd.random() < 0.8 else 1000
        counts = {k: {"bins": [list(b) + [self.rnd.randrange(top)] for b in v]} for k, v in bins.items()}
        cfg = {"name": c.who, "state": "/STATE-PATH-%s" % c.who, "secret_handshake": "/SECRET-PATH-%s" % c.who,
               "delay_period": self.serial, "Start": {"counters": {"ExitStreamCount": {"bins": [[0.0, INF]]}},
               "noise": {"counters": {"ExitStreamCount": {"sigma": 1.0}}}, "noise_weight": {"*": 1.0}, "collect_period": 5}}
        if c.typ == "DataCollector":
            cfg["Start"]["sharekeepers"] = {"sk0": "PUBLIC-KEY-OF-sk0"}
            cfg["Start"]["defer_time"] = 12.5
        else:
            cfg["key"] = "/KEY-PATH-%s" % c.who
        if self.rnd.random() < 0.2:
            del cfg["Start"]
        out = {"Config": cfg}
        if kind in ("good", "bare"):
            out["Counts"] = counts
        elif kind == "empty":
            out["Counts"] = {}
        elif kind == "missing counter":
            del counts[sorted(counts)[self.rnd.randrange(len(counts))]]
            out["Counts"] = counts
        elif kind == "missing bin":
            k = sorted(counts)[self.rnd.randrange(len(counts))]
            del counts[k]["bins"][-1]
            out["Counts"] = counts
        elif kind == "extra counter":
            counts["MidCircuitCount"] = {"bins": [[0.0, INF, 7]]}
            out["Counts"] = counts
        if kind == "bare":
            del out["Config"]
        return out

    def visit(self, c, smooth):
        """a client connects, reports and answers"""
        d = self.draw
        self.add("open", c.who)
        lag = d(st.sampled_from([0.25, 0.5] if smooth else [0.25, 0.25, 0.0, 2.0, 20.0]))
        self.converse(c, smooth, lag)

    def converse(self, c, smooth, lag):
        d = self.draw
        for _ in range(5):
            if lag:
                self.add("tick", lag)
            answer = self.add("send", c.who, [self.status_line(c)])
            if not answer:
                return
            word, body = answer[-1]
            c.owed = None
            if word == "CHECKIN":
                if smooth or d(st.integers(0, 4)):
                    self.add("send", c.who, ["CHECKIN SUCCESS"])
                return
            how = "good" if smooth else d(st.sampled_from(["good"] * 5 + ["fail", "drop", "hold", "odd", "odd", "twice"]))
            if how == "drop":
                # does the client obey before the connection breaks?
                if d(st.booleans()):
                    c.state = "active" if word == "START" else "idle"
                self.add("close", c.who)
                return
            if how == "hold":
                c.owed = word
                return
            if how == "fail":
                self.add("send", c.who, ["%s FAIL" % word])
                lag = 0.25
                if d(st.booleans()):
                    self.add("close", c.who)
                    return
                continue
            self.reply(c, word, how, body)
            lag = 0.25

    def reply(self, c, word, how, body):
        d = self.draw
        if word == "START":
            kind = "good"
            if how == "odd":
                kind = d(st.sampled_from(["missing", "extra"]))
            data = self.start_data(c, kind)
            c.state = "active"
            lines = ["START SUCCESS " + json.dumps(data)]
            if how == "twice":
                lines.append("START SUCCESS " + json.dumps(self.start_data(c)))
        else:
            kind = "good"
            if c.state == "idle" or not body.get("send_counters"):
                kind = "none"
            elif how == "odd":
                kind = d(st.sampled_from(["none", "empty", "missing counter", "missing bin", "extra counter", "bare"]))
            c.state = "idle"
            lines = ["STOP SUCCESS " + json.dumps(self.stop_data(c, kind))]
            if how == "twice":
                lines.append("STOP SUCCESS " + json.dumps(self.stop_data(c, d(st.sampled_from(["good", "none"])))))
        self.add("send", c.who, lines)


@st.composite
def histories(draw, profile):
    conf = draw(configs(profile))
    h = History(draw, conf, profile)
    enough = draw(st.integers(0, 5)) > 0
    need = lambda k: conf["ts"][k + "_threshold"] if enough else 1
    clients = [Client("dc%d" % i, "DataCollector") for i in range(max(draw(st.integers(1, 3)), need("dc")))]
    clients += [Client("sk%d" % i, "ShareKeeper") for i in range(max(draw(st.integers(1, 2)), need("sk")))]
    for c in clients:
        if c.typ == "DataCollector" and draw(st.integers(0, 11)) == 0:
            c.version = draw(st.sampled_from(["1.0.0", "1.0.1 (abc)", "1.0.1", "1.0.2", "1.0.10", None]))
        elif draw(st.integers(0, 9)) == 0 and c.typ == "ShareKeeper":
            c.version = draw(st.sampled_from(["1.0.0", None]))
        if draw(st.integers(0, 2)) == 0 and c.typ == "DataCollector":
            c.extra["nickname"] = "relay" + c.who
            c.extra["flag_list"] = ["Exit", "Guard"]
    every = st.sampled_from(clients)
    step = st.sampled_from({
        "order": ["on"] * 8 + ["all", "loop", "visit", "visit", "wait", "restart", "stray", "stray", "resume"],
        "time": ["on"] * 8 + ["all", "all", "loop", "visit", "wait", "wait", "restart", "config", "config", "facts", "silence"],
        "context": ["on"] * 10 + ["all", "visit", "facts", "stray", "config", "restart"]}[profile])
    smooth = draw(st.integers(0, 2)) == 0
    for _ in range(draw(st.integers(5, 20))):
        if h.budget < 0:
            break
        k = draw(step)
        p = h.m.phase
        if k == "on":
            # what moves the round on
            who = [c for c in clients if c.who in (p.wait_shares | p.wait_counts)] if p else clients
            if who:
                for c in draw(st.permutations(who)):
                    h.visit(c, smooth or draw(st.integers(0, 5)) > 0)
            if p and p.state == "started":
                k = "collect"
            elif not p or not p.wait_shares:
                h.add("tick", h.m.interval)
        if k == "all":
            for c in draw(st.permutations(clients)):
                if smooth or draw(st.integers(0, 9)):
                    h.visit(c, smooth or draw(st.integers(0, 4)) > 0)
            if draw(st.booleans()):
                h.add("tick", h.m.interval)
        elif k == "loop":
            h.add("tick", h.m.interval)
        elif k == "visit":
            h.visit(draw(every), smooth)
        elif k == "wait":
            h.add("tick", draw(st.sampled_from([1.0, h.m.interval / 2.0, 2 * h.m.interval, 200.0])))
        elif k == "collect":
            # up to the end of the round, with everybody checking in on the way
            d = draw(st.sampled_from([0.0, 0.0, -0.25]))
            left = max(0.25, p.begin + p.conf["collect_period"] - h.m.now + d)
            if left > 200:
                h.add("tick", left - 100)
                for c in clients:
                    h.visit(c, True)
            left = max(0.25, p.begin + p.conf["collect_period"] - h.m.now + d)
            h.add("tick", left)
        elif k == "restart":
            c = draw(every)
            c.state = "idle"
            c.owed = None
            if draw(st.booleans()):
                h.add("close", c.who)
            if draw(st.integers(0, 3)) == 0 and c.typ == "DataCollector":
                c.version = draw(st.sampled_from(["1.0.1", "2.0.0"]))
        elif k == "stray":
            # a message nobody asked for
            c = draw(every)
            conn = h.m.conns.get(c.who)
            if conn is None or conn["closed"]:
                h.add("open", c.who)
                conn = h.m.conns[c.who]
            if conn["uid"] is None and draw(st.integers(0, 3)):
                h.add("send", c.who, [h.status_line(c)])
            if draw(st.booleans()):
                h.add("send", c.who, ["START SUCCESS " + json.dumps(h.start_data(c))])
            else:
                h.add("send", c.who, ["STOP SUCCESS " + json.dumps(
                    h.stop_data(c, draw(st.sampled_from(["good", "good", "none", "empty"]))))])
        elif k == "resume":
            # an answer that took its time
            for c in clients:
                conn = h.m.conns.get(c.who)
                if c.owed and conn and not conn["closed"]:
                    h.reply(c, c.owed, draw(st.sampled_from(["good", "good", "odd", "twice"])), {"send_counters": True})
                    c.owed = None
                    if draw(st.booleans()):
                        h.converse(c, smooth, 0.25)
        elif k == "config":
            n, h.good = draw(changed(h.good))
            h.add("config", n)
        elif k == "facts":
            for c in clients:
                if c.typ == "DataCollector" and draw(st.booleans()):
                    c.finger = draw(st.sampled_from(["A" * 40, "B" * 40]))
                    c.extra["nickname"] = draw(st.sampled_from(["", "relay", "other"]))
                    if draw(st.booleans()):
                        c.extra["tor_privcount_version"] = "1.1.0"
                    if draw(st.booleans()):
                        c.extra["last_event_time"] = h.m.now - draw(st.sampled_from([0, 0, 3000.0, 4000.0]))
        elif k == "silence" and h.m.clients:
            # the last loop at which a client is still remembered, or the next one
            u = draw(st.sampled_from(sorted(h.m.clients)))
            due = h.m.clients[u]["alive"] + 7 * h.m.config["checkin_period"] + h.m.rtt(u)
            n = max(1, int((due - h.m.next_loop) // h.m.interval) + 1 + draw(st.integers(0, 1)))
            h.add("tick", h.m.next_loop + (n - 1) * h.m.interval - h.m.now)
    if h.m.phase is not None and draw(st.booleans()):
        # let everybody finish
        p = h.m.phase
        h.add("tick", max(0.25, p.begin + p.conf["collect_period"] - h.m.now))
        h.add("tick", h.m.interval)
        for c in draw(st.permutations(clients)):
            h.visit(c, True)
        h.add("tick", h.m.interval)
    return dict(config=conf, steps=h.steps)
