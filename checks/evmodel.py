"""
Reference model of what each Tor event adds to which counter, written from
doc/TorEvents.markdown, doc/CounterDefinitions and the comments in
data_collector.py. A Model collects (counter, bin value, increment) triples; the
bin value is None for single-bin counters.
"""
import hashlib
import ipaddress
import math
import os
import random

from gens import INF, in_bin

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
EVENTS = {}
for _l in open(os.path.join(DATA, "counters.txt")):
    if not _l.startswith("#"):
        _p = _l.split()
        EVENTS[_p[0]] = _p[1:]
KNOWN = set(EVENTS)


def family(*events):
    return sorted(n for n in KNOWN if any(e in EVENTS[n] for e in events))

WEB = {80, 443}
INTERACTIVE = {22, 194, 994, 6679, 6697, 7000} | set(range(6660, 6671))
P2P = {1214, 6699, 45682, 51413} | set(range(4661, 4667)) | set(range(6346, 6430)) | set(range(6881, 7000))


def port_class(p):
    return "Web" if p in WEB else "Interactive" if p in INTERACTIVE else "P2P" if p in P2P else "OtherPort"


def ip(s):
    try:
        return ipaddress.ip_address(s)
    except ValueError:
        return None


BIG = 1000.0


def ratio(i, o):
    """log2(outbound / inbound); +-BIG for any finite value beyond +-100"""
    if i == 0 and o == 0:
        return 0.0
    if i == 0:
        return BIG
    if o == 0:
        return -BIG
    return math.log2(o / i)


def first(lists, test):
    for i, l in enumerate(lists):
        if any(test(x) for x in l):
            return float(i)
    return INF


def exact_bin(lists, s):
    s = s.lower()
    return first(lists, lambda x: x.lower() == s)


def suffix_bin(lists, host):
    h = host.lower().strip(".")
    return first(lists, lambda x: h == x.lower().strip(".") or h.endswith("." + x.lower().strip(".")))


def onion_bin(lists, addr):
    a = addr.lower()
    m = hashlib.md5((a + ".onion").encode()).hexdigest()
    return first(lists, lambda x: x.lower() in (a, m))


class Model:
    def __init__(self, collected, conf=None, start=0.0):
        self.collected = set(collected)
        self.conf = conf or {}
        self.out = []
        self.circ = {}
        self.cur, self.prev = {}, {}
        self.rotated = start

    def lists(self, k):
        return self.conf.get(k, [])

    def inc(self, name, b=None, n=1):
        self.out.append((name, b, n))

    # streams

    def stream(self, e):
        r, w, total = e["read"], e["write"], e["read"] + e["write"]
        if r < 0 or w < 0 or total <= 0:
            return
        cls = port_class(e["port"])
        web = "Web" if cls == "Web" else "NonWeb"
        c = self.circ.setdefault((e["chan"], e["circ"]), {})
        c.setdefault(cls, []).append(e["start"])
        rip, hip = ip(e["ip"]), ip(e["host"])
        pos = "Initial" if e["num"] == 1 else "Subsequent"
        kind = "IPv%dLiteral" % hip.version if hip else "Hostname"
        cats = ["", cls, kind, pos, kind + pos]
        if rip:
            cats += ["IPv%d" % rip.version, "IPv%d%s" % (rip.version, pos)]
        if web == "NonWeb":
            cats.append("NonWeb")
        if kind == "Hostname":
            cats += [kind + web, kind + web + pos]
        vals = dict(t=total, w=w, r=r, ratio=ratio(r, w), life=e["end"] - e["start"])
        for k in cats:
            self.inc("Exit%sStreamCount" % k)
            self.inc("Exit%sStreamByteCount" % k, None, total)
            self.inc("Exit%sStreamOutboundByteCount" % k, None, w)
            self.inc("Exit%sStreamInboundByteCount" % k, None, r)
            self.stream_hist(k, vals)
        if kind == "Hostname" and web == "Web" and pos == "Initial":
            eb = exact_bin(self.lists("domain_lists"), e["host"])
            sb = suffix_bin(self.lists("domain_lists"), e["host"])
            for m, b in (("Exact", eb), ("Suffix", sb)):
                self.stream_hist("Domain%s%sMatchWebInitial" % ("" if b == 0 else "No", m), vals)
                p = "ExitDomain%sMatchWebInitialStream" % m
                self.inc(p + "CountList", b, 1)
                self.inc(p + "ByteCountList", b, total)
                self.inc(p + "OutboundByteCountList", b, w)
                self.inc(p + "InboundByteCountList", b, r)

    def stream_hist(self, k, v):
        p = "Exit%sStream" % k
        self.inc(p + "ByteHistogram", v["t"])
        self.inc(p + "OutboundByteHistogram", v["w"])
        self.inc(p + "InboundByteHistogram", v["r"])
        self.inc(p + "ByteRatio", v["ratio"])
        self.inc(p + "LifeTime", v["life"])

    # circuits: e maps field names to typed values

    def circuit(self, e):
        flag = lambda n: bool(e.get(n, 0))
        n_in = max(e.get("Inbound%sCellCount" % k, 0) for k in ("Received", "Sent", "Exit"))
        n_out = max(e.get("Outbound%sCellCount" % k, 0) for k in ("Received", "Sent", "Exit"))
        busy = n_in + n_out >= 8
        directory = flag("IsDirFlag")
        hsdir, intro, rend = flag("IsHSDirFlag"), flag("IsIntroFlag"), flag("IsRendFlag")
        # exit is the flag that gives way
        exit_ = flag("IsExitFlag") and not (directory or hsdir or intro or rend)
        entry, end = flag("IsEntryFlag"), flag("IsEndFlag")
        if flag("IsLegacyCircuitEndEventFlag"):
            self.legacy(e, exit_, busy)
        version = e.get("HiddenServiceVersionNumber")
        active = busy
        if exit_ or directory or hsdir:
            active = True
        if (intro or rend) and version is None:
            active = False
        reason = e.get("FailureReasonString")
        status = "Success" if reason is None else "Failure"
        act = "Active" if active else "Inactive"
        role = None
        if "IsHSClientSideFlag" in e:
            role = "Client" if flag("IsHSClientSideFlag") else "Service"
        single = entry and end
        prefixes = []
        for n, on in (("Origin", flag("IsOriginFlag")), ("Entry", entry), ("Mid", flag("IsMidFlag")), ("End", end),
                      ("SingleHop", single), ("Exit", exit_), ("Dir", directory)):
            if on:
                prefixes.append(n)
        pos = "HSDir" if hsdir else "Intro" if intro else "Rend" if rend else None
        if pos:
            vs = "U" if version is None else str(version)
            kinds = [pos]
            if role:
                hop = {"Client": "Tor2web", "Service": "SingleOnion"}[role] if single else "MultiHop"
                kinds += [pos + role, pos + hop + role]
            for k in kinds:
                prefixes += [k, k + vs]
        suffixes = [("Count", None, 1), ("InboundCellCount", None, n_in), ("OutboundCellCount", None, n_out),
                    ("InboundCellHistogram", n_in, 1), ("OutboundCellHistogram", n_out, 1),
                    ("LifeTime", e["EventTimestamp"] - e["CreatedTimestamp"], 1)]
        if active:
            suffixes.append(("CellRatio", ratio(n_in, n_out), 1))
        if reason is not None:
            suffixes.append(("ReasonCountList", exact_bin(self.lists("circuit_failure_lists"), reason), 1))
        for s, b, n in suffixes:
            for p in prefixes:
                names = [p, p + status]
                if not p.startswith(("Exit", "Dir", "HSDir")):
                    names += [p + act, p + act + status]
                for x in names:
                    self.inc("%sCircuit%s" % (x, s), b, n)
        if exit_:
            self.inc("ExitAndRend2ClientCircuitCount")
            self.inc("ExitAndRend2ServiceCircuitCount")
        if rend and version == 2 and role:
            self.inc("ExitAndRend2%sCircuitCount" % role)

    def legacy(self, e, exit_, busy):
        need = ["PreviousChannelId", "PreviousCircuitId", "InboundExitByteCount", "OutboundExitByteCount"]
        if any(n not in e for n in need):
            return
        if e.get("IsEntryFlag"):
            addr = str(ip(e.get("PreviousNodeIPAddress", "0.0.0.0")))
            c = self.cur.setdefault(addr, dict(active=False, busy=0, idle=0))
            c["active"] = c["active"] or busy
            c["busy" if busy else "idle"] += 1
            if e["CreatedTimestamp"] < self.rotated:
                p = self.prev.setdefault(addr, dict(active=False, busy=0, idle=0))
                p["active"] = p["active"] or busy
        elif exit_:
            streams = self.circ.pop((e["PreviousChannelId"], e["PreviousCircuitId"]), None)
            if streams:
                def gaps(name, times):
                    times = sorted(times)
                    for a, b in zip(times, times[1:]):
                        self.inc(name, b - a)
                every = [t for v in streams.values() for t in v]
                self.inc("ExitCircuitStreamHistogram", len(every))
                gaps("ExitCircuitInterStreamCreationTime", every)
                for cls, times in streams.items():
                    self.inc("Exit%sCircuitCount" % cls)
                    self.inc("ExitCircuit%sStreamHistogram" % cls, len(times))
                    gaps("ExitCircuit%sInterStreamCreationTime" % cls, times)

    def rotate(self, now):
        for c in self.prev.values():
            self.inc("EntryClientIPActiveCircuitHistogram", c["busy"])
            self.inc("EntryClientIPInactiveCircuitHistogram", c["idle"])
        act = sum(c["active"] for c in self.prev.values())
        self.inc("EntryClientIPCount", None, len(self.prev))
        self.inc("EntryActiveClientIPCount", None, act)
        self.inc("EntryInactiveClientIPCount", None, len(self.prev) - act)
        self.prev, self.cur, self.rotated = self.cur, {}, now

    # connections

    def connection(self, e):
        pos = "Entry" if e["RemoteIsClientFlag"] else "NonEntry"
        shared = "RelayOnAddress" if e["PeerIPAddressConsensusRelayCount"] > 0 else "NoRelayOnAddress"
        bi, bo = e.get("InboundByteCount", 0), e.get("OutboundByteCount", 0)
        ci, co = e.get("InboundCircuitCount", 0), e.get("OutboundCircuitCount", 0)
        sizes = [("Byte", bi + bo), ("InboundByte", bi), ("OutboundByte", bo),
                 ("Circuit", ci + co), ("InboundCircuit", ci), ("OutboundCircuit", co)]

        def both(suffix, b=None, n=1):
            for p in (pos, pos + shared):
                self.inc("%sConnection%s" % (p, suffix), b, n)

        def hists(sub):
            for k, v in sizes:
                both("%s%sHistogram" % (sub, k), v)
            both(sub + "LifeTime", e["EventTimestamp"] - e["CreatedTimestamp"])
            both(sub + "OverlapHistogram", e["RemoteIPAddressConnectionCount"])

        both("Count")
        for k, v in sizes:
            both(k + "Count", None, v)
        hists("")
        cb = exact_bin(self.lists("country_lists"), e.get("RemoteCountryCode", "!!"))
        ab = self.as_bin(e["RemoteIPAddress"])
        for kind, b in (("Country", cb), ("AS", ab)):
            hists(kind + ("Match" if b == 0 else "NoMatch"))
            both(kind + "MatchCountList", b)
            for k, v in sizes:
                both("%sMatch%sCountList" % (kind, k), b, v)

    def as_number(self, addr):
        a = ip(addr)
        best = None
        for line in self.conf.get("as_maps", {}).get(str(a.version), "").splitlines():
            net, asn = line.split()
            net = ipaddress.ip_network(net)
            if a in net and (best is None or net.prefixlen >= best[0]):
                best = (net.prefixlen, int(asn))
        return None if best is None else best[1]

    def as_bin(self, addr):
        n = self.as_number(addr)
        return first(self.lists("as_lists"), lambda x: x == n)

    # hidden service directories

    def hsdir(self, e, op):
        v = e["HiddenServiceVersionNumber"]
        auth = None
        if "RequiresClientAuthFlag" in e:
            auth = "ClientAuth" if e["RequiresClientAuthFlag"] else "NoClientAuth"
        cached = "Cached" if e.get("HasExistingCacheEntryFlag" if op == "Store" else "HasCacheEntryFlag") else "Uncached"
        kinds = ["", cached]
        if op == "Store":
            added = "Add" if e["WasAddedToCacheFlag"] else "Reject"
            kinds += [added, added + cached]
        vkinds = kinds + ([k + auth for k in kinds] if auth else [])

        def own(suffix, b=None, n=1):
            for k in vkinds:
                self.inc("HSDir%d%s%s%s" % (v, op, k, suffix), b, n)

        def every(suffix, b=None, n=1):
            for k in kinds:
                self.inc("HSDir%s%s%s" % (op, k, suffix), b, n)
            own(suffix, b, n)

        every("Count")
        for field, name in (("EncodedIntroPointByteCount", "IntroByte"), ("EncodedDescriptorByteCount", "DescriptorByte")):
            if field in e:
                every(name + "Count", None, e[field])
                every(name + "Histogram", e[field])
        every("ReasonCountList", exact_bin(self.lists("hsdir_store_lists" if op == "Store" else "hsdir_fetch_lists"),
                                           e["CacheReasonString"]))
        if "OnionAddress" in e:
            own("OnionAddressCountList", onion_bin(self.lists("onion_lists"), e["OnionAddress"]))
        if "IntroPointCount" in e:
            own("IntroPointHistogram", e["IntroPointCount"])
        if op == "Store" and "DescriptorCreationTime" in e:
            own("UploadDelayTime", e["EventTimestamp"] - e["DescriptorCreationTime"])
        if "RevisionNumber" in e:
            own("RevisionHistogram", e["RevisionNumber"])


def layouts(names, incs, seed):
    """bins that separate each expected value from its neighbours"""
    want = {}
    for n, b, _ in incs:
        if b is not None:
            want.setdefault(n, set()).add(float(b))
    rnd = random.Random(seed)
    out = {}
    for n in names:
        if n.endswith("Count"):
            bins = [[0.0, INF]]
        else:
            edges = set()
            for v in want.get(n, ()):
                if abs(v) != INF:
                    tol = 900.0 if abs(v) == BIG and n.endswith("Ratio") else 0.25 if v == int(v) and abs(v) < 2 ** 40 else 1e-9 * max(1.0, abs(v))
                    edges.update((v - tol, v + tol))
            if not edges:
                edges = {rnd.choice([0.0, 1.0, 100.0])}
            edges = sorted(edges)
            pts = [-INF] + edges + [INF]
            bins = [[a, b] for a, b in zip(pts, pts[1:])]
        out[n] = {"bins": bins, "sigma": 0.0}
    return out


def totals(counters, incs):
    """counts with every zero row left out"""
    t = {}
    for n, b, i in incs:
        c = counters.get(n)
        if c is None:
            continue
        row = t.setdefault(n, [0] * len(c["bins"]))
        for j, bn in enumerate(c["bins"]):
            if b is None or in_bin(bn, float(b)):
                row[j] += i
    return {n: r for n, r in t.items() if any(r)}


def pick(incs, fam, seed, limit=60, everything=False):
    """the counters to collect: those that should change and others"""
    rnd = random.Random(seed)
    hit = sorted({n for n, _, _ in incs} & KNOWN)
    if everything:
        return fam
    rest = [n for n in fam if n not in set(hit)]
    rnd.shuffle(rest)
    if len(hit) > 4 * limit:
        rnd.shuffle(hit)
        hit = hit[:4 * limit]
    return sorted(hit + rest[:limit])


def mixcase(s, bits):
    return "".join(c.upper() if bits >> (i % 16) & 1 else c for i, c in enumerate(s))
