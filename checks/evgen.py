"""generators of Tor events, as dictionaries of typed fields"""
from hypothesis import strategies as st
from evmodel import ip, mixcase

IPV4 = ["203.0.113.7", "198.51.100.1", "10.0.0.1", "127.0.0.1", "203.0.113.8", "8.8.8.8", "192.0.2.255"]
IPV6 = ["2001:db8::1", "2001:db8:0:0::1", "::1", "2001:DB8:1::5", "fe80::1"]
PORTS = [80, 443, 22, 194, 994, 6660, 6665, 6670, 6671, 6659, 6679, 6697, 7000, 6999, 6881, 6880, 1214, 4661, 4666,
         4667, 4660, 6346, 6429, 6430, 6345, 6699, 45682, 51413, 8080, 0, 65535, 81, 442, 444, 7001]
LABELS = ["example", "com", "org", "www", "mail", "co", "uk", "x", "ample", "a-b"]

times = st.one_of(st.sampled_from([0.0, 1.0, 1500000000.0, 1500000000.5]),
                  st.integers(0, 8 * 10 ** 6).map(lambda i: i / 8.0),
                  st.integers(0, 8 * 10 ** 5).map(lambda i: 1499990000 + i / 8.0))
sizes = st.one_of(st.integers(0, 10), st.integers(0, 2 ** 20), st.integers(0, 2 ** 40),
                  st.sampled_from([0, 1, 7, 8, 9, 498, 2 ** 32, 2 ** 50]))
cells = st.one_of(st.integers(0, 9), st.sampled_from([3, 4, 5, 7, 8]), st.integers(0, 2 ** 30))
chan = st.integers(0, 3)

domain = st.lists(st.sampled_from(LABELS), min_size=1, max_size=3).map(".".join)


def disjoint(lists):
    """as the tally server makes them: no item covers one in another list"""
    out = []
    seen = []
    for i, l in enumerate(lists):
        keep = []
        for d in l:
            d = d.lower()
            if any(j != i and (d == x or d.endswith("." + x) or x.endswith("." + d)) for j, x in seen):
                continue
            seen.append((i, d))
            keep.append(d)
        out.append(keep)
    return [l for l in out if l]


domain_lists = st.lists(st.lists(domain, min_size=1, max_size=4), min_size=0, max_size=3).map(disjoint)


def split(lists):
    out, seen = [], set()
    for l in lists:
        k = [x for x in dict.fromkeys(l) if x not in seen]
        seen.update(k)
        if k:
            out.append(k)
    return out


def lists_of(items, n=3):
    return st.lists(st.lists(items, min_size=1, max_size=3), min_size=0, max_size=n).map(split)


@st.composite
def hosts(draw, lists):
    kind = draw(st.integers(0, 5))
    if kind == 0:
        return draw(st.sampled_from(IPV4 + IPV6))
    if kind == 1 or not any(lists):
        d = draw(domain)
    else:
        d = draw(st.sampled_from([x for l in lists for x in l]))
        d = draw(st.sampled_from(["", "", "www.", "a.b.", "x", ".", "not-"])) + d
        d = d.lstrip(".")
    if draw(st.integers(0, 3)) == 0:
        d = mixcase(d, draw(st.integers(0, 2 ** 16 - 1)))
    return d


@st.composite
def stream(draw, lists=()):
    start = draw(times)
    return dict(chan=draw(chan), circ=draw(chan), stream=draw(st.integers(0, 65535)),
                port=draw(st.one_of(st.sampled_from([80, 443]), st.sampled_from(PORTS), st.integers(1, 65535))),
                read=draw(sizes), write=draw(sizes), start=start,
                end=start + draw(st.sampled_from([0, 0.125, 1, 60, 100000])),
                host=draw(hosts(list(lists))),
                ip=draw(st.sampled_from(IPV4 + IPV6 + ["0.0.0.0", "(null)", "unknown"])),
                num=draw(st.sampled_from([1, 1, 1, 2, 3, 0, 100])))


def fmt_float(x):
    return repr(float(x))


def stream_items(e):
    return ["PRIVCOUNT_STREAM_ENDED"] + [str(x) for x in (
        e["chan"], e["circ"], e["stream"], e["port"], e["read"], e["write"])] + [
        fmt_float(e["start"]), fmt_float(e["end"]), e["host"], e["ip"], str(e["num"])]


def fields_items(name, e, order=None):
    items = ["%s=%s" % (k, fmt_float(v) if isinstance(v, float) else v) for k, v in e.items() if k != "_e"]
    if order is not None:
        import random
        random.Random(order).shuffle(items)
    return [name] + items


flag = st.sampled_from([0, 1])
REASONS = ["internal", "requested", "TIMEOUT", "destroyed", "a" * 50, "no-such-service", "tor_protocol", "x"]


@st.composite
def some(draw, d, p=2):
    """each optional field is there about 1/p of the time"""
    return {k: draw(s) for k, s in d.items() if draw(st.integers(0, p * 2 - 1)) < 2}


def common(prefix=""):
    d = {"IsOriginFlag": flag, "IsEntryFlag": flag, "IsMidFlag": flag, "IsEndFlag": flag,
         "IsExitFlag": flag, "IsDirFlag": flag, "IsHSDirFlag": flag, "IsIntroFlag": flag,
         "IsRendFlag": flag, "IsClientIntroLegacyFlag": flag, "IsHSClientSideFlag": flag,
         "IsMarkedForCloseFlag": flag, "HiddenServiceVersionNumber": st.sampled_from([2, 3]),
         "HasReceivedCreateCellFlag": flag, "OnionHandshakeType": st.integers(0, 2),
         "FailureReasonString": st.sampled_from(REASONS), "ExitStreamCount": st.sampled_from([1, 2, 1000]),
         "NextChannelId": chan, "NextCircuitId": chan, "PreviousChannelId": chan, "PreviousCircuitId": chan}
    return {prefix + k: v for k, v in d.items()}


@st.composite
def circuit(draw, reasons=(), now=1500000000.0):
    created = draw(times)
    e = {"EventTimestamp": created + draw(st.sampled_from([0, 0.25, 10, 3600, 86400.5])), "CreatedTimestamp": created,
         "IsLegacyCircuitEndEventFlag": draw(st.sampled_from([1, 1, 0])), "StateString": draw(st.sampled_from(["open", "building", "s" * 50])),
         "PurposeCode": draw(st.integers(1, 20))}
    shape = draw(st.integers(0, 9))
    ids = {"PreviousChannelId": draw(chan), "PreviousCircuitId": draw(chan),
           "InboundExitByteCount": draw(sizes), "OutboundExitByteCount": draw(sizes)}
    cellf = {k + "CellCount": cells for k in ("InboundSent", "InboundReceived", "OutboundSent", "OutboundReceived",
                                              "InboundExit", "OutboundExit")}
    if shape <= 2:          # exit
        e.update(IsExitFlag=1, IsEndFlag=1)
        e.update(ids)
        if shape == 2:
            e["IsEntryFlag"] = draw(flag)
    elif shape <= 5:        # entry
        e.update(IsEntryFlag=1)
        e.update(ids)
        e["PreviousNodeIPAddress"] = draw(st.sampled_from(IPV4[:4] + IPV6[:3]))
    elif shape <= 8:        # onion service positions
        e["Is%sFlag" % draw(st.sampled_from(["HSDir", "Intro", "Rend", "Rend", "Dir"]))] = 1
        if draw(st.booleans()):
            e["IsEndFlag"] = 1
            if draw(st.booleans()):
                e["IsEntryFlag"] = 1
        if draw(st.integers(0, 3)):
            e["HiddenServiceVersionNumber"] = draw(st.sampled_from([2, 3]))
        if draw(st.integers(0, 3)):
            e["IsHSClientSideFlag"] = draw(flag)
    else:
        e.update(draw(some(common())))
        e.update(draw(some(ids and {k: st.just(v) for k, v in ids.items()})))
    if draw(st.integers(0, 3)) == 0:
        e["FailureReasonString"] = draw(st.sampled_from(REASONS))
    if draw(st.integers(0, 3)) == 0:
        for k in ("IsOriginFlag", "IsMidFlag", "IsEndFlag", "IsDirFlag", "IsExitFlag"):
            if draw(st.booleans()):
                e[k] = draw(flag)
    e.update(draw(some(cellf, 1 if draw(st.booleans()) else 3)))
    if draw(st.integers(0, 4)) == 0:
        e.update(draw(some(common(draw(st.sampled_from(["IntroClientSink", "RendSplice"]))), 4)))
        e.update(draw(some({"PurposeString": st.sampled_from(["p", "q" * 50]), "HSStateString": st.sampled_from(["h", "i" * 50]),
                            "InboundDirByteCount": sizes, "OutboundDirByteCount": sizes,
                            "NextNodeIPAddress": st.sampled_from(IPV4 + IPV6), "NextNodeFingerprint": st.just("F" * 40),
                            "NextNodeRelayFlagList": st.sampled_from(["Running", "Running,Valid", ",".join("abcdefghijklmnopqrst")]),
                            "PreviousNodeFingerprint": st.just("0" * 40),
                            "NewerTorField": st.sampled_from(["", "1", "x"])}, 3)))
    return e


COUNTRIES = ["us", "de", "fr", "gb", "!!", "??"]
AS_NUMBERS = [1, 2, 3, 4000000000, 64512]
PREFIXES4 = ["0.0.0.0/0", "203.0.113.0/24", "203.0.113.7/32", "203.0.112.0/20", "10.0.0.0/8", "198.51.100.0/31", "8.0.0.0/6"]
PREFIXES6 = ["::/0", "2001:db8::/32", "2001:db8::/64", "2001:db8::1/128", "fe80::/10"]


@st.composite
def as_maps(draw):
    out = {}
    for v, pool in (("4", PREFIXES4), ("6", PREFIXES6)):
        if draw(st.integers(0, 3)):
            nets = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True))
            out[v] = "\n".join("%s\t%d" % (n, draw(st.sampled_from(AS_NUMBERS))) for n in nets)
    return out


@st.composite
def connection(draw):
    created = draw(times)
    e = {"EventTimestamp": created + draw(st.sampled_from([0, 0.5, 3600.0])), "CreatedTimestamp": created,
         "ChannelId": draw(sizes), "RemoteIsClientFlag": draw(flag), "RemoteIPAddress": draw(st.sampled_from(IPV4 + IPV6)),
         "RemoteIPAddressConnectionCount": draw(st.sampled_from([0, 1, 2, 5, 2 ** 17])),
         "PeerIPAddressConsensusRelayCount": draw(st.sampled_from([0, 0, 1, 2, 3, 7, 100]))}
    e.update(draw(some({"InboundByteCount": sizes, "OutboundByteCount": sizes, "InboundCircuitCount": cells,
                        "OutboundCircuitCount": cells, "RemoteCountryCode": st.sampled_from(COUNTRIES + ["US", "De", "zz"]),
                        "PeerIPAddress": st.sampled_from(IPV4 + IPV6), "NewerTorField": st.just("1")}, 1)))
    if draw(st.integers(0, 7)) == 0:
        for k in ("InboundByteCount", "OutboundByteCount", "RemoteCountryCode"):
            e.pop(k, None)
    return e


ONIONS = ["facebookcorewwwi", "expyuzz4wqqyqhjn", "abcdefghij234567", "zzzzzzzzzzzzzzzz"]


@st.composite
def hsdir(draw, op):
    v = draw(st.sampled_from([2, 3]))
    ts = draw(times)
    cap = 40960 if v == 2 else 1048576
    e = {"HiddenServiceVersionNumber": v, "EventTimestamp": ts, "CacheReasonString": draw(st.sampled_from(REASONS))}
    if op == "Store":
        e["WasAddedToCacheFlag"] = draw(flag)
        e.update(draw(some({"HasExistingCacheEntryFlag": flag}, 1)))
    else:
        e["CacheQueryByteCount"] = draw(sizes)
        e.update(draw(some({"HasCacheEntryFlag": flag, "HasExistingCacheEntryFlag": flag}, 1)))
    desc = draw(st.one_of(st.sampled_from([0, 1, cap]), st.integers(0, cap)))
    intro = draw(st.one_of(st.sampled_from([0, desc]), st.integers(0, desc)))
    e.update(draw(some({"EncodedDescriptorByteCount": st.just(desc)}, 1)))
    e.update(draw(some({"EncodedIntroPointByteCount": st.just(intro)}, 1)))
    if v == 2:
        e.update(draw(some({"RequiresClientAuthFlag": flag, "IntroPointCount": st.integers(0, 10),
                            "OnionAddress": st.sampled_from(ONIONS + [o.upper() for o in ONIONS[:2]]),
                            "DescriptorCreationTime": st.sampled_from([max(0.0, ts - 3600), ts, 0.0]),
                            "DescriptorIdBase32String": st.just("a" * 32),
                            "SupportedProtocolBitfield": st.sampled_from(["0xc", "0xd", "0xff", "c"]),
                            "IntroPointFingerprintList": st.sampled_from(["", "A" * 40, "A" * 40 + "," + "B" * 40])}, 1)))
        if op == "Fetch":
            e.update(draw(some({"CacheLastServedTime": sizes}, 2)))
    else:
        e.update(draw(some({"RevisionNumber": sizes, "DescriptorLifetime": st.sampled_from([10800, 3600]),
                            "BlindedEd25519PublicKeyBase64String": st.just("b" * 43)}, 1)))
        if op == "Fetch":
            e.update(draw(some({"CacheCreatedTime": sizes}, 2)))
    return e
