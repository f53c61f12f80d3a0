"""Which tagged events are well formed: the field tables of doc/TorEvents.markdown with the bounds data_collector.py
puts on them. typed() gives the fields as values, or None when the event has to be ignored."""
import math
import re

from evmodel import ip


def integer(lo=None, hi=None):
    def f(v):
        if not re.fullmatch(r"[+-]?[0-9]+", v):
            return None
        n = int(v)
        return None if (lo is not None and n < lo) or (hi is not None and n > hi) else n
    return f


def number(v):
    if not re.fullmatch(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?", v):
        return None
    x = float(v)
    return None if math.isinf(x) or x < 0 else x


def text(lo, hi):
    return lambda v: v if len(v) >= lo and (hi is None or len(v) <= hi) else None


def items(lo, hi):
    return lambda v: v if lo <= (v.count(",") + 1 if v else 0) <= hi else None


def address(v):
    return v if ip(v) is not None else None

FLAG = integer(0, 1)
POS = integer(0)


def circuit_common(prefix, out):
    for n in ("IsOrigin", "IsEntry", "IsMid", "IsEnd", "IsExit", "IsDir", "IsHSDir", "IsIntro", "IsClientIntroLegacy",
              "IsRend", "IsHSClientSide", "IsMarkedForClose", "HasReceivedCreateCell"):
        out[prefix + n + "Flag"] = FLAG
    out.update({prefix + "HiddenServiceVersionNumber": integer(2, 3), prefix + "OnionHandshakeType": integer(0, 2),
                prefix + "FailureReasonString": text(1, 50), prefix + "ExitStreamCount": integer(1)})
    for d in ("Next", "Previous"):
        out[prefix + d + "ChannelId"] = POS
        out[prefix + d + "CircuitId"] = POS

CIRCUIT = {}
for _p in ("", "IntroClientSink", "RendSplice"):
    circuit_common(_p, CIRCUIT)
CIRCUIT.update({"EventTimestamp": number, "CreatedTimestamp": number, "IsLegacyCircuitEndEventFlag": FLAG,
                "StateString": text(1, 50), "PurposeCode": integer(1, 20), "PurposeString": text(1, 50),
                "HSStateString": text(1, 50)})
for _d in ("Previous", "Next"):
    CIRCUIT.update({_d + "NodeIPAddress": address, _d + "NodeFingerprint": text(40, 40), _d + "NodeRelayFlagList": items(1, 20)})
for _k in ("InboundSentCell", "InboundReceivedCell", "OutboundSentCell", "OutboundReceivedCell", "InboundExitCell",
           "OutboundExitCell", "InboundExitByte", "OutboundExitByte", "InboundDirByte", "OutboundDirByte"):
    CIRCUIT[_k + "Count"] = POS
CIRCUIT_NEED = ["EventTimestamp", "CreatedTimestamp", "IsLegacyCircuitEndEventFlag", "StateString", "PurposeCode"]

CONNECTION = {"EventTimestamp": number, "CreatedTimestamp": number, "ChannelId": POS, "RemoteIsClientFlag": FLAG,
              "RemoteIPAddress": address, "RemoteIPAddressConnectionCount": integer(0, 2 ** 17),
              "PeerIPAddressConsensusRelayCount": integer(0, 100), "PeerIPAddress": address, "InboundByteCount": POS,
              "OutboundByteCount": POS, "InboundCircuitCount": POS, "OutboundCircuitCount": POS,
              "RemoteCountryCode": text(2, 2)}
CONNECTION_NEED = ["EventTimestamp", "CreatedTimestamp", "ChannelId", "RemoteIsClientFlag", "RemoteIPAddress",
                   "RemoteIPAddressConnectionCount", "PeerIPAddressConsensusRelayCount"]

HSDIR = {"HiddenServiceVersionNumber": integer(2, 3), "EventTimestamp": number, "CacheReasonString": text(1, 50),
         "HasExistingCacheEntryFlag": FLAG, "EncodedIntroPointByteCount": POS, "EncodedDescriptorByteCount": POS,
         "IntroPointCount": integer(0, 10), "RequiresClientAuthFlag": FLAG, "DescriptorCreationTime": number,
         "DescriptorIdBase32String": text(32, None), "OnionAddress": text(16, 16), "RevisionNumber": POS,
         "BlindedEd25519PublicKeyBase64String": text(43, 43)}
STORE = dict(HSDIR, WasAddedToCacheFlag=FLAG)
FETCH = dict(HSDIR, CacheQueryByteCount=POS, HasCacheEntryFlag=FLAG, CacheLastServedTime=POS, CacheCreatedTime=POS)
HSDIR_NEED = ["HiddenServiceVersionNumber", "EventTimestamp", "CacheReasonString"]
# fields of one version only; the bitfield, fingerprints and lifetime have no other restriction
ONLY = {2: ["IntroPointCount", "RequiresClientAuthFlag", "DescriptorCreationTime", "OnionAddress", "SupportedProtocolBitfield",
            "IntroPointFingerprintList"],
        3: ["RevisionNumber", "DescriptorLifetime", "BlindedEd25519PublicKeyBase64String"]}
ONLY_FETCH = {2: ONLY[2] + ["CacheLastServedTime"], 3: ONLY[3] + ["CacheCreatedTime"]}

SPEC = {"PRIVCOUNT_CIRCUIT_CLOSE": (CIRCUIT, CIRCUIT_NEED), "PRIVCOUNT_CONNECTION_CLOSE": (CONNECTION, CONNECTION_NEED),
        "PRIVCOUNT_HSDIR_CACHE_STORE": (STORE, HSDIR_NEED + ["WasAddedToCacheFlag"]),
        "PRIVCOUNT_HSDIR_CACHE_FETCH": (FETCH, HSDIR_NEED + ["CacheQueryByteCount"])}


def parse(raw):
    out = {}
    for s in raw:
        if s == "":
            continue
        if any(c in s for c in " \r\n\0") or s.count("=") != 1 or s.startswith("="):
            return None
        k, v = s.split("=")
        if k in out:
            return None
        out[k] = v
    return out


def typed(event, raw):
    fields = parse(raw)
    if fields is None or event not in SPEC:
        return None
    spec, need = SPEC[event]
    out = {}
    for k in need:
        if k not in fields:
            return None
    for k, v in fields.items():
        if k in spec:
            out[k] = spec[k](v)
            if out[k] is None:
                return None
        else:
            out[k] = v
    if "HSDIR" in event:
        v = out["HiddenServiceVersionNumber"]
        if any(k in out for k in (ONLY_FETCH if "FETCH" in event else ONLY)[5 - v]):
            return None
        cap = 40960 if v == 2 else 1048576
        i, d = out.get("EncodedIntroPointByteCount"), out.get("EncodedDescriptorByteCount")
        if (i or 0) > cap or (d or 0) > cap or (i is not None and d is not None and i > d):
            return None
    return out
