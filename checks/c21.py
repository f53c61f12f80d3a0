import hashlib
import ipaddress
import re

from hypothesis import strategies as st
from vp import Check, Discard, Test, expect_eq, require
import evgen

LABELS = ["a", "b", "ab", "com", "co", "uk", "x-y", "1", "a_b"]
ONION_CH = "abcdefghijklmnopqrstuvwxyz234567"
MIXED = 4


@st.composite
def cased(draw, s):
    s = draw(s)
    k = draw(st.integers(0, 3))
    return s if k else "".join(c.upper() if draw(st.booleans()) else c for c in s)


domain = st.lists(st.sampled_from(LABELS), min_size=1, max_size=4).map(".".join)
dotted = st.tuples(st.sampled_from(["", "", "", ".", ".."]), domain, st.sampled_from(["", "", "", "."])).map("".join)
onion = st.integers(0, 5).map(lambda i: "".join(ONION_CH[(i * 7 + j * 5) % 32] for j in range(16)))


def md5(s):
    return hashlib.md5((s.lower() + ".onion").encode()).hexdigest()


onionish = st.one_of(onion, onion, onion.map(md5))
word = st.text(st.sampled_from("abAB12"), min_size=1, max_size=3)


def split(draw, pool, most=4):
    return draw(st.lists(st.lists(pool, min_size=1, max_size=6), min_size=1, max_size=most))


# --- exact ----------------------------------------------------------------------

@st.composite
def exacts(draw):
    kind = draw(st.sampled_from(["domain", "word", "onion", "number"]))
    pool = {"domain": cased(domain), "word": cased(word), "onion": cased(onionish), "number": st.integers(1, 12)}[kind]
    lists = split(draw, pool)
    search = draw(st.lists(pool, min_size=1, max_size=6))
    search += [x for l in lists for x in l][:draw(st.integers(0, 6))]
    if kind == "onion":
        search = [x for x in search if len(x) == 16]
    return dict(lists=lists, search=search, md5=kind == "onion")


def low(x):
    return x.lower() if isinstance(x, str) else x


def first(lists, s, hashed=False):
    for i, l in enumerate(lists):
        have = {low(x) for x in l}
        if low(s) in have or (hashed and md5(s) in have):
            return i
    return None


def run_exact(case, w):
    r = w.call("exact", case)
    lists = case["lists"]
    seen = set()
    for l, p in zip(lists, r["prepared"]):
        expect_eq(p, ["ok", sorted({low(x) for x in l} - seen)], "prepared list of %s" % l)
        seen |= {low(x) for x in l}
    expect_eq(r["first"], [first(lists, s, case["md5"]) for s in case["search"]], "first matching lists of %s" % case["search"])
    expect_eq(r["each"], [[first([l], s, case["md5"]) == 0 for l in lists] for s in case["search"]], "single lists")
    found = [x for x in r["first"] if x is not None]
    return bool(found), ["found in list %d" % min(x, 3) for x in set(found)] or ["not found"]


# --- suffix ---------------------------------------------------------------------

@st.composite
def suffixes(draw):
    sep = draw(st.sampled_from([".", ".", ".", ""]))
    pool = cased(dotted) if sep else cased(st.text(st.sampled_from("ab.c"), min_size=1, max_size=5))
    if draw(st.integers(0, 15)) == 0:
        pool = pool | st.sampled_from(["a..b", "", ".", "..a..b"])
    lists = split(draw, pool)
    search = draw(st.lists(pool | st.sampled_from(["", ".", "a..com", "..", "com.", "xcom"]), min_size=1, max_size=6))
    items = [x for l in lists for x in l]
    for x in items[:draw(st.integers(0, 5))]:
        search.append(draw(st.sampled_from(["", "", "a.", "uk.ab.", "x"])) + x)
    return dict(lists=lists, search=search, sep=sep)


def parts(s, sep):
    """labels from the last to the first"""
    s = s.lower()
    return (s.strip(sep).split(sep) if sep else list(s))[::-1]


class Suffixes:
    """the listed suffixes, by list, in order"""
    def __init__(self, lists, sep):
        self.sep = sep
        self.first = {}
        self.bad = False
        self.dups = []
        for i, l in enumerate(lists):
            dup = False
            for x in l:
                p = tuple(parts(x, sep))
                k = 1
                while k <= len(p) and p[k - 1] and p[:k] not in self.first:
                    k += 1
                if not p or (k <= len(p) and p[:k] not in self.first):
                    self.bad = True
                    return
                for q in self.first:
                    if q[:len(p)] == p or p[:len(q)] == q:
                        dup = True
                self.first.setdefault(p, i)
            self.dups.append(dup)

    def tag(self, s):
        p = tuple(parts(s, self.sep))
        for k in range(1, len(p) + 1):
            if p[k - 1] == "":
                return None
            if p[:k] in self.first:
                return self.first[p[:k]]
        return None


def run_suffix(case, w):
    m = Suffixes(case["lists"], case["sep"])
    r = w.call("suffix", case)
    if m.bad:
        require("tags" not in r, "a name with an empty label was accepted: %s", case["lists"])
        return True, ["empty label"]
    expect_eq(r["dups"], m.dups, "overlaps of each list with those before it")
    want = [m.tag(s) for s in case["search"]]
    expect_eq(r["tags"], want, "lists of %s" % case["search"])
    expect_eq(r["wire"], want, "lists after a transmission")
    found = [x for x in want if x is not None]
    over = any(m.dups)
    return bool(found), (["overlapping"] if over else ["disjoint"]) + (["found"] if found else ["not found"])


@st.composite
def reverses(draw):
    # one list of which no entry is a suffix of another (the function's documented limit)
    sep = "."
    items = draw(st.lists(cased(domain), min_size=1, max_size=6))
    keep = []
    for x in items:
        if not any(Suffixes([[y]], sep).tag(x) is not None or Suffixes([[x]], sep).tag(y) is not None for y in keep):
            keep.append(x)
    search = draw(st.lists(cased(domain), min_size=1, max_size=5)) + \
        [draw(st.sampled_from(["a.", "uk.b.", "x", ""])) + x for x in keep[:4]]
    return dict(list=keep, search=search, sep=sep)


def run_reverse(case, w):
    m = Suffixes([case["list"]], ".")
    want = [m.tag(s) is not None and low(s) not in {low(x) for x in case["list"]} for s in case["search"]]
    expect_eq(w.call("reverse", case), want, "longer names %s" % case["search"])
    return any(want)


# --- loading --------------------------------------------------------------------
COMMENTS = ["", "# x", "//y", "; z", "   ", "#", ";a.com"]
GOOD = {"": st.text(st.sampled_from("abcXYZ .-_!?1"), min_size=1, max_size=8), "domain": cased(dotted),
        "country": cased(st.sampled_from(["us", "de", "??", "!!", "a1", "gb", "09"])), "as": st.sampled_from(["1", "64512", "4000000000", "007"]),
        "reason": cased(st.sampled_from(["internal", "timeout", "a1", "requested", "9"])),
        "onion": st.one_of(cased(onionish), st.tuples(st.sampled_from(["http://", "https://", "//", "", ""]),
                                                       st.sampled_from(["", "www.", "a.b."]), cased(onion),
                                                       st.sampled_from([".onion", ".onion/", ".onion/x/y.html", ".onion."])).map("".join))}
BAD = {"": [], "domain": ["a b", "exa!mple", "a/b", "a:b", "a\tb", "*.com", "ü"], "country": ["usa", "u", "u!", "?", "??!", "u s"],
       "as": ["x", "0", "-5", "1_2", "1,2", "AS5", "1.5"], "reason": ["a b", "a-b", "a_b", "é", "!"],
       "onion": ["abc", "1" * 16, "g" * 32, "x" * 17, "onion", "...", "a-b"]}
END = st.sampled_from(["\n", "\n", "\r\n", " \n", "\t\n"])


@st.composite
def files(draw):
    kind = draw(st.sampled_from(sorted(GOOD)))
    lines = []
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.integers(0, 5))
        if k == 0:
            lines.append(draw(st.sampled_from(COMMENTS)))
        else:
            lines.append(draw(GOOD[kind]))
    if BAD[kind] and draw(st.integers(0, 3)) == 0:
        lines.insert(draw(st.integers(0, len(lines))), draw(st.sampled_from(BAD[kind])))
    text = "".join(draw(st.sampled_from(["", "", " ", "\t"])) + l + draw(END) for l in lines)
    if draw(st.booleans()):
        text = text.rstrip("\r\n")
    return dict(kind=kind, content=text)


def comment(l):
    return l == "" or l[0] in "#;" or l.startswith("//")


WS = " \t\r\n\x0b\x0c"


def loaded(kind, text):
    """the entries of a list file, or None if one is invalid"""
    out = []
    for l in text.split("\n"):
        l = l.strip(WS)
        if comment(l):
            continue
        if kind == "domain":
            if not re.match(r"^[-._A-Za-z0-9]+$", l):
                return None
            l = l.lower().strip(".")
        elif kind == "country":
            if not re.match(r"^([A-Za-z0-9]{2}|\?\?|!!)$", l):
                return None
            l = l.lower()
        elif kind == "as":
            if not re.match(r"^[0-9]+$", l) or int(l) < 1:
                return None
            l = int(l)
        elif kind == "reason":
            if not re.match(r"^[A-Za-z0-9]+$", l):
                return None
            l = l.lower()
        elif kind == "onion":
            h = re.match(r"^(?:[^:/]*:)?/*([^/]*)", l).group(1)
            names = [x for x in h.split(".") if x and x != "onion"]
            l = names[-1].lower() if names else ""
            if not re.match(r"^([a-z2-7]{16}|[0-9a-f]{32})$", l):
                return None
        out.append(l)
    return out


def run_load(case, w):
    want = loaded(case["kind"], case["content"])
    how, got = w.call("load", case)
    if want is None:
        expect_eq(how, "exc", "a list with an invalid entry")
        return True, [case["kind"] + " refused"]
    expect_eq([how, got], ["ok", want], "list file of kind %r" % case["kind"])
    return bool(want), [case["kind"] + " loaded"]


# --- the tally server's lists ---------------------------------------------------
COUNTERS = {"domain": ("domain", "ExitDomainExactMatchWebInitialStreamCountList"),
            "country": ("country", "EntryConnectionCountryMatchCountList"),
            "as": ("as", "EntryConnectionASMatchCountList"),
            "hsdir_store": ("reason", "HSDir2StoreAddReasonCountList"),
            "hsdir_fetch": ("reason", "HSDir2FetchCachedReasonCountList"),
            "circuit_failure": ("reason", "IntroClientFailureCircuitReasonCountList"),
            "onion_address": ("onion", "HSDir2StoreOnionAddressCountList")}


def register(names):
    """the real names for the table above"""
    def pick(*need):
        return sorted(n for n in names if all(x in n for x in need))
    COUNTERS["country"] = ("country", pick("CountryMatch", "CountList")[0])
    COUNTERS["as"] = ("as", pick("ASMatch", "CountList")[0])
    COUNTERS["hsdir_store"] = ("reason", pick("Store", "ReasonCountList")[0])
    COUNTERS["hsdir_fetch"] = ("reason", pick("Fetch", "ReasonCountList")[0])
    COUNTERS["circuit_failure"] = ("reason", pick("FailureCircuitReasonCountList")[0])
    COUNTERS["onion_address"] = ("onion", pick("OnionAddressCountList")[0])


import evmodel
register(evmodel.EVENTS)
POOL = {"domain": cased(domain), "country": cased(st.sampled_from(["us", "de", "fr", "??", "!!", "gb"])),
        "as": st.integers(1, 8).map(str), "reason": cased(st.sampled_from(["a", "b", "c", "internal", "timeout"])),
        "onion": cased(onionish)}


@st.composite
def reloads(draw):
    key = draw(st.sampled_from(sorted(COUNTERS)))
    kind, counter = COUNTERS[key]
    pool = POOL[kind]
    reject = draw(st.booleans())
    def content():
        k = draw(st.integers(0, 19))
        items = draw(st.lists(pool, min_size=1, max_size=4))
        if k == 0:
            items = []
        if k == 1 and BAD[kind]:
            items.append(draw(st.sampled_from(BAD[kind])))
        return "# list\n" + "\n".join(items) + "\n"
    def counters():
        c = {counter: {"bins": [[0.0, 1.0], [1.0, INF]], "sigma": 1.0}}
        if draw(st.booleans()):
            c["ExitStreamCount"] = {"bins": [[0.0, INF]], "sigma": 2.0}
        return c
    names = ["f0", "f1", "f2"]
    have = {}
    steps = []
    files = None
    for _ in range(draw(st.integers(1, 4))):
        new = {}
        for n in names:
            if n not in have or draw(st.integers(0, 5)) == 0:
                new[n] = content()
        have.update(new)
        if files is None or draw(st.integers(0, 2)) == 0:
            files = draw(st.lists(st.sampled_from(names), max_size=3, unique=True))
        elif draw(st.booleans()):
            files = draw(st.permutations(files))
        steps.append(dict(content=new, files=files, reject=draw(st.integers(0, 4)) == 0 if not reject else True, counters=counters()))
    search = draw(st.lists(pool if kind != "onion" else cased(onion), min_size=2, max_size=6))
    if kind == "as":
        search = [int(x) for x in search]
    return dict(key=key, steps=steps, search=search)


INF = float("inf")


def overlap(kind, lists):
    """whether an item is in an earlier list, or is matched by another list"""
    for i, l in enumerate(lists):
        for x in l:
            if first(lists, x) != i:
                return True
    return False


def run_reload(case, w):
    kind, counter = COUNTERS[case["key"]]
    out = w.call("reload", case)
    now = {}
    current = None          # (lists, bins)
    labels = set()
    for s, o in zip(case["steps"], out):
        now.update(s["content"])
        lists = [loaded(kind, now[f]) for f in s["files"]]
        bad = any(not l for l in lists)
        over = False
        suff = None
        if not bad and lists:
            over = overlap(kind, lists)
            if kind == "onion":
                every = [x for l in lists for x in l]
                if over and any(len(x) == 16 and md5(x) in every for x in every):
                    raise Discard()
            if case["key"] == "domain":
                suff = Suffixes(lists, ".")
                over = over or any(suff.tag(x) != i for i, l in enumerate(lists) for x in l)
                bad = suff.bad
        ok = not bad and not (s["reject"] and over)
        what = "lists %s with reject=%s after %s" % (lists, s["reject"], current and current[0])
        expect_eq(o["changed"], ok, "accepting %s" % what)
        if ok:
            bins = {n: c["bins"] for n, c in s["counters"].items()}
            if lists:
                bins[counter] = [[float(i), float(i + 1)] for i in range(len(lists))] + [[float(len(lists)), INF]]
            current = (lists, bins)
        if current is None:
            labels.add("never accepted")
            continue
        lists, bins = current
        expect_eq(o["raw"], lists, "raw lists")
        expect_eq(o["bins"], bins, "bins")
        expect_eq(o["exact"], [first(lists, x, kind == "onion") for x in case["search"]], "exact lists of %s" % case["search"])
        if case["key"] == "domain":
            m = Suffixes(lists, ".")
            expect_eq(o["suffix"], [m.tag(x) for x in case["search"]], "suffix lists of %s" % case["search"])
        labels.add(("accepted " if ok else "refused ") + ("overlap" if over else "invalid" if bad else "disjoint"))
    return len(case["steps"]) > 1 and current is not None, sorted(labels)


# --- prefixes -------------------------------------------------------------------

@st.composite
def maps(draw):
    pool = draw(st.sampled_from([evgen.PREFIXES4, evgen.PREFIXES6]))
    nets = draw(st.lists(st.tuples(st.sampled_from(pool), st.sampled_from(evgen.AS_NUMBERS)), min_size=1, max_size=6,
                         unique_by=lambda t: t[0]))
    lines = ["%s\t%d" % t for t in nets]
    for c in draw(st.lists(st.sampled_from(["; comment", "# x", "", "  "]), max_size=3)):
        lines.insert(draw(st.integers(0, len(lines))), c)
    ips = evgen.IPV4 if pool is evgen.PREFIXES4 else evgen.IPV6
    return dict(content="\n".join(lines) + "\n", search=draw(st.lists(st.sampled_from(ips), min_size=1, max_size=6)), nets=nets)


def run_map(case, w):
    r = w.call("prefix_map", case)
    for s, got in zip(case["search"], r):
        ip = ipaddress.ip_address(s)
        best = max([(ipaddress.ip_network(n, strict=False).prefixlen, a) for n, a in case["nets"]
                    if ip in ipaddress.ip_network(n, strict=False)], default=(0, None))
        expect_eq(got, ["ok", best[1]], "AS of %s" % s)
    return True, ["map"]


CHECK = Check("C21", [
    Test("exact", exacts(), run_exact, quick=1500, thorough=40000),
    Test("suffix", suffixes(), run_suffix, quick=2500, thorough=60000),
    Test("reverse", reverses(), run_reverse, quick=400, thorough=5000),
    Test("load", files(), run_load, quick=1500, thorough=30000),
    Test("reload", reloads(), run_reload, quick=900, thorough=20000, shards=2),
    Test("map", maps(), run_map, quick=300, thorough=3000),
], jy=["ops_match"],
    rule="a search string was found, a list was loaded or refused, or lists were read again after a change",
    assumptions=["The pyasn library is a stand-in with its documented longest prefix lookup.",
                 "Lists in which an onion address appears both plain and hashed and which overlap are left out of the reload test."])
