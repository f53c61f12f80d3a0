"""C31: the share of each role that a set of relays has"""
import re
from fractions import Fraction as F
from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require

FLAGS = ["Guard", "Exit", "Fast", "Stable", "HSDir", "BadExit", "Running", "Valid", "V2Dir"]
WEIGHTS = ["Wgd", "Wgg", "Wgm", "Wgb", "Wmd", "Wmg", "Wme", "Wmm", "Wmb", "Wed", "Weg", "Wee", "Wem", "Web", "Wbd", "Wbg", "Wbe", "Wbm", "Wdb"]
hexes = st.one_of(st.integers(0, 2 ** 160 - 1), st.integers(0, 3), st.integers(2 ** 160 - 3, 2 ** 160 - 1)).map(lambda n: "%040X" % n)


@st.composite
def routers(draw, version):
    p = draw(st.sampled_from([0, 1, 2, 3]))
    protocols = None if p == 0 else {"HSDir": [1, 2][:draw(st.integers(1, 2))], "HSRend": draw(st.sampled_from([[1], [1, 2], [2], [2, 3], [1, 3]]))}
    if p == 1 and draw(st.booleans()):
        protocols.pop(draw(st.sampled_from(["HSDir", "HSRend"])))
    return dict(bandwidth=draw(st.one_of(st.integers(0, 100), st.integers(0, 10 ** 9))),
                flags=[f for f in FLAGS if draw(st.booleans())], exits=draw(st.booleans()),
                version=draw(version), protocols=protocols)


versions = st.sampled_from(["0.2.9.14", "0.3.0.7", "0.3.0.8", "0.3.0.9", "0.3.1.0", "0.3.3.10", "0.4.0.1", "1.0.0.0"])


@st.composite
def documents(draw, prints):
    rs = {f: draw(routers(versions)) for f in prints if draw(st.integers(0, 5))}
    dirs = [f for f in rs if "HSDir" in rs[f]["flags"]]
    if len(dirs) < 3 and not (draw(st.booleans()) and len(rs) >= 3):
        # a ring needs three directories
        for f in dirs:
            rs[f]["flags"].remove("HSDir")
    elif len(dirs) < 3:
        for f in list(rs)[:max(3, draw(st.integers(0, len(rs))))]:
            if f not in dirs:
                rs[f]["flags"].append("HSDir")
    params = {}
    if draw(st.booleans()):
        params["bwweightscale"] = draw(st.sampled_from([1, 10000, 777]))
    if draw(st.integers(0, 3)) == 0:
        params["hsdir_spread_store"] = draw(st.integers(1, 9))
    if draw(st.integers(0, 3)) == 0:
        params["hsdir_n_replicas"] = draw(st.integers(1, 4))
    return dict(valid_after="2017-12-%02d 0%d:00:00" % (draw(st.integers(1, 30)), draw(st.integers(0, 9))), params=params,
                weights={k: draw(st.one_of(st.sampled_from([0, 10000]), st.integers(0, 10000))) for k in WEIGHTS}, routers=rs)


@st.composite
def cases(draw):
    prints = draw(st.lists(hexes, min_size=draw(st.sampled_from([1, 4, 6])), max_size=9, unique=True))
    how = draw(st.sampled_from(["file", "dir", "dir", "latest"]))
    n = draw(st.integers(1, 3)) if how == "dir" else 1
    docs = [["2017-12-01-0%d-00-00-consensus" % i if i else "consensus", draw(documents(prints))] for i in range(n)]
    if how == "dir" and draw(st.booleans()):
        docs.insert(draw(st.integers(0, n)), [draw(st.sampled_from(["README", "consensus.txt"])), None])
    mine = draw(st.one_of(st.just(["-"]), *[st.sets(st.sampled_from(prints), max_size=(len(prints) + 1) // 2).map(sorted)] * 3, st.lists(hexes, max_size=3, unique=True)))
    if mine != ["-"]:
        mine = ["$" * draw(st.booleans()) + f for f in mine]
    return dict(docs=docs, how=how, prints=mine, pool=draw(st.integers(0, 3)) == 0)


def has(protocols, name, n):
    return protocols is not None and n in protocols.get(name, [])


def shares(doc, mine):
    """exact shares of the roles in one consensus: [dir2, dir2 uploads...]"""
    w, rs = doc["weights"], doc["routers"]
    ring = sorted(int(f, 16) for f in rs if "HSDir" in rs[f]["flags"])
    got, tot = {}, {}
    for f, r in rs.items():
        fl, bw = set(r["flags"]), r["bandwidth"]
        kind = "d" if {"Guard", "Exit"} <= fl else "g" if "Guard" in fl else "e" if "Exit" in fl else "m"
        mid = bw * w["Wm" + kind]
        v = dict(guard=0, middle=mid, exit=0, dir2=F(0), dir3=0, intro=mid * ("Stable" in fl), rend2=mid,
                 rend3=mid * has(r["protocols"], "HSRend", 2))
        if {"Guard", "Fast", "Stable"} <= fl:
            v["guard"] = bw * w["Wg" + kind]
        if r["exits"] and "BadExit" not in fl:
            v["exit"] = bw * w["We" + kind]
        if "HSDir" in fl:
            i = ring.index(int(f, 16))
            v["dir2"] = F((ring[i] - ring[i - 3]) % 2 ** 160 or 2 ** 160, 2 ** 160)
            v["dir3"] = int(has(r["protocols"], "HSDir", 2) and tuple(map(int, r["version"].split("."))) >= (0, 3, 0, 8))
        for k in v:
            tot[k] = tot.get(k, 0) + v[k]
            if mine is None or f in mine:
                got[k] = got.get(k, 0) + v[k]
    return {k: F(got.get(k, 0)) / tot[k] if tot.get(k) else F(0) for k in
            ("guard", "middle", "exit", "dir2", "dir3", "intro", "rend2", "rend3")}


LINES = [("guard", "guard use", 1), ("middle", "middle use", 1), ("exit", "exit use", 1),
         ("dir2", "hsdir2 spread-weighted service onion address", F(25, 24) * 6),
         ("dir2", "hsdir2 spread-weighted client onion address", 1),
         ("dir3", "hsdir3 relay fraction", 1), ("dir3", "hsdir3 approximate service descriptor id", 2 * 4),
         ("dir3", "hsdir3 approximate client descriptor id", F(1, 2)), ("intro", "intro2,3 service establish", 3),
         ("intro", "intro2,3 client introduce", 1), ("rend2", "rend2 use", 1), ("rend3", "rend3 use", 1)]


def run(case, w):
    docs = [d for _, d in case["docs"] if d]
    mine = None if case["prints"] == ["-"] else {f.strip("$") for f in case["prints"]}
    r = w.call("weights", case)
    require(r["err"] is None, "the tool failed: %s", r["err"])
    got = {}
    for l in r["out"].splitlines():
        m = re.match(r"(\d+\.\d{15}) : (.*?) mean( \(.*\))?$", l)
        if m:
            require(m.group(2) not in got, "the %s is printed twice", m.group(2))
            got[m.group(2)] = F(m.group(1))
    expect_eq(sorted(got), sorted(l for _, l, _ in LINES), "figures printed")
    each = [shares(d, mine) for d in docs]
    for k, text, factor in LINES:
        want = sum(s[k] for s in each) / len(each) * factor
        require(abs(got[text] - want) <= F(1, 10 ** 11), "%s: %s, expected %s", text, float(got[text]), float(want))
    for f in sorted(mine or ()):
        n = len(re.findall(r"^%s is not in consensus" % f, r["out"], re.M))
        expect_eq(n, sum(1 for d in docs if f not in d["routers"]), "notes about the missing relay %s" % f)
    some = mine is not None and any(0 < v < 1 for s in each for v in s.values())
    return some, [case["how"]] + ["several"] * (len(docs) > 1) + ["a share between none and all"] * some + ["directories"] * any(
        s["dir2"] > 0 for s in each) + ["new directories"] * any(s["dir3"] > 0 for s in each)


CHECK = Check("C31", [Test("shares", cases(), run, 700, 12000, shards=2)], ["ops_weights"],
    "One to three generated consensuses (relays with any flags, weights, bandwidths, protocols, versions and places on the ring, "
    "as a file, a directory or a download) and any set of relays. The printed shares must be those computed with exact fractions. "
    "Non-trivial when a share is neither none nor all.",
    ["stem, numpy and multiprocessing are stand-ins", "a ring of directories has none or at least three, as Tor has"])
