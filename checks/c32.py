"""C32: an edited configuration file takes effect whole, or not at all"""
import copy
from hypothesis import strategies as st
import c29
import tmodel
from vp import Check, Test, expect_eq, require

INF = float("inf")
addr = st.sampled_from(["127.0.0.1", "10.1.2.3", "198.51.100.7", "::1"])
port = st.sampled_from([20001, 20002, 1, 65535])
# keys with valid values, and with values that no node accepts
COMMON = dict(delay_period=st.sampled_from([0, 10, 86400]), always_delay=st.booleans(),
              sigma_decrease_tolerance=st.sampled_from([0.001, 0.5, 1.5]), note=st.sampled_from(["a", "b", 7]), another=st.integers(0, 2))
SPECS = dict(
    data_collector=(dict(COMMON, name=st.sampled_from(["dc1", "dc2", "a b"]), rotate_period=st.sampled_from([1, 60, 600]),
                         use_setconf=st.booleans(), event_source=st.fixed_dictionaries(dict(ip=addr, port=port)),
                         tally_server_info=st.fixed_dictionaries(dict(ip=addr, port=port)),
                         share_keepers=st.sets(st.integers(0, 2), min_size=1).map(sorted)),
                    dict(name=[""], rotate_period=[0, -1], always_delay=["maybe", 1], sigma_decrease_tolerance=[-1, 0],
                         event_source=[{"port": 0}, {"ip": "127.0.0.1"}], tally_server_info=[{"port": 1}, {"ip": "no", "port": 1}]),
                    ["name", "event_source", "tally_server_info", "share_keepers"]),
    share_keeper=(dict(COMMON, key=st.integers(0, 2), tally_server_info=st.fixed_dictionaries(dict(ip=addr, port=port))),
                  dict(always_delay=["maybe", 1], sigma_decrease_tolerance=[-1, 0], tally_server_info=[{"port": 1}, {"ip": "no", "port": 1}]),
                  ["tally_server_info"]))
# where the secret is said to be, for the node and for all nodes of the file
SECRET = st.tuples(st.sampled_from(["@/secret", "@/secret2", "@/x/../secret3", None, None]), st.sampled_from(["@/top", "@/top2", None, None])).map(list)
DEFAULTS = dict(data_collector=dict(name="dc1", event_source=dict(ip="127.0.0.1", port=20003), share_keepers=[0],
                                    tally_server_info=dict(ip="127.0.0.1", port=20001), delay_period=0),
                share_keeper=dict(key=0, tally_server_info=dict(ip="127.0.0.1", port=20001), delay_period=0))
TS = dict(COMMON, event_period=st.sampled_from([10, 60, 300]), checkin_period=st.sampled_from([10, 60, 300]),
          collect_period=st.sampled_from([600, 1200]), sk_threshold=st.integers(1, 3), dc_threshold=st.integers(1, 2),
          noise_weight=st.sampled_from([{"*": 1.0}, {"*": 0.5, "dc1": 2.0}, {"dc1": 1.0, "dc2": 1.0}]),
          circuit_sample_rate=st.sampled_from([0.0, 0.5, 1.0]), max_cell_events_per_circuit=st.sampled_from([-1, 0, 25]),
          start_after=st.sampled_from(["2017-07-14T02:40:00Z", "2018-01-01T00:00:00Z"]),
          counter_name_reject=st.sampled_from(["ExitStreamByteCount", "Byte"]), counter_name_accept=st.sampled_from(["Exit", "Stream|Country"]),
          reject_overlapping_lists=st.booleans())
TS["continue"] = st.sampled_from([True, False, 3])
TS_BAD = dict(collect_period=[0], event_period=[-10, 0], checkin_period=[-1], sk_threshold=[0, -1], dc_threshold=[0], noise_weight=[{}, {"*": -1.0}],
              always_delay=["maybe"], sigma_decrease_tolerance=[-1, 0], reject_overlapping_lists=["maybe"], listen_port=[0],
              circuit_sample_rate=[-0.5, 1.5])
TS_BAD["continue"] = [-1]
TS_NEEDED = ["collect_period", "noise_weight", "dc_threshold"]
BINS = {"ExitStreamCount": [[0.0, INF]], "ExitStreamByteCount": [[0.0, INF]], "ExitStreamByteHistogram": [[0.0, 10.0], [10.0, INF]],
        "EntryConnectionCountryMatchCountList": [[0.0, 1.0], [1.0, INF]],
        "ExitDomainExactMatchWebInitialStreamCountList": [[0.0, 1.0], [1.0, INF]]}
BINS2 = dict(BINS, ExitStreamByteHistogram=[[0.0, 10.0], [10.0, 20.0], [20.0, INF]])


WEIRD = st.sampled_from([None, "", "x", "1", 1.5, -1, [], {}, [[]], {"a": []}, True, "2017-07-14", ["x"], {"4": "x"}])
GARBAGE = st.one_of(st.sampled_from(["", "\n", "a: [", "- 1\n- 2\n", "5", "{", "\t", "data_collector: 7\n", "tally_server:\n", "share_keeper: []\n",
                                     "a: b: c", "%", "\x00", "*x", "&a [*a]", "!!python/none x", "\u00e9: 1", "counters: 3"]), st.text(st.characters(max_codepoint=255), max_size=20))


def damage(draw, names):
    """what happens to the file, or to one that it names"""
    what = draw(st.sampled_from(["cut", "text", "gone", "directory"]))
    name = draw(st.sampled_from([""] + names)) if names and what != "directory" else ""
    return [what, name, draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 0.99])) if what == "cut" else draw(GARBAGE)]


@st.composite
def server_edit(draw, c):
    bad = None
    for _ in range(draw(st.sampled_from([0, 1, 1, 2, 3]))):
        k = draw(st.sampled_from(["option", "option", "drop", "drop", "lists", "item", "item", "maps", "model", "counters", "sigma", "place"]))
        if k == "option":
            for o in sorted(draw(st.sets(st.sampled_from(sorted(TS)), min_size=1, max_size=8))):
                c["ts"][o] = draw(TS[o])
        elif k == "drop":
            gone = [o for o in sorted(c["ts"]) if o not in TS_NEEDED]
            if gone:
                for o in sorted(draw(st.sets(st.sampled_from(gone), min_size=1, max_size=8))):
                    c["ts"].pop(o)
        elif k == "lists":
            c["lists"] = {n: [[str(x) for x in l] for l in v] for n, v in draw(c29.lists()).items()}
        elif k == "item":
            # one item of one list is removed, or goes to another list; or two files change places
            many = [n for n in sorted(c["lists"]) if len(c["lists"][n]) > 1 or any(len(l) > 1 for l in c["lists"][n])]
            if many:
                l = c["lists"][draw(st.sampled_from(many))]
                i, j = draw(st.integers(0, len(l) - 1)), draw(st.integers(0, len(l) - 1))
                if len(l[i]) > 1:
                    x = l[i].pop(draw(st.integers(0, len(l[i]) - 1)))
                    if i != j and draw(st.booleans()):
                        l[j].append(x)
                else:
                    l[i], l[j] = l[j], l[i]
        elif k == "maps":
            c["maps"] = draw(c29.maps())
        elif k == "model":
            c["model"] = draw(st.one_of(st.none(), tmodel.models()))
        elif k == "counters":
            bins = draw(st.sampled_from([BINS, BINS2]))
            names = draw(st.sets(st.sampled_from(sorted(bins)), min_size=1))
            c["counters"] = {n: {"bins": bins[n]} for n in sorted(names)}
            c["sigmas"] = {n: draw(st.sampled_from([0.0, 1.0, 10.0])) for n in sorted(names)}
        elif k == "place":
            c["place"] = draw(st.sampled_from([None, "files", "one file"]))
        else:
            for n in c["sigmas"]:
                c["sigmas"][n] = draw(st.sampled_from([0.0, 1.0, 10.0]))
    c["model_noise"] = {"counters": {t: {"sigma": 0.0} for t in set(tmodel.templates(c["model"]).values())}} if c["model"] else {}
    # the defaults of the node rather than those of the harness
    c["drop"] = [o for o in ("event_period", "checkin_period", "delay_period", "always_delay") if o not in c["ts"] and draw(st.booleans())]
    if draw(st.integers(0, 3)) == 0:
        bad = copy.deepcopy(c)
        k = draw(st.sampled_from(["value", "value", "missing", "sigma", "bins"]))
        if k == "value":
            o = draw(st.sampled_from(sorted(TS_BAD)))
            bad["ts"][o] = draw(st.sampled_from(TS_BAD[o]))
            bad["drop"] = [x for x in bad["drop"] if x != o]
        elif k == "missing":
            o = draw(st.sampled_from(TS_NEEDED))
            bad["ts"].pop(o)
            bad["drop"] = bad["drop"] + [o]
        elif k == "sigma":
            n = sorted(bad["sigmas"])[0]
            bad["sigmas"][n] = -1.0
            # a rejected counter is not looked at
            for o in ("counter_name_reject", "counter_name_accept"):
                bad["ts"].pop(o, None)
        else:
            bad["counters"][sorted(bad["counters"])[0]]["bins"] = [[0.0, 10.0], [5.0, 20.0]]
            for o in ("counter_name_reject", "counter_name_accept"):
                bad["ts"].pop(o, None)
            # the lists make their own bins
            bad["lists"] = {}
    return bad


@st.composite
def server(draw):
    c = dict(ts=dict(collect_period=1200, noise_weight={"*": 1.0}, dc_threshold=1), lists={}, maps=draw(c29.maps()), model=None,
             counters={n: {"bins": BINS[n]} for n in BINS}, sigmas={n: 1.0 for n in BINS})
    steps = []
    for _ in range(draw(st.integers(2, 6))):
        bad = draw(server_edit(c))
        s = dict(conf=copy.deepcopy(bad or c), bad=bad is not None)
        if bad is None and draw(st.integers(0, 3)) == 0:
            s["odd"] = True
            if draw(st.booleans()):
                names = ["sigmas", "bins", "model.json", "tnoise.yaml", "map4", "map6"] + [k + "0" for k in sorted(c["lists"])]
                s["damage"] = damage(draw, names)
            else:
                s["conf"]["ts"][draw(st.sampled_from(sorted(set(TS) | set(TS_BAD) | {"results", "delay_period", "traffic_noise"})))] = draw(WEIRD)
        steps.append(s)
    return dict(kind="tally_server", keys=["collect_period", "noise_weight", "sk_threshold", "dc_threshold"], steps=steps)


@st.composite
def client(draw):
    kind = draw(st.sampled_from(sorted(SPECS)))
    good, wrong, needed = SPECS[kind]
    c = copy.deepcopy(DEFAULTS[kind])
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        for _ in range(draw(st.sampled_from([0, 1, 1, 2, 4]))):
            if draw(st.integers(0, 3)):
                o = draw(st.sampled_from(sorted(good)))
                c[o] = draw(good[o])
            else:
                gone = [o for o in sorted(c) if o not in needed and o not in ("key", "_secret")]
                if gone:
                    c.pop(draw(st.sampled_from(gone)))
        if draw(st.integers(0, 2)) == 0:
            c["_secret"] = draw(SECRET)
        conf, bad = copy.deepcopy(c), False
        if draw(st.integers(0, 3)) == 0:
            bad = True
            if draw(st.booleans()):
                o = draw(st.sampled_from(sorted(wrong)))
                conf[o] = draw(st.sampled_from(wrong[o]))
            else:
                conf.pop(draw(st.sampled_from(needed)))
        s = dict(conf=conf, bad=bad)
        if not bad and draw(st.integers(0, 3)) == 0:
            s["odd"] = True
            if draw(st.booleans()):
                s["damage"] = damage(draw, [])
            else:
                conf[draw(st.sampled_from(sorted(set(good) - {"key", "share_keepers", "event_source", "tally_server_info"})))] = draw(WEIRD)
        steps.append(s)
    return dict(kind=kind, keys=sorted(set(good) & {"name", "event_source", "tally_server_info", "delay_period", "rotate_period"}), steps=steps)


def run(case, w):
    r = w.call("reload_node", case)
    up = False
    labels = {case["kind"]}
    for i, (s, o) in enumerate(zip(case["steps"], r)):
        what = "after edit %d" % i
        require(o["fresh"][0] == "ok", "a node did not refuse a configuration but failed %s: %s", what, o["fresh"])
        if s.get("odd"):
            # valid or not, a node that starts and a node that runs agree
            labels.add("odd and valid" if o["valid"] else "odd")
        elif s["bad"]:
            require(not o["valid"], "a configuration that is not valid was accepted %s", what)
        else:
            require(o["valid"], "a valid configuration was refused %s: %s %s", what, o["fresh"], o["why"])
        require(o["result"][0] == "ok", "reading the configuration again failed %s: %s", what, o["result"])
        if o["valid"]:
            expect_eq(o["differs"], [], "differences from the file %s" % what)
            for k in case["keys"] if not s.get("odd") else []:
                if k in (s["conf"]["ts"] if "ts" in s["conf"] else s["conf"]):
                    expect_eq(o["config"][k], (s["conf"]["ts"] if "ts" in s["conf"] else s["conf"])[k], "value of %s %s" % (k, what))
            if "_secret" in s["conf"]:
                here, top = s["conf"]["_secret"]
                expect_eq(o["secret"], (here or top or "default").replace("x/../", ""), "the file of the secret %s" % what)
            if up and o["moved"]:
                labels.add("changed")
            if "want" in o and o["want"]:
                expect_eq(o["name"], o["want"], "name of the keeper %s" % what)
        elif up:
            expect_eq(o["moved"], [], "changes by a configuration that is not valid %s" % what)
            labels.add("kept")
        if up and case["kind"] != "tally_server":
            t = o["config"]["tally_server_info"]
            expect_eq(o["dial"], [[t["ip"], t["port"]]], "connection to the tally server %s" % what)
        up = up or o["valid"]
    return "changed" in labels, sorted(labels)


CHECK = Check("C32", [Test("server", server(), run, 400, 5000, shards=4), Test("client", client(), run, 500, 8000, shards=2)], ["ops_reload"],
    "A running node reads its configuration file again after each of up to seven edits: options changed, added and removed, and "
    "(for the tally server) lists, maps, counters, sigmas and traffic models; some edits make the file invalid, give an option a value of "
    "the wrong type, or leave the file (or one it names) cut short, garbled, missing or unreadable. After each valid "
    "edit the node must have the configuration of a node that starts with that file; after an invalid one, exactly what it had. "
    "Non-trivial when an edit changed something.",
    ["whether a file with a value of an odd type is valid is what a node that starts with it says"])
