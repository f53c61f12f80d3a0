"""C29: what the operator configures is what the collectors count"""
import copy
import json
import random
import re
from hypothesis import strategies as st
import evgen
import evmodel
import tmodel
from c19 import ADDRESSES, one_form
from c24 import EVENT, check_updated, paths
from evmodel import EVENTS, Model, layouts, totals
from vp import Check, Test, expect_eq, require, same

INF = float("inf")
START = 1500000000.0
KINDS = {"stream": "PRIVCOUNT_STREAM_ENDED", "circuit": "PRIVCOUNT_CIRCUIT_CLOSE", "connection": "PRIVCOUNT_CONNECTION_CLOSE",
         "Store": "PRIVCOUNT_HSDIR_CACHE_STORE", "Fetch": "PRIVCOUNT_HSDIR_CACHE_FETCH"}
FAM = sorted({n for e in KINDS.values() for n in evmodel.family(e)})
REASONS = ["internal", "requested", "timeout", "destroyed", "a" * 50, "x"]
MODEL = {"domain": "domain_lists", "country": "country_lists", "as": "as_lists", "hsdir_store": "hsdir_store_lists",
         "hsdir_fetch": "hsdir_fetch_lists", "circuit_failure": "circuit_failure_lists", "onion_address": "onion_lists"}


def listed(name):
    """the kind of list whose lists are the bins of this counter"""
    if not name.endswith("CountList"):
        return None
    if name.startswith("ExitDomain"):
        return "domain"
    if "CountryMatch" in name:
        return "country"
    if "ASMatch" in name:
        return "as"
    if name.endswith("FailureCircuitReasonCountList"):
        return "circuit_failure"
    if name.endswith("OnionAddressCountList"):
        return "onion_address"
    if name.startswith("HSDir") and name.endswith("ReasonCountList"):
        return "hsdir_store" if "Store" in name else "hsdir_fetch"
    return None


POOLS = {"country": evgen.COUNTRIES[:5], "as": evgen.AS_NUMBERS, "hsdir_store": REASONS, "hsdir_fetch": REASONS,
         "circuit_failure": REASONS, "onion_address": ADDRESSES}


@st.composite
def lists(draw):
    out = {}
    for k in MODEL:
        if draw(st.integers(0, 2)) == 0:
            continue
        if k == "domain":
            l = draw(evgen.domain_lists)
        else:
            l = draw(evgen.lists_of(st.sampled_from(POOLS[k])))
            if k == "onion_address":
                l = one_form(l)
        if l:
            out[k] = l
    return out


@st.composite
def maps(draw):
    out = []
    for pool in (evgen.PREFIXES4, evgen.PREFIXES6):
        nets = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True))
        out.append("\n".join("%s\t%d" % (n, draw(st.sampled_from(evgen.AS_NUMBERS))) for n in nets))
    return out


@st.composite
def events(draw, ls, model):
    kind = draw(st.sampled_from(list(KINDS) + ["Store", "Fetch"] + ["model"] * 3 * bool(model)))
    if kind == "stream":
        e = draw(evgen.stream(ls.get("domain", [])))
        if draw(st.booleans()):
            e["port"], e["num"] = 443, 1
            e["host"] = draw(evgen.hosts(ls.get("domain", [])))
        return [kind, e]
    if kind == "circuit":
        e = draw(evgen.circuit())
        if draw(st.booleans()):
            # a circuit of an onion service that failed
            e.setdefault("HiddenServiceVersionNumber", 2)
            e.setdefault("IsHSClientSideFlag", 1)
            e["FailureReasonString"] = draw(st.sampled_from(REASONS))
        return [kind, e]
    if kind == "connection":
        return [kind, draw(evgen.connection())]
    if kind == "model":
        part = draw(st.sampled_from(sorted(model)))
        return [kind, [part, draw(paths(model, part))]]
    return [kind, draw(evgen.hsdir(kind))]


@st.composite
def configs(draw, dcs, old):
    c = dict(copy.deepcopy(old)) if old and draw(st.booleans()) else {}
    if not c:
        c = dict(lists=draw(lists()), maps=draw(maps()), sample=draw(st.sampled_from([1.0, 1.0, 0.5, 0.125, 0.0])),
                 cells=draw(st.sampled_from([-1, -1, 0, 25, 2 ** 31 - 1])),
                 model=draw(st.one_of(st.none(), st.none(), tmodel.models())), place=draw(st.sampled_from([None, "files", "one file"])))
    elif draw(st.booleans()):
        c["lists"] = draw(lists())
    c["events"] = [[draw(st.integers(0, dcs - 1)), draw(events(c["lists"], c["model"]))] for _ in range(draw(st.integers(2, 8)))]
    return c


@st.composite
def cases(draw):
    setconf = draw(st.sampled_from([[True], [True], [False], [True, False], [True, True]]))
    rounds = [draw(configs(len(setconf), None))]
    if draw(st.booleans()):
        rounds.append(draw(configs(len(setconf), rounds[0])))
    return dict(setconf=setconf, sks=draw(st.sampled_from([1, 1, 2])), rounds=rounds, seed=draw(st.integers(0, 10 ** 6)))


def items(e):
    if e[0] == "stream":
        return evgen.stream_items(e[1])
    if e[0] == "model":
        code, field = EVENT[e[1][0]]
        return [code, "%s=%s" % (field, json.dumps(e[1][1], separators=(";", ":"))), "EventTimestamp=1500000000.5"]
    return evgen.fields_items(KINDS[e[0]], e[1])


def conf_of(c):
    conf = {MODEL[k]: v for k, v in c["lists"].items()}
    if "as" in c["lists"]:
        conf["as_maps"] = {"4": c["maps"][0], "6": c["maps"][1]}
    return conf


def feed(m, e):
    if e[0] == "model":
        tmodel.count(e[1][0], e[1][1], lambda label, n: m.out.append((label, None, n)))
    elif e[0] in ("Store", "Fetch"):
        m.hsdir(e[1], e[0])
    else:
        getattr(m, e[0])(e[1])


def plan(c, dcs, seed):
    """the counters to collect, their bins once the lists are loaded, and the totals"""
    models = [Model(FAM, conf_of(c), START) for _ in range(dcs)]
    for d, e in c["events"]:
        feed(models[d], e)
    incs = [i for m in models for i in m.out]
    rnd = random.Random(seed)
    hit = sorted({n for n, _, _ in incs if n in evmodel.KNOWN} & set(FAM))
    # the counters of the lists first
    hot = [n for n in hit if listed(n)] + rnd.sample(sorted(n for n in FAM if listed(n)), 6)
    rnd.shuffle(hot)
    rnd.shuffle(hit)
    names = sorted(set(hot[:14] + hit[:10] + rnd.sample(FAM, 3)))
    counters = {n: dict(bins=x["bins"]) for n, x in layouts(names, incs, seed).items()}
    final = copy.deepcopy(counters)
    for n in final:
        k = len(c["lists"].get(listed(n), []))
        if k:
            final[n]["bins"] = [[float(i), float(i + 1)] for i in range(k)] + [[float(k), INF]]
    if c["model"]:
        for l in tmodel.templates(c["model"]):
            final[l] = dict(bins=[[0.0, INF]])
    return counters, final, totals(final, incs)


def collect(case, w, plans=None):
    """what came of the rounds of a case"""
    n = len(case["setconf"])
    confs = []
    for i, c in enumerate(case["rounds"]):
        p = plans[i] if plans else plan(c, n, case["seed"] + i)
        ts = dict(event_period=30, checkin_period=30, collect_period=60, delay_period=0, dc_threshold=n, sk_threshold=case["sks"],
                  circuit_sample_rate=c["sample"], max_cell_events_per_circuit=c["cells"])
        ts["continue"] = True
        noise = {}
        if c["model"]:
            noise = {"counters": {t: {"sigma": 0.0} for t in set(tmodel.templates(c["model"]).values())}}
        confs.append(dict(ts=ts, counters=p[0], sigmas={x: 0.0 for x in p[0]}, lists={k: [[str(x) for x in l] for l in v] for k, v in c["lists"].items()},
                          maps=c["maps"], model=c["model"], model_noise=noise, place=c.get("place")))
    return w.call("pipeline", dict(configs=confs, setconf=case["setconf"], sks=case["sks"],
                                events=[[[d, items(e)] for d, e in c["events"]] for c in case["rounds"]]), now=START)


def run(case, w):
    n = len(case["setconf"])
    plans = [plan(c, n, case["seed"] + i) for i, c in enumerate(case["rounds"])]
    r = collect(case, w, plans)
    labels = set()
    for i, o in enumerate(r):
        c, (_, final, want) = case["rounds"][i], plans[i]
        what = "in round %d" % (i + 1)
        require(all(x[2] for x in o["answers"]), "a command was refused %s: %s", what, [x for x in o["answers"] if not x[2]])
        require("tally" in o, "no tally %s", what)
        events_wanted = {e for x in final if x in EVENTS for e in EVENTS[x]}
        if c["model"]:
            events_wanted |= {EVENT[part][0] for part in c["model"]}
        for d in range(n):
            check_end(o["lines"][d] + (o["ended"][d] or []), c, case["setconf"][d], "%s, collector %d" % (what, d))
            check_lines(o["lines"][d], c, case["setconf"][d], events_wanted, "%s, collector %d" % (what, d))
        require(same(o["starts"], [{"traffic_model": c["model"]} if c["model"] else {}] * n), "traffic models of the start commands: %s", o["starts"])
        got = o["tally"]
        expect_eq(sorted(set(got) - {"ZeroCount"}), sorted(final), "counters published %s" % what)
        expect_eq({x: [b[:2] for b in got[x]] for x in final}, {x: [list(map(float, b)) for b in final[x]["bins"]] for x in final},
                  "bins published %s" % what)
        counts = {x: [b[2] for b in got[x]] for x in got}
        counts = {x: v for x, v in counts.items() if any(v)}
        bad = sorted(x for x in set(counts) | set(want) if counts.get(x) != want.get(x))
        require(not bad, "counts differ %s: %s", what, ["%s %s/%s" % (x, counts.get(x), want.get(x)) for x in bad[:6]])
        for x in counts:
            k = listed(x)
            if k in c["lists"] and any(counts[x][:-1]):
                labels.add("counted in a list of kind " + k)
        labels.update(["traffic model"] * bool(c["model"]) + ["sampling"] * (c["sample"] != 1) + ["cell limit"] * (c["cells"] >= 0))
        labels.update(check_files(o, c, what))
    expect_eq(len(r), len(case["rounds"]), "rounds completed")
    labels.update(["a change during the round"] * (len(r) > 1))
    return any(p[2] for p in plans), sorted(labels)


def check_files(o, c, what):
    """the files of results agree with each other, and the new traffic model with the tallies"""
    docs = {}
    for f in o["files"]:
        kind = re.match(r"privcount\.([a-z.]+)\.(\d+)-(\d+)\.json$", f)
        require(kind, "file of results %s: %s", what, f)
        docs[kind.group(1)] = json.loads(o["files"][f])
    expect_eq(sorted(docs), ["outcome", "tallies"] + ["traffic.model"] * bool(c["model"]), "files of results %s" % what)
    out = docs["outcome"]
    require(same(out["Tally"], docs["tallies"]), "the outcome and the tallies file differ %s", what)
    expect_eq("UpdatedTrafficModel" in out, bool(c["model"]), "updated traffic model in the outcome %s" % what)
    expect_eq(out["Context"]["TallyServer"]["Config"].get("circuit_sample_rate"), c["sample"], "sample rate in the outcome %s" % what)
    if not c["model"]:
        require("link" not in o or what != "in round 1", "a link to a traffic model %s: %s", what, o.get("link"))
        return []
    new = docs["traffic.model"]
    require(same(out["UpdatedTrafficModel"], new), "the outcome and the traffic model file differ %s", what)
    t = {n: x["bins"][0][2] for n, x in docs["tallies"].items() if len(x["bins"]) == 1}
    moved = check_updated(new, c["model"], t, 0.5, 0.5)
    if tmodel.valid(new):
        require(o.get("link", "").rpartition("/")[2].startswith("privcount.traffic.model.") and
                o["link"].rpartition("/")[2] in o["files"], "the link to the latest model points to %s %s", o.get("link"), what)
    return ["updated traffic model"] * moved


def check_lines(lines, c, setconf, events_wanted, what):
    """what the relay was told"""
    sets = [l.split(" ", 1)[1] for l in lines if l.startswith("SETCONF ")]
    tail = [l for l in lines if l.split(" ")[0] in ("SETEVENTS", "SET_TMODEL") or l == "GETCONF EnablePrivCount"]
    # before the round begins the collector may have cleared what it found
    begin = max([i for i, l in enumerate(lines) if l.startswith("SETEVENTS ")] or [-1])
    require(begin >= 0, "the relay was not asked for events %s", what)
    last = {}
    for l in sets:
        k, v = l.split("=", 1)
        last[k] = v
    if setconf:
        expect_eq(last.get("EnablePrivCount"), "1", "EnablePrivCount %s" % what)
        expect_eq(float(last.get("PrivCountCircuitSampleRate", 1.0)), c["sample"], "sample rate %s" % what)
        expect_eq(int(last.get("PrivCountMaxCellEventsPerCircuit", -1)), c["cells"], "cell limit %s" % what)
    else:
        expect_eq(sets, [], "settings sent %s" % what)
    expect_eq(sorted(lines[begin].split(" ")[1:]), sorted(events_wanted), "events the relay was asked for %s" % what)
    tm = [l for l in tail if l.startswith("SET_TMODEL TRUE ")]
    if c["model"]:
        require(tm, "the relay did not get the traffic model %s", what)
        require(same(json.loads(tm[-1][16:].replace(";", ",")), c["model"]), "traffic model sent to the relay %s: %s", what, tm[-1])
        require(lines.index(tm[-1]) < begin, "the traffic model comes after the events %s", what)
    else:
        require(not tm, "the relay got a traffic model %s", what)


def check_end(lines, c, setconf, what):
    """the relay is left as it was before: no events, default settings, no traffic model"""
    state = {"events": "", "model": "FALSE", "EnablePrivCount": "0", "PrivCountCircuitSampleRate": "1.0",
             "PrivCountMaxCellEventsPerCircuit": "-1", "__ReloadTorrcOnSIGHUP": "1"}
    used = dict(state)
    for l in lines:
        word, _, rest = l.partition(" ")
        if word == "SETEVENTS":
            used["events"] = rest
        elif word == "SET_TMODEL":
            used["model"] = rest
        elif word == "SETCONF":
            k, v = rest.split("=", 1)
            used[k] = v
    used["PrivCountCircuitSampleRate"] = "%.1f" % float(used["PrivCountCircuitSampleRate"])
    expect_eq(used, state, "the relay after the round %s" % what)


CHECK = Check("C29", [Test("pipeline", cases(), run, 150, 5000, shards=6)], ["ops_pipe"],
    "A case is one or two rounds of a real tally server, one or two real data collectors (with stand-in relays) and one or two "
    "real share keepers, from the files the operator writes (match lists of all seven kinds, prefix maps, a traffic model with "
    "its noise, circuit sample rate, cell limit, counters) to the published tally. The files change while the first round runs. "
    "The commands each relay got, the counters and bins published, and all totals must equal those of the reference model of "
    "the events with the configuration of that round. Non-trivial when something is counted.",
    ["noise is zero so that totals are exact", "lists are disjoint and well formed (C21 checks the others)",
     "each node has its own table of counters, as in its own process"])
