from hypothesis import strategies as st
import evgen
import evmodel
from evmodel import Model, layouts, totals
from vp import Check, Test, expect_eq, require

START = 1500000000.0
KINDS = {"PRIVCOUNT_STREAM_ENDED": "stream", "PRIVCOUNT_CIRCUIT_CLOSE": "circuit",
         "PRIVCOUNT_HSDIR_CACHE_STORE": "Store", "PRIVCOUNT_HSDIR_CACHE_FETCH": "Fetch"}
FAM = [n for k in KINDS for n in evmodel.family(k) if not n.endswith("List")]

USED = set(FAM)
KIND_OF = {v: k for k, v in KINDS.items()}


@st.composite
def event(draw):
    kind = draw(st.sampled_from(["stream", "stream", "circuit", "Store", "Fetch"]))
    if kind == "stream":
        return [kind, draw(evgen.stream())]
    if kind == "circuit":
        return [kind, draw(evgen.circuit())]
    return [kind, draw(evgen.hsdir(kind))]


def items(e):
    if e[0] == "stream":
        return evgen.stream_items(e[1])
    return evgen.fields_items(KIND_OF[e[0]], e[1])


def feed(m, e):
    if e[0] in ("stream", "circuit"):
        getattr(m, e[0])(e[1])
    else:
        m.hsdir(e[1], e[0])


@st.composite
def cases(draw, faulty):
    dcs, sks = draw(st.sampled_from([(1, 1), (2, 1), (2, 2), (3, 1), (1, 3), (3, 2)]))
    nodes = ["dc%d" % i for i in range(dcs)] + ["sk%d" % i for i in range(sks)]
    ts = dict(event_period=draw(st.sampled_from([30, 60])), checkin_period=draw(st.sampled_from([30, 45, 60])),
              collect_period=draw(st.sampled_from([120, 200, 300] if faulty else [260, 330])), delay_period=0, noise_weight={"*": 1.0},
              dc_threshold=draw(st.sampled_from([dcs, dcs, 1])), sk_threshold=sks)
    ts["continue"] = True
    horizon = draw(st.sampled_from([500, 900, 1300]))
    up = [[0 if draw(st.booleans()) else draw(st.integers(0, 100)), "ts"]]
    up += [[draw(st.sampled_from([0, 1, 7, 60, 130])), n] for n in nodes]
    # a few distinct events, each delivered many times: by any relay, at any time
    kinds = draw(st.lists(event(), min_size=1, max_size=4))
    evs = []
    for _ in range(draw(st.integers(5, 40))):
        evs.append([draw(st.integers(0, horizon * 4)) / 4.0, draw(st.integers(0, dcs - 1)), draw(st.integers(0, len(kinds) - 1))])
    faults = []
    if faulty:
        for _ in range(draw(st.integers(1, 3))):
            t = draw(st.integers(0, 10 ** 6)) % (horizon * 4) / 4.0
            k = ["crash", "crash", "drop", "drop", "block", "relay"][draw(st.integers(0, 10 ** 6)) % 6]
            if k == "relay":
                faults.append([t, k, "dc%d" % draw(st.integers(0, dcs - 1)), draw(st.sampled_from([1, 20, 100, 400]))])
            else:
                n = (nodes + ["ts"] * len(nodes) if k == "crash" else nodes)
                n = n[draw(st.integers(0, 10 ** 6)) % len(n)]
                faults.append([t, k, n, draw(st.sampled_from([1, 20, 100, 400]))])
    return dict(dcs=dcs, sks=sks, ts=ts, up=up, kinds=kinds, events=sorted(evs), faults=sorted(faults), seed=draw(st.integers(0, 9999)),
                lag=draw(st.sampled_from([[0.01, 0.0], [0.05, 0.1], [0.2, 0.5], [0.5, 2.0]] + [[2.0, 6.0]] * faulty)))


def run(case, w):
    faulty = bool(case["faults"])
    incs = Model(FAM, {}, START)
    for _, _, k in case["events"]:
        feed(incs, case["kinds"][k])
    incs.out = [i for i in incs.out if i[0] in USED]
    names = evmodel.pick(incs.out, FAM, case["seed"], limit=4)
    hit = [n for n in names if any(i[0] == n for i in incs.out)]
    names = sorted(hit[:10] + [n for n in names if n not in hit][:3])
    counters = {n: {"bins": c["bins"]} for n, c in layouts(names, incs.out, case["seed"]).items()}
    r = w.call("deployment", dict(case, counters=counters, client=dict(delay_period=0),
                                  events=[[t, r_, items(case["kinds"][k])] for t, r_, k in case["events"]],
                                  patience=6000, after=2), now=START)
    begun = {}
    wanted = {k for k in KINDS if set(evmodel.family(k)) & set(names)}
    part, rep, last, labels = {}, {}, {}, set()
    full, tallies, late, calm, counted = 0, 0, 0, False, 0
    crashes = sum(1 for f in case["faults"] if f[1] == "crash")
    for j in r["journal"]:
        t, kind = j[0], j[1]
        if kind == "exception":
            require(False, "exception at %s in %s: %s %s", t, j[2], j[3], j[4])
        elif kind == "died":
            require(crashes > 0, "%s ended at %s", j[2], t)
            crashes -= 1
            if j[2].startswith("ts"):
                part, rep = {}, {}
            labels.add("crash of " + j[2][:2])
        elif kind == "ts started":
            part[j[2].split("#")[0]] = j[2]
        elif kind == "refused":
            labels.add("refused")
            require(faulty, "%s refused to start at %s although nothing failed", j[2], t)
        elif kind == "started":
            begun[j[2]] = t + j[3]
        elif kind == "report":
            last[j[2]] = j[3]
            if not faulty and j[2][:2] == "dc":
                due = [i for i, (u, d, k) in enumerate(case["events"]) if "dc%d" % d == j[2].split("#")[0]
                       and begun[j[2]] + 3 <= u <= t - 1 and KIND_OF[case["kinds"][k][0]] in wanted]
                require(set(due) <= set(j[3]), "the relay of %s was not asked for events %s", j[2], sorted(set(due) - set(j[3])))
        elif kind == "ts report":
            n = j[2].split("#")[0]
            if j[3] and part.get(n) == j[2]:
                rep[n] = last[j[2]]
        elif kind == "calm":
            calm = True
        elif kind == "published":
            tally, inside, leaks, files = j[2:]
            expect_eq(leaks, [], "secrets in the results published at %s" % t)
            expect_eq(tally, inside, "tally in the outcome file")
            if tally is None:
                require(faulty, "no tally at %s although nothing failed", t)
                labels.add("round without tally")
            else:
                missing = sorted(set(part) - set(rep))
                require(not missing, "a tally at %s without the reports of %s", t, missing)
                require(any(n[:2] == "dc" for n in part) and any(n[:2] == "sk" for n in part), "a tally of nobody's reports")
                out = []
                for n in part:
                    if n[:2] == "dc":
                        m = Model(FAM, {}, START)
                        for i in rep[n]:
                            feed(m, case["kinds"][case["events"][i][2]])
                        out += m.out
                        counted += len(rep[n])
                want = totals(counters, out)
                got = {n: [b[2] for b in tally[n]] for n in tally}
                expect_eq({n: x for n, x in got.items() if any(x)}, want, "totals published at %s" % t)
                expect_eq(sorted(set(got) - {"ZeroCount"}), sorted(counters), "counters published")
                tallies += 1
                late += calm
                labels.add("exact tally" if want else "empty tally")
                labels.add("%d collectors" % sum(1 for n in part if n[:2] == "dc"))
            part, rep = {}, {}
    require(late >= 2 or (not faulty and tallies >= 2), "only %d tallies %s", late, "after the last fault was over")
    return counted > 0, sorted(labels)


CHECK = Check("C25", [Test("calm", cases(False), run, 30, 1500, shards=3), Test("faults", cases(True), run, 50, 3000, shards=4)],
    ["ops_deploy"],
    "A case is a deployment in one process on a virtual clock: the real tally server, 1 to 3 data collectors with their (stand-in) "
    "relays and 1 to 3 share keepers, on a network with random latency and split packets, over two or more rounds, with 5 to 40 "
    "relay events at any time. In the second test nodes crash and restart, links break, and servers and relays cannot be reached "
    "for a while. Each published tally must equal the model's totals of the events that reached the collectors taking part, and "
    "all of them must have reported from the process that started; without faults each round must have a tally, and after the "
    "last fault two more tallies must come. Results are searched for keys, secrets, shares and raw reports. Non-trivial when a "
    "tally counts an event.",
    ["every node that crashes comes back", "noise is zero so that totals are exact", "the handshake secret and configurations fit"])
