import json
from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require
from gens import INF
import tscheck
import tsmodel
from tsmodel import words
from tscheck import LIST_KEYS, summary


def run(case, w):
    m = tscheck.run(case, w)
    return bool(m.results), sorted(m.labels)


@st.composite
def contexts(draw):
    names = draw(st.lists(st.sampled_from(sorted(tsmodel.PLAIN)), min_size=1, max_size=3, unique=True))
    start = dict(counters={n: {"bins": tsmodel.PLAIN[n]} for n in names},
                 noise={"counters": {n: {"sigma": draw(st.sampled_from([0.0, 1.0, 50.0]))} for n in names}},
                 noise_weight={"*": 1.0}, dc_threshold=1, collect_period=300, defer_time=draw(st.sampled_from([0.0, 7.5])),
                 circuit_sample_rate=draw(st.sampled_from([1.0, 0.5])), max_cell_events_per_circuit=draw(st.sampled_from([-1, 9])))
    for k in LIST_KEYS:
        start[k + "_lists"] = draw(lists(k))
    start["domain_suffixes"] = {w: {} for l in start["domain_lists"] for w in l}
    start["as_data"] = {"lists": draw(lists("as")), "prefix_maps": {}}
    if start["as_data"]["lists"]:
        start["as_data"]["prefix_maps"] = {"4": "10.0.0.0/8\t5\n11.0.0.0/8\t7\n12.0.0.0/8\t8",
                                           "6": "2001:db8::/32\t9"}
    return dict(start=start, dc={"name": "collector-1", "delay_period": draw(st.integers(0, 99)), "always_delay": False,
                                 "noise_weight": 1.0},
                sk={"delay_period": draw(st.integers(0, 99))}, source={"ip": "127.0.0.1", "port": 20003},
                wait=draw(st.sampled_from([0.25, 10.0, 300.0])), stop={"send_counters": draw(st.booleans())})


@st.composite
def lists(draw, kind):
    return [words(kind, i, draw(st.sampled_from([1, 2, 3, 26]))) for i in range(draw(st.integers(0, 2)))]


def without(d, *keys):
    return {k: v for k, v in d.items() if k not in keys}


def run_context(case, w):
    r = w.call("context", case)
    expect_eq(r["dc_start"], "ok", "start of the data collector")
    expect_eq(r["sk_start"][0], "ok", "start of the share keeper")
    whole = json.dumps([r["status"], r["again"], r["sk_start"], r["dc_stop"], r["sk_stop"]])
    for s in r["secrets"]:
        require(s not in whole, "a status or answer contains a secret")
    require("PRIVATE KEY" not in whole, "a status or answer contains a private key")
    late = json.dumps([r["status"], r["again"], r["dc_stop"], r["sk_stop"]])
    for s in r["ciphertexts"] + r["values"]:
        require(s not in late, "a status or configuration contains a blinding share or a count")
    for who, keep in (("dc", r["dc_stop"]), ("sk", r["sk_stop"])):
        expect_eq(keep[0], "ok", "answer to stop")
        conf = keep[1]["Config"]
        want = dict(r[who + "_config"], **r["limits"])
        expect_eq(without(conf, "Start", "Stop", "Time"), want, "configuration reported by the %s" % who)
        expect_eq(conf["Stop"], case["stop"], "stop command reported by the %s" % who)
        start, sent = conf["Start"], r[who + "_sent"]
        if who == "sk":
            expect_eq(without(start, "shares"), without(sent, "shares"), "start command reported by the keeper")
            expect_eq([without(x, "secret") for x in start["shares"]], [without(x, "secret") for x in sent["shares"]],
                      "shares reported by the keeper")
            continue
        for k in LIST_KEYS:
            expect_eq(start[k + "_lists"], [summary(l) for l in sent[k + "_lists"]], "%s lists reported" % k)
        expect_eq(start["as_data"]["lists"], [summary(l) for l in sent["as_data"]["lists"]], "AS lists reported")
        expect_eq(start["as_data"]["prefix_maps"], {k: summary(v.splitlines()) for k, v in
                                                    sent["as_data"]["prefix_maps"].items()}, "prefix maps reported")
        if sent["domain_suffixes"]:
            s = start["domain_suffixes"]
            require(isinstance(s, str) and s.endswith("(%d)" % len(sent["domain_suffixes"])), "domain suffixes reported: %s", s)
            require(sum(1 for x in sent["domain_suffixes"] if x in s) <= 4, "domain suffixes reported: %s", s)
        raw = set(k + "_lists" for k in LIST_KEYS) | {"as_data", "domain_suffixes"}
        expect_eq(without(start, *raw), without(sent, *raw), "start command reported by the collector")
    long = any(len(l) > 2 for k in LIST_KEYS for l in case["start"][k + "_lists"])
    return long, ["stop with%s counts" % ("" if case["stop"]["send_counters"] else "out")] + (["long lists"] if long else [])


CHECK = Check("C13", [Test("results", tsmodel.histories("context"), run, 350, 6000, shards=4),
                      Test("clients", contexts(), run_context, 150, 2000, shards=2, jy=["ops_node"])], ["ops_server"],
    "results: whole rounds of a real tally server with match lists and clients that report configurations full of marked "
    "strings; the result files must equal the model's, and no marked path, key, secret, share or raw count may occur in them. "
    "clients: a real data collector and share keeper start and stop; their statuses and answers must report their "
    "configuration and the start command with every list summarised and every share removed. Non-trivial when a round ended, "
    "or a list of more than two entries was summarised.",
    ["the SHA-256 of keys and the names of relays are public"])
