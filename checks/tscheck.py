"""Compares a tally server with its model, message by message and file by file"""
import json
import re
import tsmodel
from tsmodel import CADDR, LISTED, START, History, Server
from vp import expect_eq, require

LIST_KEYS = ["domain", "country", "hsdir_store", "hsdir_fetch", "circuit_failure", "onion_address"]
PATHS = {"state": "(state path)", "secret_handshake": "(secret_handshake path)", "key": "(key path)"}


def bins_of(counters):
    return {k: counters[k]["bins"] for k in counters}


def sigmas_of(noise):
    return {k: noise["counters"][k]["sigma"] for k in noise["counters"]}


def check_status(got, want, p, what):
    got, want = dict(got), dict(want)
    require(got.pop("privcount_version", ""), "no version in the status")
    got.pop("delay_reason", None)
    if p is not None and p.conf["collect_period"] * 1.0 + p.begin != want.get("expected_end_time"):
        # the operator changed the period meanwhile
        got.pop("expected_end_time", None)
        want.pop("expected_end_time", None)
    expect_eq(got, want, "status of the server, %s" % what)


def check_lists(got, want, maps, what):
    for kind in LIST_KEYS + ["as"]:
        g = got["as_data"]["lists"] if kind == "as" else got[kind + "_lists"]
        w = want.get(kind, [])
        expect_eq(len(g), len(w), "number of %s lists in %s" % (kind, what))
        for a, b in zip(g, w):
            a = set(str(x) for x in a)
            if kind == "onion_address":
                a = set(x for x in a if not re.match(r"[0-9a-f]{32}$", x))
            expect_eq(sorted(a), sorted(set(b)), "%s list in %s" % (kind, what))
    expect_eq(bool(got["domain_suffixes"]), bool(want.get("domain")), "suffixes in %s" % what)
    gm = got["as_data"].get("prefix_maps", {})
    if "as" in want:
        expect_eq([gm["4"].splitlines(), gm["6"].splitlines()], [m.splitlines() for m in maps], "prefix maps in %s" % what)
    else:
        require(not gm, "prefix maps in %s", what)


def check_start(got, want, what):
    expect_eq(bins_of(got["counters"]), bins_of(want["counters"]), "counters of %s" % what)
    expect_eq(sigmas_of(got["noise"]), want["noise"], "noise of %s" % what)
    for k in ("noise_weight", "dc_threshold", "collect_period"):
        expect_eq(got[k], want[k], "%s of %s" % (k, what))
    if "shares" in want:
        key = lambda x: json.dumps(x, sort_keys=True)
        expect_eq(sorted(got["shares"], key=key), sorted(want["shares"], key=key), "shares of %s" % what)
        extra = ["shares"]
    else:
        extra = ["sharekeepers", "defer_time", "max_cell_events_per_circuit", "circuit_sample_rate"]
        for k in extra:
            expect_eq(got[k], want[k], "%s of %s" % (k, what))
        check_lists(got, want["lists"], want["maps"], what)
        extra += [k + "_lists" for k in LIST_KEYS] + ["as_data", "domain_suffixes"]
    known = set(extra) | {"counters", "noise", "noise_weight", "dc_threshold", "collect_period"}
    expect_eq(sorted(set(got) - known), [], "other contents of %s" % what)


def check_lines(lines, want, m, what):
    expect_eq([l.split(" ")[0] for l in lines], [w[0] for w in want], "answers to %s" % what)
    for line, (word, body) in zip(lines, want):
        rest = line.split(" ", 1)[1]
        if word == "STATUS":
            t, body_text = rest.split(" ", 1)
            expect_eq(float(t), m.now, "time of the status, %s" % what)
            check_status(json.loads(body_text), body, m.phase, what)
        elif word == "CHECKIN":
            expect_eq(int(rest), body, "check-in period, %s" % what)
        elif word == "STOP":
            expect_eq(json.loads(rest), body, "stop command, %s" % what)
        else:
            check_start(json.loads(rest), body, "the start command to %s" % what)


def redact(config, typ):
    c = json.loads(json.dumps(config))
    for k in PATHS:
        if k in c and (k != "key" or typ == "ShareKeeper"):
            c[k] = PATHS[k]
    s = c.get("Start", {})
    if "counters" in s:
        s["counters"] = "(counter bins, no counts)"
    if "counters" in s.get("noise", {}):
        s["noise"]["counters"] = "(counter sigmas, no counts)"
    for u in s.get("sharekeepers", {}):
        s["sharekeepers"][u] = "(public key)"
    return c


def summary(items):
    text = items[0] if len(items) == 1 else items[0] + "...." + items[-1]
    return "'%s' (%d)" % (text, len(items))


def check_server_context(ctx, r):
    conf = r["conf"]
    check_status(ctx["Status"], r["server"], None, "in the results") if "expected_end_time" not in r["server"] or \
        r["server"]["expected_end_time"] == r["begin"] + conf["collect_period"] else None
    c = ctx["Config"]
    for k in ("dc_threshold", "sk_threshold", "noise_weight", "collect_period", "event_period", "checkin_period",
              "delay_period", "always_delay", "continue", "circuit_sample_rate", "max_cell_events_per_circuit"):
        expect_eq(c[k], conf[k], "%s of the round in the results" % k)
    expect_eq(sigmas_of(c["noise"]), conf["sigma"], "sigmas in the results")
    expect_eq(c["counters"], "(counter bins, no counts)", "counters of the configuration in the results")
    for k, v in (("key", "(key path)"), ("cert", "(cert path)"), ("secret_handshake", "(secret_handshake path)"),
                 ("results", "(results path)")):
        expect_eq(c[k], v, "%s in the results" % k)
    for kind, lists in conf["lists"].items():
        raw = c["as_raw_lists"] if kind == "as" else c[kind + "_lists"]
        expect_eq(raw, [summary(l) for l in lists], "summaries of the %s lists" % kind)


def check_results(files, r, secrets):
    stem = "%d-%d.json" % (int(round(r["begin"])), int(round(r["stopping"])))
    names = ["privcount.outcome." + stem] + (["privcount.tallies." + stem] if r["tally"] is not None else [])
    expect_eq(sorted(files), sorted(names), "files written at the end of the round")
    out = json.loads(files[names[0]])
    if r["tally"] is None:
        require("Tally" not in out, "a tally although %s", "a participant reported no counts" if r["error"] else
                "the reports do not fit together")
    else:
        want = {k: [list(b) + [x] for b, x in zip(r["conf"]["bins"][k], v)] for k, v in r["tally"].items()}
        expect_eq(bins_of(out["Tally"]), want, "tally")
        expect_eq(bins_of(json.loads(files[names[1]])), want, "tallies file")
    ctx = out["Context"]
    t = dict(Start=r["begin"], Stopping=r["stopping"], End=r["end"], CollectStopping=r["stopping"] - r["begin"],
             CollectEnd=r["end"] - r["begin"], StoppingDelay=r["end"] - r["stopping"], ClockPadding=r["padding"])
    expect_eq(ctx["Time"], t, "times in the results")
    for typ in ("DataCollector", "ShareKeeper"):
        want = {}
        for u, c in r["clients"].items():
            if c["type"] != typ:
                continue
            s = {k: v for k, v in c.items() if k not in ("type",) + CADDR}
            if typ == "ShareKeeper":
                s["public_key"] = "(public key)"
            want[u] = {"Status": s}
            if u in r["configs"]:
                want[u]["Config"] = redact(r["configs"][u], typ)
        got = {u: dict(c, Status={k: v for k, v in c["Status"].items() if k not in CADDR})
               for u, c in ctx.get(typ, {}).items()}
        expect_eq(got, want, "%ss in the results" % typ)
    check_server_context(ctx["TallyServer"], r)
    expect_eq(sorted(set(ctx) - {"Time", "DataCollector", "ShareKeeper", "TallyServer"}), [], "other context")
    # what must not be in any file
    text = "\n".join(files.values())
    published = set(x for v in (r["tally"] or {}).values() for x in v)
    for u, counts in r["counts"].items():
        for k in counts:
            for b in counts[k]["bins"]:
                if len(b) > 2 and b[2] > 2 ** 40 and b[2] not in published:
                    require(str(b[2]) not in text, "the results contain a raw count of %s", u)
    for s in secrets:
        require(s not in text, "the results contain %s", s)
    for kind, lists in r["conf"]["lists"].items():
        for l in lists:
            if kind in ("domain", "onion_address") and len(l) > 4:
                # whatever order a summary is made in, it names two entries
                where = ctx["TallyServer"]["Config"]
                n = sum(1 for w in l if w in json.dumps(where))
                require(n <= 5, "%d of %d entries of a %s list in the results", n, len(l), kind)


def run(case, w):
    res = w.call("server", case)
    out = res["out"]
    m = Server(case["config"])
    expect_eq(out[0], {"listen": ["listenssl"], "calls": 1}, "start of the server")
    secrets = [res["secret"]] + res["key"] + [res["scratch"], "SHARE-", "PUBLIC-KEY-OF", "-PATH-"]
    for i, s in enumerate(case["steps"]):
        before = len(m.results)
        want = History.play(m, s)
        require(i + 1 < len(out), "the server stopped before step %d", i)
        o = out[i + 1]
        what = "step %d (%s)" % (i, " ".join(str(x) for x in s[:2]) if s[0] != "config" else "configuration")
        require("exc" not in o, "exception in %s: %s", what, o.get("exc"))
        expect_eq(o["stopped"], 0, "the server goes on after %s" % what)
        require("others" not in o, "message to another client in %s", what)
        if s[0] in ("open", "send") and s[1] in m.conns:
            check_lines(o.get("lines", []), want, m, what)
            expect_eq(o["closed"], m.conns[s[1]]["closed"], "connection closed after %s" % what)
        fresh = m.results[before:]
        if fresh:
            secr = [x for x in secrets]
            require("files" in o, "no results at the end of the round, %s", what)
            scan = {f: t.replace("SCRATCHDIR", "") for f, t in o["files"].items()}
            check_results(scan, fresh[-1], [x for x in secr if x != res["scratch"]])
        else:
            require("files" not in o, "results without the end of a round, %s", what)
    return m
