"""C30: what the plotting tool shows is what the result files say"""
import json
import math
import re
from decimal import Decimal, ROUND_HALF_UP
from hypothesis import strategies as st
import c29
from vp import Check, Test, expect_eq, require

INF = float("inf")
MAX = 10 ** 18
NAMES = ["ExitStreamCount", "ZeroCount", "EntryClientIPCount", "ExitStreamByteHistogram", "ExitStreamByteRatio",
         "EntryConnectionLifeTime", "ExitDomainExactMatchWebInitialStreamCountList", "EntryConnectionCountryMatchCountList",
         "EntryConnectionASMatchCountList", "HSDirStoreReasonCountList", "HSDir2FetchReasonCountList",
         "IntroClientFailureCircuitReasonCountList", "HSDir2StoreOnionAddressCountList", "Rend2ClientCircuitCount"]
ROLE = {"ExitDomainExactMatchWebInitialStreamCountList": "domain", "EntryConnectionCountryMatchCountList": "country",
        "EntryConnectionASMatchCountList": "as", "HSDirStoreReasonCountList": "hsdir_store",
        "HSDir2FetchReasonCountList": "hsdir_fetch", "IntroClientFailureCircuitReasonCountList": "circuit_failure",
        "HSDir2StoreOnionAddressCountList": "onion_address"}
edge = st.one_of(st.integers(-50, 50), st.integers(-10 ** 9, 10 ** 9), st.sampled_from([0.5, -2.25, 1e12]))
value = st.one_of(st.integers(-100, 100), st.integers(-10 ** 7, 10 ** 7), st.sampled_from([0, 0, MAX, MAX + 1, 10 ** 20, -10 ** 20]))
sigma = st.one_of(st.sampled_from([0.0, 0.25, 1.0, 2.5, 7, 1000.0, 12345.678]), st.floats(0.01, 1e8))
word = st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=24)
ext = st.sampled_from([".txt", "", ".list.txt"])


@st.composite
def some_bins(draw, name, k):
    if name.endswith("Count"):
        return [[0.0, INF]]
    if name.endswith("CountList"):
        return [[float(i), float(i + 1)] for i in range(k - 1)] + [[float(k - 1), INF]]
    cuts = sorted(draw(st.sets(edge, min_size=2, max_size=5)))
    if draw(st.booleans()):
        cuts.append(INF)
    if draw(st.booleans()):
        cuts.insert(0, -INF)
    return [[float(a), float(b)] for a, b in zip(cuts, cuts[1:])]


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    # the same number of bins everywhere, as labels of the user need
    same = draw(st.sampled_from([0, 0, 1, 2, 3, 4]))
    if same == 1:
        names = [n for n in names if n not in ROLE] or NAMES[:1]
    roles = {}
    for n in names:
        if n in ROLE:
            lo, hi = (same - 1, same - 1) if same else (1, 3)
            files = draw(st.lists(word.filter(lambda s: "/" not in s and s[0] != "."), min_size=lo, max_size=hi))
            roles[ROLE[n]] = dict(
                files=["/data/" + "dir.d/" * draw(st.booleans()) + f + draw(ext) for f in files],
                content=[draw(st.sampled_from(["'%s' (1)", "'%s ... b' (20)"])) %
                         draw(word.filter(lambda s: "'" not in s and s[0] != "/")) for _ in files])
    if same:
        bins = {n: [[float(i), float(i + 1)] for i in range(same)] for n in names}
        source = draw(st.sampled_from(["range", "custom", "custom", "file"]))
    else:
        bins = {n: draw(some_bins(n, len(roles[ROLE[n]]["files"]) + 1 if n in ROLE else 1)) for n in names}
        source = draw(st.sampled_from(["range", "file", "content"]))
    exps = []
    sig = {n: draw(sigma) for n in names}
    for i in range(draw(st.sampled_from([1, 1, 2, 2, 3]))):
        here = [n for n in names if draw(st.integers(0, 4))] or names[:1]
        # labels of match lists come from the files of every experiment, so all of them are outcomes then
        kind = draw(st.sampled_from(["tallies", "sigmas", "outcome", "outcome"])) if source in ("range", "custom") else "outcome"
        exps.append(dict(label=draw(st.sampled_from(["run", "my run", "a (b)"])) + str(i), kind=kind,
                         ratio=draw(st.sampled_from([None, 3.0, 3.0, 1.0, 2.5, 0.0])),
                         sigmas={n: draw(sigma) if draw(st.integers(0, 3)) == 0 else sig[n] for n in here},
                         values={n: [draw(value) for _ in bins[n]] for n in here}))
    custom = None
    if source == "custom":
        k = len(bins[names[0]])
        custom = draw(st.lists(word, min_size=max(k - draw(st.integers(0, 1)), 1), max_size=k))
        custom = custom[:k]
    return dict(bins=bins, roles=roles, exps=exps, source=source, custom=custom,
                stddev=draw(st.sampled_from([None, None, "2", "1", "1.96", "3.5", "0", "0.0", "12"])),
                zero=draw(st.booleans()), noisy=draw(st.integers(0, 3)) == 0, izero=draw(st.integers(0, 3)) == 0,
                totals=draw(st.integers(0, 2)) == 0)


def document(case, e):
    t = {n: {"bins": [b + [v] for b, v in zip(case["bins"][n], e["values"][n])]} for n in e["values"]}
    if e["kind"] == "tallies":
        return t
    if e["kind"] == "sigmas":
        for n in t:
            t[n]["sigma"] = e["sigmas"][n]
        return t
    noise = {"privacy": {} if e["ratio"] is None else {"excess_noise_ratio": e["ratio"]},
             "counters": {n: {"sigma": s} for n, s in e["sigmas"].items()}}
    if e["ratio"] is None and len(e["values"]) % 2:
        # as in a file of sigmas
        del noise["privacy"]
    conf = {"noise": noise}
    for k, v in case["roles"].items():
        conf[k + "_files"] = v["files"]
        conf["as_raw_lists" if k == "as" else k + "_lists"] = v["content"]
    if "as" in case["roles"]:
        conf["as_lists"] = "[redacted]"
    return {"Tally": t, "Context": {"TallyServer": {"Config": conf}}}


def labels_of(case, n):
    """labels of the bins of n, or None for ranges"""
    if case["source"] == "custom":
        l = list(case["custom"])
    elif case["source"] == "range" or n not in case.get("role", ROLE):
        return None
    elif case["source"] == "file":
        l = []
        for f in case["roles"][case.get("role", ROLE)[n]]["files"]:
            f = f.rpartition("/")[2]
            l.append(f.rpartition(".")[0] if "." in f else f)
    else:
        l = []
        for x in case["roles"][case.get("role", ROLE)[n]]["content"]:
            l.append(x[1:-5] if x.endswith(" (1)") else x)
    if len(l) < len(case["bins"][n]):
        l.append("(unmatched)")
    return l


def half_up(x):
    return int(Decimal(x).quantize(Decimal(1), rounding=ROUND_HALF_UP))


def reference(case):
    """counters in the order of the tool"""
    k = float(case["stddev"] or 2)
    out = []
    for e in case["exps"]:
        for n in sorted(e["values"]):
            r = 3.0 if e["kind"] != "outcome" or e["ratio"] is None else e["ratio"]
            s = 0.0 if e["kind"] == "tallies" else e["sigmas"][n]
            out.append(dict(label=e["label"], name=n, values=e["values"][n], var=r * float(s) ** 2 if r > 0 and s > 0 else None))
    if case["totals"]:
        for n in list(dict.fromkeys(c["name"] for c in out)):
            group = [c for c in out if c["name"] == n]
            var = None if any(c["var"] is None for c in group) else sum(c["var"] for c in group)
            out.append(dict(label="total", name=n, values=[sum(v) for v in zip(*[c["values"] for c in group])], var=var))
    for c in out:
        err = half_up(k * math.sqrt(c["var"])) if c["var"] is not None and k > 0 else None
        c["err"] = err
        c["bins"] = []
        for (lo, hi), v in zip(case["bins"][c["name"]], c["values"]):
            floor = 0 if case["zero"] else -INF
            bound = max(min(v, MAX), floor)
            b = dict(lo=lo, hi=hi, v=v, bound=bound, err=err, bounded=["value"] * (bound != v))
            low = v
            b["noisy"] = False
            if err is not None:
                low = v - err
                b["prop"] = err / abs(v) if v else INF
                b["noisy"] = b["prop"] >= 1.0
                b["blow"] = max(min(low, MAX), floor)
                b["bhigh"] = max(min(v + err, MAX), floor)
                b["bounded"] += ["error low"] * (bound - b["blow"] != err) + ["error high"] * (b["bhigh"] - bound != err)
            b["iszero"] = low <= 0
            c["bins"].append(b)
    if case["noisy"] or case["izero"]:
        for n in {c["name"] for c in out}:
            group = [c for c in out if c["name"] == n]
            for i in range(len(case["bins"][n])):
                hide = all(case["noisy"] and c["bins"][i]["noisy"] or case["izero"] and c["bins"][i]["iszero"] for c in group)
                for c in group:
                    c["bins"][i]["hide"] = hide
    labelled = []
    for c in out:
        ls = labels_of(case, c["name"])
        for i, b in enumerate(c["bins"]):
            b["label"] = ls and ls[i]
        c["bins"] = [b for b in c["bins"] if not b.get("hide")]
        if c["bins"]:
            labelled.append(c)
    return labelled, k


LINE = re.compile(r"^(\S+) \[ *(\S+), *(\S+)\)(?: '(.*)')? = *(-?\d+)(?: \+- (\d+) \( *([0-9.]+|inf(?:inity)?)%\))? "
                  r"\( *(\w+), *(\w+)\)(?: bound: *(-?\d+)(?: \[ *(-?\d+), *(-?\d+)\])? \(([^()]*)\))?$", re.I)


def run(case, w):
    opts = []
    if case["stddev"] is not None:
        opts += ["-c", case["stddev"]]
    opts += ["-z"] * case["zero"] + ["-n"] * case["noisy"] + ["-i"] * case["izero"] + ["-a"] * case["totals"]
    a = dict(files=[[e["label"], json.dumps(document(case, e))] for e in case["exps"]], options=opts, labels=None)
    if case["source"] == "custom":
        a["labels"] = "\n".join(case["custom"]) + "\n"
    else:
        opts += ["-b", case["source"]]
    r = w.call("plot", a)
    want, k = reference(case)
    if any(c["var"] is not None and abs(k * math.sqrt(c["var"]) % 1 - 0.5) < 1e-6 for c in want):
        return False, ["error rounded either way"]
    judge(case, r, want, k)
    n = sum(len(c["bins"]) for c in want)
    all_bins = sum(len(case["bins"][x]) for e in case["exps"] for x in e["values"])
    labels = ["totals"] * case["totals"] + ["custom labels"] * (case["source"] == "custom") + ["bounded"] * any(
        b["bounded"] for c in want for b in c["bins"]) + ["hidden bins"] * (n < all_bins) + ["with noise"] * any(
        c["err"] is not None for c in want)
    return n > 0, labels + ["several files"] * (len(case["exps"]) > 1)


def label_ok(got, c, k, stddev):
    if c["err"] is None:
        return got == c["label"]
    m = re.match(r"^(.*) \((\S+) (?:sigma|\$\\sigma\$) = (\S+)% CI\)$", got)
    if not m or m.group(1) != c["label"] or m.group(2) != (stddev or "2"):
        return False
    ci = math.erf(k / math.sqrt(2))
    return abs(float(m.group(3)) / 100 - ci) <= 0.1 * (1 - ci) + 1e-9


def judge(case, r, want, k):
    require(r["err"] is None, "the tool failed: %s", r["err"])
    expect_eq(sorted(r["files"]), ["out.privcount.results.txt"], "files written")
    # the text
    lines = r["files"]["out.privcount.results.txt"].split("\n")
    require(lines.pop() == "", "the last line is cut")
    at = 0
    head = None
    for c in want:
        if at < len(lines) and lines[at].startswith("Experiment Label: "):
            head = lines[at][18:]
            at += 1
        require(head is not None and label_ok(head, c, k, case["stddev"]), "heading of %s of %s: %r", c["name"], c["label"], head)
        for b in c["bins"]:
            require(at < len(lines), "no line for %s %s", c["name"], b)
            what = "%s: %r" % (b, lines[at])
            m = LINE.match(lines[at])
            require(m, "unreadable line, expected %s", what)
            at += 1
            g = m.groups()
            require(g[0] == c["name"] and abs_eq(g[1], b["lo"]) and abs_eq(g[2], b["hi"]), "wrong bin, expected %s %s", c["name"], what)
            expect_eq(g[3], b["label"] if b["label"] != "[%.1f,%.1f)" % (b["lo"], b["hi"]) else None, "label of %s" % what)
            expect_eq(int(g[4]), b["v"], "value of %s" % what)
            if b["err"] is None:
                expect_eq(g[5], None, "error of %s" % what)
            else:
                expect_eq(int(g[5]), b["err"], "error of %s" % what)
                p = float(g[6])
                require(p == b["prop"] * 100 or abs(p - b["prop"] * 100) <= 0.051 + 1e-9 * p, "error in percent of %s", what)
            expect_eq([g[7], g[8]], ["obscured" if b["noisy"] else "visible", "zero" if b["iszero"] else "positive"], "status of %s" % what)
            if not case["zero"] and not b["bounded"]:
                expect_eq(g[9], None, "bounds of %s" % what)
            else:
                require(g[9] is not None, "no bounds in %s", what)
                expect_eq(int(g[9]), b["bound"], "bounded value of %s" % what)
                if b["err"] is not None:
                    expect_eq([int(g[10]), int(g[11])], [b["blow"], b["bhigh"]], "bounded errors of %s" % what)
                expect_eq(g[12], ", ".join(b["bounded"]) or "no change", "what was bounded in %s" % what)
    expect_eq(lines[at:], [], "further lines")
    # the pages
    names = sorted({c["name"] for c in want})
    expect_eq([p["title"] for p in r["pages"]], names, "pages")
    expect_eq(r["pdfs"], [["out.privcount.results.pdf", len(names), True]], "pages saved")
    colours = {}
    for p in r["pages"]:
        group = [c for c in want if c["name"] == p["title"]]
        expect_eq(len(p["bars"]), len(group), "sets of bars of %s" % p["title"])
        expect_eq(len(p["legend"]), len(group), "legend of %s" % p["title"])
        for i, (c, bar) in enumerate(zip(group, p["bars"])):
            what = "%s of %s" % (c["name"], c["label"])
            expect_eq(bar["height"], [b["bound"] for b in c["bins"]], "bars for %s" % what)
            expect_eq(bar["err"], None if c["err"] is None else [[b["bound"] - b["blow"] for b in c["bins"]], [b["bhigh"] - b["bound"] for b in c["bins"]]],
                      "error bars for %s" % what)
            require(p["legend"][i][0] == i and label_ok(p["legend"][i][1], c, k, case["stddev"]), "legend of %s: %s", what, p["legend"])
            colours.setdefault(c["label"], set()).add(bar["color"])
        ticks = [graph_label(c["name"], b) for b in group[0]["bins"]]
        expect_eq(p["ticks"], ticks, "labels of the bars of %s" % p["title"])
        spans = sorted((x, x + bar["width"]) for bar in p["bars"] for x in bar["left"])
        require(all(a[1] <= b[0] + 1e-9 for a, b in zip(spans, spans[1:])), "bars of %s overlap: %s", p["title"], spans)
    require(all(len(v) == 1 for v in colours.values()) and len(set(map(min, colours.values()))) == len(colours), "colours: %s", colours)


def abs_eq(text, x):
    v = float(text)
    return v == x or abs(v - x) <= 0.051 + 1e-12 * abs(x)


def graph_label(name, b):
    if b["label"] is not None:
        return b["label"] if len(b["label"]) <= 15 else b["label"][:12] + "..."
    def end(x, sign):
        if x == sign * INF:
            return "$%s\\infty$" % ("-" if sign < 0 else "")
        # as the Python that runs the tool prints it
        return ("%.12g" % x + (".0" if float(x).is_integer() and abs(x) < 1e12 else "")) if name.endswith("Ratio") else "%d" % int(x)
    return "[%s,%s)" % (end(b["lo"], -1), end(b["hi"], 1))


@st.composite
def rounds(draw):
    c = draw(c29.cases())
    c["rounds"] = c["rounds"][:1]
    return dict(round=c, source=draw(st.sampled_from(["file", "content", "content"])), izero=draw(st.booleans()))


def run_round(case, w):
    """the outcome of a round, plotted with the names and contents of the lists of that round"""
    c = case["round"]
    r = c29.collect(c, w)[0]
    require("files" in r, "no results")
    text = [t for f, t in r["files"].items() if "outcome" in f][0]
    doc = json.loads(text)
    conf = doc["Context"]["TallyServer"]["Config"]
    t = doc["Tally"]
    lists = c["rounds"][0]["lists"]
    role = {n: c29.listed(n) for n in t if c29.listed(n) in lists}
    roles = {}
    for k in lists:
        key = "as_raw" if k == "as" else k
        require(key + "_lists" in conf and len(conf[key + "_lists"]) == len(lists[k]), "no summaries of the %s lists in the outcome", k)
        raw = "onion" if k == "onion_address" else k
        roles[k] = dict(files=["/%s%d" % (k, i) for i in range(len(lists[k]))], content=conf[key + "_lists"])
    plot = dict(bins={n: [b[:2] for b in t[n]["bins"]] for n in t}, roles=roles, role=role, source=case["source"], custom=None,
                stddev=None, zero=False, noisy=False, izero=case["izero"], totals=False,
                exps=[dict(label="run0", kind="outcome", ratio=None, sigmas={n: 0.0 for n in t},
                           values={n: [b[2] for b in t[n]["bins"]] for n in t})])
    a = dict(files=[["run0", text]], options=["-b", case["source"]] + ["-i"] * case["izero"], labels=None)
    judge(plot, w.call("plot", a), *reference(plot))
    return bool(role), [case["source"]] + ["labels for " + k for k in sorted(set(role.values()))]


CHECK = Check("C30", [Test("plot", cases(), run, 500, 8000, shards=2), Test("round", rounds(), run_round, 60, 1500, shards=4)],
              ["ops_plot", "ops_pipe"],
    "plot: "
    "One to three result files (outcomes, and tallies with and without noise), with counters of all kinds, values up to and "
    "beyond the largest, sigmas and excess noise ratios including none, and every option of the plotting tool: confidence, "
    "zero bound, ignored bins, totals, labels of four kinds. The text file, and the bars, error bars, labels, legends and pages "
    "that a stand-in for matplotlib records, must equal a reference. Non-trivial when a bin is shown. round: the outcome of a "
    "round of a real tally server and clients (as in C29), plotted with labels from the match lists; non-trivial when there are any.",
    ["all files give the same bins and labels to a counter", "labels of experiments differ"])
