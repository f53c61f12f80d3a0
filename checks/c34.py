"""C34: the command line"""
import re
from hypothesis import strategies as st
from vp import Check, Test, require, expect_eq, short

T0 = 1499825281.0
START = 1500000000.0
LEVELS = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR"}
CONTENT = st.one_of(st.text(st.sampled_from("abc:- \n\t'{}"), max_size=60), st.just(""), st.just("tally_server:\n    a: 1\n"),
                    st.text(st.characters(min_codepoint=0, max_codepoint=255).filter(lambda c: c not in "\r"), max_size=30))
PATHS = [("conf.yaml", ["@/conf.yaml", "../conf.yaml", "~/conf.yaml", "@/work/../conf.yaml"]), ("work/conf", ["@/work/conf", "conf", "./conf", "~/work/conf"]),
         ("with space.yaml", ["@/with space.yaml", "../with space.yaml"])]
LOGS = [("log.txt", ["@/log.txt", "../log.txt", "~/log.txt"]), ("work/log", ["log", "@/work/log"]), ("new/log", ["@/new/log", "../new/log"]), ("new/dir/log", ["@/new/dir/log", "../new/dir/log"])]


def event(i, t):
    return "PRIVCOUNT_CIRCUIT_CELL N=%d EventTimestamp=%.1f" % (i, t)


@st.composite
def cases(draw):
    argv, files, stdin = [], [], ""
    mode = draw(st.sampled_from(["ts", "sk", "dc", "dc", "ts", "sk", "inject", "inject", "inject", "plot", "version", "bad"]))
    c = dict(mode=mode, error=False, log=None, level=20, id="", config=None)
    # options of every mode, in any order
    opts = []
    if draw(st.booleans()):
        path, forms = draw(st.sampled_from(LOGS + [(None, ["-"])]))
        c["log"] = path
        form = draw(st.sampled_from(forms))
        opts.append(draw(st.sampled_from([["-l", form], ["--log", form], ["--log=" + form]])))
        if path and "/" not in path and draw(st.booleans()):
            files.append([path, "an older line\n"])
    if draw(st.booleans()):
        c["id"] = draw(st.sampled_from(["1", "-two", "_x", ""]))
        opts.append(["--log-id=" + c["id"]] if draw(st.booleans()) or c["id"][:1] in ("-", "") else ["-i", c["id"]])
    v = draw(st.sampled_from([None, None, "v", "q", "q", "both"]))
    if v in ("v", "both"):
        opts.append([draw(st.sampled_from(["-v", "--debug"]))])
        c["level"] = 10
    if v in ("q", "both"):
        opts.append([draw(st.sampled_from(["-q", "--warn", "--warning"]))])
        c["level"] = 30
    c["error"] = v == "both"
    argv = [x for o in draw(st.permutations(opts)) for x in o]
    argv.append(mode if mode != "bad" else draw(st.sampled_from(["tss", "", "server", "Dc"])))
    c["error"] = c["error"] or mode == "bad"
    if mode in ("ts", "sk", "dc"):
        how = draw(st.sampled_from(["file", "file", "file", "stdin", "missing", "none"]))
        name, forms = draw(st.sampled_from(PATHS))
        if how == "file":
            c["config"] = draw(CONTENT)
            files.append([name, c["config"]])
            argv.append(draw(st.sampled_from(forms)))
        elif how == "stdin":
            stdin = c["config"] = draw(CONTENT)
            argv.append("-")
        elif how == "missing":
            argv.append(draw(st.sampled_from(forms)))
            c["error"] = True
        else:
            c["error"] = True
    elif mode == "plot":
        argv += draw(st.sampled_from([[], ["-o", "@/a.json", "label"]]))
        if len(argv) and argv[-1] == "label":
            files.append(["a.json", "{}"])
    auth = ["AUTHENTICATE"]
    if mode == "inject":
        gaps = draw(st.lists(st.sampled_from([0.0, 1.0, 2.5, 60.0]), min_size=1, max_size=6))
        times = [T0 + sum(gaps[:i + 1]) for i in range(len(gaps))]
        text = "".join(event(i, t) + "\n" for i, t in enumerate(times))
        c["times"] = times
        parts = []
        if draw(st.booleans()):
            files.append(["events.log", text])
            parts.append(["-l", draw(st.sampled_from(["@/events.log", "../events.log", "~/events.log"]))])
        elif draw(st.integers(0, 5)):
            stdin = text
            parts.append([draw(st.sampled_from(["-l", "--log"])), "-"])
        else:
            c["error"] = True           # the log is required
        c["port"] = c["unix"] = c["ip"] = None
        where = draw(st.sampled_from(["port", "unix", "both"]))
        if where != "unix":
            c["port"] = draw(st.sampled_from([20003, 9051, 65535]))
            parts.append([draw(st.sampled_from(["-p", "--port"])), str(c["port"])])
            c["ip"] = draw(st.sampled_from([None, None, "127.0.0.1", "::1", "10.1.2.3"]))
            if c["ip"]:
                parts.append([draw(st.sampled_from(["-i", "--ip"])), c["ip"]])
        if where != "port":
            c["unix"] = "/tmp/privcount-inject"
            parts.append([draw(st.sampled_from(["-u", "--unix"])), c["unix"]])
        c["simulate"] = draw(st.booleans())
        if c["simulate"]:
            parts.append([draw(st.sampled_from(["-s", "--simulate"]))])
        c["window"] = [0.0, 1e10]
        for i, name in enumerate(["--prune-before", "--prune-after"]):
            if draw(st.integers(0, 2)) == 0:
                c["window"][i] = draw(st.sampled_from(times)) + draw(st.sampled_from([-0.5, 0.5]))
                parts.append([name, "%.1f" % c["window"][i]])
        c["password"] = None
        if draw(st.integers(0, 2)) == 0:
            c["password"] = "secret" + "x" * 32
            files.append(["password", c["password"]])
            parts.append(["--control-password", "@/password"])
            c["good"] = draw(st.booleans())
            if draw(st.booleans()) or c["good"]:
                auth = ["AUTHENTICATE " + (c["password"] if c["good"] else "wrong" + c["password"]).encode().hex().upper()]
        argv += [x for o in draw(st.permutations(parts)) for x in o]
    if draw(st.integers(0, 11)) == 0:
        argv.append(draw(st.sampled_from(["--unknown", "extra-argument"])))
        c["error"] = True
    before = draw(CONTENT) if argv[-1] == "-" and draw(st.booleans()) else None
    return dict(c, argv=argv, files=files, stdin=stdin, auth=auth, before=before)


LINE = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \d+\.\d+ \[privcount-(.*?)\] \[([A-Z]+)\] (.*)$")


def run(case, w):
    r = w.call("cli", {k: case[k] for k in ("argv", "files", "stdin", "auth", "before")})
    mode = case["mode"]
    expect_eq(r["gone"], [], "files that are gone")
    if case["error"]:
        require(r["how"][0] == "exit" and r["how"][1] == 2, "wrong arguments: %s", r["how"])
        require(r["err"].strip(), "wrong arguments, but nothing says so")
        expect_eq([r["ran"], r["opened"]], [[], []], "what runs with wrong arguments")
        return True, ["refused"]
    expect_eq(r["how"], ["returned"], "the program (it said %s)" % short(r["err"]))
    labels = [mode]
    # what is logged, and where
    old = dict(case["files"]).get(case["log"], "")
    where = r["made"].get(case["log"], old) if case["log"] else r["err"] + r["out"]
    if case["log"]:
        require(where.startswith(old), "the older log is gone")
        where = where[len(old):]
        expect_eq([l for l in (r["err"] + r["out"]).splitlines() if LINE.match(l)], [], "lines logged to the screen and not to the log")
        labels.append("log file")
    lines = [LINE.match(l) for l in where.splitlines()]
    lines = [m.groups() for m in lines if m]
    for tag, level, msg in lines:
        expect_eq(tag, mode + case["id"], "who says %r" % msg)
        require({v: k for k, v in LEVELS.items()}[level] >= case["level"], "%s is logged: %r", level, msg)
    if mode != "version":
        for n, name in sorted(LEVELS.items()):
            expect_eq([m for t, l, m in lines if l == name and m == "level %d" % n], ["level %d" % n] if n >= case["level"] else [],
                      "lines of level %s when the least is %s" % (name, LEVELS[case["level"]]))
    elif case["level"] <= 20:
        require([m for t, l, m in lines if r["version"] in m], "the version is not said: %s", lines)
    # what runs
    if mode in ("ts", "sk", "dc"):
        expect_eq(len(r["ran"]), 1, "nodes that run")
        expect_eq(r["ran"][0][0], mode, "the node that runs")
        expect_eq(r["ran"][0][1], case["config"], "its configuration")
        require(r["ran"][0][2], "the path of its configuration depends on the working directory")
        labels.append("stdin" if case["argv"][-1] == "-" else "file")
    elif mode == "plot":
        expect_eq([x[0] for x in r["ran"]], ["plot"], "what runs")
    else:
        expect_eq(r["ran"], [], "what runs")
    if mode != "inject":
        expect_eq(r["opened"], [], "listeners")
        return True, labels
    want = []
    if case["port"]:
        want += [["tcp", ip, case["port"]] for ip in ([case["ip"]] if case["ip"] else ["127.0.0.1", "::1"])]
    if case["unix"]:
        want.append(["unix", case["unix"], None])
    expect_eq(sorted(r["opened"], key=str), sorted(want, key=str), "listeners")
    p = r["played"]
    ok = case["password"] is None or case["good"]
    expect_eq(p["accepted"], ok, "a client is let in (%s)" % p["said"])
    if not ok:
        return True, labels + ["password refused"]
    lo, hi = case["window"]
    inside = [(i, t) for i, t in enumerate(case["times"]) if lo <= t <= hi]
    got = [(t, int(re.search(r" N=(\d+)", l).group(1))) for t, l in p["sent"] if "PRIVCOUNT_CIRCUIT_CELL" in l]
    expect_eq([n for _, n in got], [i for i, _ in inside], "events replayed")
    if got:
        if case["simulate"]:
            expect_eq([t - got[0][0] for t, _ in got], [t - inside[0][1] for _, t in inside], "times of the events")
        else:
            expect_eq([t - START for t, _ in got], [0.0] * len(got), "times of the events")
        labels.append("replay" + (" with pauses" if case["simulate"] else ""))
    if len(inside) < len(case["times"]):
        labels.append("pruned")
    if case["password"]:
        labels.append("password")
    return True, labels


CHECK = Check("C34", [Test("cli", cases(), run, quick=900, thorough=20000, shards=2)], jy=["ops_cli"],
              rule="the program was run",
              assumptions=["What a node does with its configuration is checked elsewhere (C25, C29, C32): here its class is a stand-in. "
                           "The injector is the real one.",
                           "The log on the screen may go to either stream."])
