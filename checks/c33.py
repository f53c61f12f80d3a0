"""C33: times, sizes and summaries in the texts shown to operators"""
import datetime
import re
from hypothesis import strategies as st
from vp import Check, Test, require, expect_eq

NOW = 1500000000
UNITS = [("w", 604800, None), ("d", 86400, 7), ("h", 3600, 24), ("m", 60, 60), ("s", 1, 60)]
# whole and fractional seconds, near the edges of every unit
edge = st.sampled_from([0, 1, 59, 60, 61, 3599, 3600, 86399, 86400, 604799, 604800, 604801, 6048000])
whole = st.one_of(edge, st.integers(0, 10 ** 7), st.integers(0, 2 * 10 ** 9))
frac = st.sampled_from([0, 0, 0.25, 0.5, 0.75, 0.984375])
period = st.tuples(whole, frac, st.sampled_from([1, 1, 1, -1])).map(lambda t: (t[0] + t[1]) * t[2])
stamp = st.one_of(st.tuples(st.integers(0, 4 * 10 ** 9), frac).map(sum), st.sampled_from([0, NOW, NOW + 0.5, 2147483647, 2147483648, 951782399]))
near = st.tuples(st.sampled_from([NOW]), period).map(sum)
desc = st.sampled_from(["since", "at", "from", ""])
WORDS = st.text(st.sampled_from("abc def.,:'\"{}[]%\n\u00e9"), max_size=30)


@st.composite
def calls(draw):
    out = []
    for _ in range(draw(st.integers(1, 25))):
        now = draw(st.one_of(st.just(NOW), st.tuples(st.integers(NOW, 2 * NOW), frac).map(sum)))
        f = draw(st.sampled_from(["format_period", "format_datetime", "format_epoch", "format_time", "format_interval", "format_elapsed_time_wait",
                                  "format_elapsed_time_since", "format_delay_time_wait", "format_delay_time_until",
                                  "format_interval_time_between", "format_last_event_time_since", "format_bytes",
                                  "summarise_string", "summarise_string", "summarise_list", "summarise_list"]))
        kw = {}
        t = draw(st.one_of(stamp, near.filter(lambda x: x >= 0)))
        p = draw(period)
        if f == "format_period":
            a = [p]
        elif f in ("format_datetime", "format_epoch"):
            a = [t]
        elif f == "format_time":
            a = [p, draw(desc), t]
        elif f == "format_interval":
            a = [p, draw(desc), t, draw(stamp)]
        elif f in ("format_elapsed_time_wait", "format_delay_time_wait"):
            a = [draw(period.filter(lambda x: abs(x) < NOW)), draw(desc)]
        elif f in ("format_elapsed_time_since", "format_delay_time_until"):
            a = [t, draw(desc)]
        elif f == "format_interval_time_between":
            a = [t, draw(desc), draw(stamp)]
        elif f == "format_last_event_time_since":
            a = [draw(st.one_of(st.none(), st.just(t)))]
        elif f == "format_bytes":
            u = draw(st.sampled_from([1, 1024, 1024 ** 2, 1024 ** 3, 1024 ** 4]))
            a = [draw(st.one_of(st.integers(0, 2048), st.sampled_from([1, 1023, 1024, 1025]))) * u + draw(st.sampled_from([0, 0, 1, -1]) if u > 1 else st.just(0))]
            a = [max(0, a[0])]
        elif f == "summarise_string":
            s = draw(st.one_of(WORDS, st.text(st.sampled_from("ab"), min_size=90, max_size=130)))
            a = [s]
            if draw(st.booleans()):
                kw["max_len"] = draw(st.one_of(st.integers(0, 12), st.sampled_from([max(0, len(s) - 1), len(s), len(s) + 1])))
            if draw(st.integers(0, 2)) == 0:
                kw["ellipsis"] = draw(st.sampled_from(["", "...", "..", None, "[more]"]))
        else:
            item = st.one_of(st.integers(-5, 5), WORDS) if draw(st.booleans()) else st.integers(0, 10 ** 12)
            a = [draw(st.lists(item if draw(st.booleans()) else WORDS.filter(lambda x: x), max_size=6))]
            if draw(st.booleans()):
                kw["max_obj_str_len"] = draw(st.integers(0, 40))
            if draw(st.integers(0, 2)):
                kw["sort_output"] = draw(st.booleans())
            if len({type(x) for x in a[0]}) > 1:
                kw["sort_output"] = False
            if draw(st.integers(0, 3)) == 0:
                kw["ellipsis"] = draw(st.sampled_from(["....", "..", "", "[...]"]))
        out.append([now, f, a, kw])
    return dict(calls=out)


def seconds(text):
    """the number of seconds a duration says, or None when it is not in the documented form"""
    m = re.match(r"^(-?)((?:\d+[wdhms] )*\d+s)$", text)
    if not m:
        return None
    parts = m.group(2).split(" ")
    names = [x[-1] for x in parts]
    first = [u[0] for u in UNITS].index(names[0])
    if names != [u[0] for u in UNITS][first:]:
        return None             # every unit after the first one, once
    n = 0
    for x, (u, size, most) in zip(parts, UNITS[first:]):
        v = int(x[:-1])
        if str(v) != x[:-1] or most is not None and v >= most:
            return None
        n += v * size
    if len(parts) > 1 and int(parts[0][:-1]) == 0:
        return None             # it starts with a unit that is not zero
    return -n if m.group(1) else n


def day(t):
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(t))).strftime("%Y-%m-%d %H:%M:%S UTC")


def check_time(got, p, d, t):
    i = got.index(" (") if " (" in got else len(got)
    expect_eq(seconds(got[:i]), int(p), "the duration in %r" % got)
    expect_eq(got[i:], " (%s %s %d)" % (d, day(t), int(t)), "the time in %r" % got)


def check_interval(got, p, d, b, e):
    i = got.index(" (") if " (" in got else len(got)
    expect_eq(seconds(got[:i]), int(p), "the duration in %r" % got)
    expect_eq(got[i:], " (%s %s to %s, %d to %d)" % (d, day(b), day(e), int(b), int(e)), "the times in %r" % got)


def check_summary(got, s, most, dots):
    """both ends of a long string, with dots between them, of the length allowed"""
    if len(s) <= most:
        return expect_eq(got, s, "a string that is short enough")
    expect_eq(len(got), most if most else 0, "length of the summary %r of %r (at most %d)" % (got, s, most))
    if len(dots) >= most:
        return expect_eq(got, dots[:most], "a summary with room for dots only")
    n = most - len(dots)
    a, b = (n + 1) // 2, n // 2
    expect_eq(got, s[:a] + dots + s[len(s) - b:], "the summary of %r" % s)


def run(case, w):
    got = w.call("texts", case)
    labels = set()
    for (now, f, a, kw), r in zip(case["calls"], got):
        require(r[0] == "ok", "%s of %s %s raised %s", f, a, kw, r[1])
        r = r[1]
        n = int(now)
        if f == "format_period":
            expect_eq(seconds(r), int(a[0]), "the duration in %r" % r)
        elif f == "format_datetime":
            expect_eq(r, day(a[0]), "date")
        elif f == "format_epoch":
            expect_eq(r, str(int(a[0])), "unix time")
        elif f == "format_time":
            check_time(r, *a)
        elif f == "format_interval":
            check_interval(r, *a)
        elif f == "format_elapsed_time_wait":
            check_time(r, a[0], a[1], n - int(a[0]))
        elif f == "format_delay_time_wait":
            check_time(r, a[0], a[1], n + int(a[0]))
        elif f == "format_elapsed_time_since":
            check_time(r, n - int(a[0]), a[1], a[0])
        elif f == "format_delay_time_until":
            check_time(r, int(a[0]) - n, a[1], a[0])
        elif f == "format_interval_time_between":
            check_interval(r, int(a[2]) - int(a[0]), a[1], a[0], a[2])
        elif f == "format_last_event_time_since":
            if a[0] is None:
                expect_eq(r, "no Tor events received", "no events")
            else:
                require(r.startswith("last Tor event was "), "last event: %r", r)
                check_time(r[len("last Tor event was "):], n - int(a[0]), "at", a[0])
        elif f == "format_bytes":
            m = re.match(r"^(\d+\.\d) (B|kB|MB|GB)$", r)
            require(m, "%d bytes are %r", a[0], r)
            i = ["B", "kB", "MB", "GB"].index(m.group(2))
            require(abs(float(m.group(1)) - a[0] / 1024.0 ** i) <= 0.0501, "%d bytes are %r", a[0], r)
            expect_eq(i, min(3, max(0, (a[0].bit_length() - 1) // 10)), "unit of %d bytes (%r)" % (a[0], r))
        elif f == "summarise_string":
            dots = kw.get("ellipsis", "...") or ""
            check_summary(r, a[0], kw.get("max_len", 100), dots)
            if len(a[0]) > kw.get("max_len", 100):
                labels.add("shortened string")
        else:
            items, most, dots = a[0], kw.get("max_obj_str_len", 50), kw.get("ellipsis", "....")
            if kw.get("sort_output", True):
                items = sorted(items)
            text = "" if not items else str(items[0]) if len(items) == 1 else str(items[0]) + dots + str(items[-1])
            if len(items) > 1:
                most = 2 * most + len(dots)
            tail = "' (%d)" % len(items)
            require(r.startswith("'") and r.endswith(tail) and len(r) > len(tail), "the summary %r of %d items", r, len(items))
            check_summary(r[1:-len(tail)], text, most, dots)
        labels.add(f)
    return True, sorted(labels)


stops = st.fixed_dictionaries(dict(code=st.one_of(st.none(), st.just("error"), st.just(0), st.integers(1, 127)), running=st.booleans()))


def run_stop(case, w):
    r = w.call("stop", case)
    expect_eq(r["stopped"], 1, "the reactor is told to stop")
    c = case["code"]
    want = ["returned"] if c is None else ["exit", 1] if c == "error" else ["sys.exit", None] if c == 0 else ["exit", c]
    expect_eq(r["how"], want, "the process")
    return True, ["stop " + want[0]]


CHECK = Check("C33", [
    Test("texts", calls(), run, quick=2500, thorough=60000, shards=2),
    Test("stop", stops, run_stop, quick=200, thorough=500),
], jy=["ops_log"],
    rule="at least one text was judged",
    assumptions=["Times are from 1970 to 2096; strings are single bytes.",
                 "Sizes are not negative."])
