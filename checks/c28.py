import ipaddress
import math

from hypothesis import strategies as st
from vp import Check, Test, require, same, short


def eq(want, got, text, *args):
    require(same(want, got), text + ": got %s, expected %s", *(args + (short(got), short(want))))


CHARS = st.sampled_from("abzAZ019_-.,:;/%\"'\\+~\t\x7f\x80\xe9\xff{}[]")
KEYCH = st.one_of(CHARS, st.sampled_from("abcABC"))
BADCH = [" ", "\r", "\n", "\0"]


@st.composite
def fields(draw):
    out, keys = [], []
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.one_of(st.sampled_from(["Key", "Port", "IsEntryFlag", "A"]), st.text(KEYCH, min_size=1, max_size=5)))
        if k in keys:
            k = k + str(len(keys))
        if k in keys:
            continue
        keys.append(k)
        v = draw(st.one_of(st.just(""), st.text(CHARS, max_size=8), st.sampled_from(["1", "1.2.3.4", "::1", "a,b,,c"])))
        out.append(k + "=" + v)
    damage = draw(st.sampled_from(["none", "none", "empty", "space", "equals", "noeq", "nokey", "dup", "blankkey"]))
    at = draw(st.integers(0, len(out)))
    if damage == "empty":
        for _ in range(draw(st.integers(1, 3))):
            out.insert(draw(st.integers(0, len(out))), "")
    elif damage == "space":
        f = draw(st.text(KEYCH, min_size=1, max_size=4)) + "x9=" + draw(st.text(CHARS, max_size=4))
        p = draw(st.integers(0, len(f)))
        out.insert(at, f[:p] + draw(st.sampled_from(BADCH)) + f[p:])
    elif damage == "equals":
        out.insert(at, draw(st.sampled_from(["Q=1=", "Q==", "Q=a=b", "Q==1", "==", "Q=1=2=3", "Q===", "=a="])))
    elif damage == "noeq":
        out.insert(at, draw(st.sampled_from(["Q", "650", "Q:1", "\t", "Q-1"])))
    elif damage == "nokey":
        out.insert(at, draw(st.sampled_from(["=", "=1", "=abc"])))
    elif damage == "dup" and keys:
        out.insert(at, draw(st.sampled_from(keys)) + "=" + draw(st.sampled_from(["", "1", "zz"])))
    return dict(fields=out)


def model_parse(fs):
    out = {}
    for f in fs:
        if f == "":
            continue
        if any(c in f for c in BADCH) or f.count("=") != 1:
            return {}
        k, v = f.split("=")
        if k == "" or k in out:
            return {}
        out[k] = v
    return out


def parse_run(case, w):
    r = w.call("parse", case)
    want = model_parse(case["fields"])
    require(r["dict"] and r["again"] and r["same"], "parsing is not a pure function of the fields")
    eq(sorted([k, v] for k, v in want.items()), r["fields"], "parsed fields of %r", case["fields"])
    return bool(case["fields"]), ["whole" if want else "refused"]


# --- typed fields -----------------------------------------------------------------

SMALL = st.integers(-5, 30)
BIG = st.integers(-2 ** 70, 2 ** 70)
LONGS = st.sampled_from(["a" * 255, "a" * 256, "b" * 40, "x" * 1000])


def limits(draw, lo, hi, value):
    out = {}
    if draw(st.booleans()):
        out[lo] = draw(st.one_of(SMALL, st.sampled_from([value, value + 1, 1, value])))
    if draw(st.booleans()):
        out[hi] = draw(st.one_of(SMALL, st.sampled_from([value, value - 1, 0, value])))
    return out


@st.composite
def check(draw):
    kind = draw(st.sampled_from(["string", "list", "int", "int", "flag", "float", "float", "ip_address", "ip_address"]))
    lim = {}
    default = None
    if kind == "string":
        v = draw(st.one_of(st.text(CHARS, max_size=12), LONGS))
        lim = limits(draw, "min_len", "max_len", len(v))
        default = draw(st.sampled_from([None, "", "dflt"]))
    elif kind == "list":
        v = ",".join(draw(st.lists(st.text(st.sampled_from("ab0.\t"), max_size=3), max_size=6)))
        lim = limits(draw, "min_count", "max_count", model_value("list", v)[1].__len__())
        default = draw(st.sampled_from([None, [], ["d"]]))
    elif kind in ("int", "flag"):
        v = draw(st.one_of(SMALL.map(str), st.sampled_from(["0", "1"]), BIG.map(str), SMALL.map(lambda i: "%+d" % i), SMALL.map(lambda i: "%03d" % i),
                           st.sampled_from(["", "x", "1.0", "1e3", "-", "+", "0x10", "one", "True", "False", "None", "1,2", "--1", "1-", "nan", "inf", "a1", "1a"])))
        n = model_value("int", v)
        if kind == "int":
            lim = limits(draw, "min_value", "max_value", n[1] if n else 3)
        default = draw(st.sampled_from([None, 7])) if kind == "int" else draw(st.sampled_from([None, True, False]))
    elif kind == "float":
        v = draw(st.one_of(SMALL.map(str), BIG.map(str), st.floats(allow_nan=False, allow_infinity=False, width=64).map(repr),
                           st.tuples(SMALL, st.integers(0, 99)).map(lambda t: "%d.%02d" % t), st.sampled_from(["-0.0", ".5", "5.", "1e3", "1E-3", "+2.5"]),
                           st.sampled_from(["", "x", "-", ".", "1.2.3", "1,5", "e3", "one", "--1.0", "True", "None", "0x1p3"]),
                           st.sampled_from(["nan", "NaN", "-nan", "inf", "-inf", "Infinity", "-Infinity", "+inf", "1e999", "-1e999"])))
        n = model_value("float", v)
        lim = limits(draw, "min_value", "max_value", int(n[1]) if n and abs(n[1]) < 1e9 else 3)
        if n and draw(st.booleans()):
            lim[draw(st.sampled_from(["min_value", "max_value"]))] = n[1]
        default = draw(st.sampled_from([None, 0.5, 0.0]))
    else:
        v = draw(st.one_of(st.integers(0, 2 ** 32 - 1).map(lambda i: str(ipaddress.IPv4Address(i))),
                           st.integers(0, 2 ** 128 - 1).map(lambda i: str(ipaddress.IPv6Address(i))),
                           st.integers(0, 2 ** 128 - 1).map(lambda i: ipaddress.IPv6Address(i).exploded.upper()),
                           st.sampled_from(["127.0.0.1", "0.0.0.0", "255.255.255.255", "::", "::1", "1:0:0:0:0:0:0:8", "::ffff:1.2.3.4", "0:0:0:0:0:0:0:0"]),
                           st.sampled_from(["", "x", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.256", "-1.2.3.4", "1.2.3.4/8", "1.2.3.a", "1..2.3", "1.2.3.4:80", ":::", "1:2", "g::1",
                                            "12345::", "[::1]", "1:2:3:4:5:6:7:8:9", "::1::", "localhost", "1", "1.2.3.-4", "\xe9.1.1.1", "fe80::1/64"])))
        default = draw(st.sampled_from([None, "0.0.0.0"]))
    present = draw(st.integers(0, 5)) > 0
    f = {"Other": draw(st.sampled_from(["", "1", "x"]))}
    if present:
        f["Name"] = v
    return dict(kind=kind, name="Name", fields=f, limits=lim, mandatory=draw(st.booleans()), default=default)


def model_value(kind, v):
    """(type, value), or None if v is not of the type"""
    if kind == "string":
        return "str", v
    if kind == "list":
        return "list", (v.split(",") if v else [])
    if kind in ("int", "flag"):
        d = v[1:] if v[:1] in ("+", "-") else v
        if d == "" or any(c not in "0123456789" for c in d):
            return None
        n = int(v)
        if kind == "flag":
            return ("bool", bool(n)) if n in (0, 1) else None
        return "int", n
    if kind == "float":
        if any(c not in "+-.0123456789eE" for c in v):
            return None
        try:
            n = float(v)
        except ValueError:
            return None
        return ("float", n) if math.isfinite(n) else None
    try:
        v.encode("ascii")
        return "str", str(ipaddress.ip_address(v))
    except ValueError:
        return None


def size(kind, value):
    return len(value) if kind in ("string", "list") else value


def typed_run(case, w):
    labels = set()
    for c, r in zip(case["checks"], w.call("typed", case)):
        kind, lim = c["kind"], c["limits"]
        have = c["fields"].get("Name")
        require(r["same"], "the fields were changed by checking them: %r", c)
        if have is None:
            labels.add(kind + ":missing")
            eq(["ok", ["bool", not c["mandatory"]]], r["ok"], "check of a missing field: %r", c)
            if c["mandatory"]:
                eq("exc", r["got"][0], "value of a missing mandatory field: %r", c)
                eq("AssertionError", r["got"][1], "value of a missing mandatory field: %r", c)
            else:
                same_value(c["default"], r["got"], c)
            same_value(None, r["nodef"], c)
            continue
        v = model_value(kind, have)
        lo = [x for k, x in lim.items() if k.startswith("min")]
        hi = [x for k, x in lim.items() if k.startswith("max")]
        fits = v is not None and all(x <= size(kind, v[1]) for x in lo) and all(size(kind, v[1]) <= x for x in hi)
        labels.add(kind + (":ok" if fits else ":range" if v is not None else ":type"))
        eq(["ok", ["bool", fits]], r["ok"], "check of a field: %r", c)
        for got in (r["got"], r["nodef"]):
            if v is None:
                eq(["exc", "AssertionError"], got, "value of an invalid field: %r", c)
            else:
                same_value(v[1], got, c)
        if kind == "ip_address":
            eq(r["obj"][0], "ok" if v is not None else "exc", "address object: %r", c)
            if v is not None:
                eq("IPv%dAddress" % ipaddress.ip_address(have).version, r["obj"][1][0], "address object: %r", c)
    return bool(labels), sorted(labels)


def same_value(want, got, c):
    if isinstance(want, bool):
        exp = ["ok", ["bool", want]]
    elif isinstance(want, int):
        exp = ["ok", ["int", str(want)]]
    elif isinstance(want, float):
        require(got[0] == "ok" and got[1][0] == "float" and float(got[1][1]) == want, "value %r should be %r: %r", got, want, c)
        return
    elif want is None:
        exp = ["ok", ["NoneType", None]]
    else:
        exp = ["ok", ["list" if isinstance(want, list) else "str", want]]
    eq(exp, got, "value of a field: %r", c)


CHECK = Check("C28", [
    Test("parsing", fields(), parse_run, 1500, 40000),
    Test("typed", st.lists(check(), min_size=1, max_size=16).map(lambda l: dict(checks=l)), typed_run, 800, 30000),
], ["ops_tagged"],
    rule="a case is non-trivial if it has at least one field",
    assumptions=["numbers with inner underscores, hexadecimal digits or Java type suffixes are judged only where every Python version agrees"])
