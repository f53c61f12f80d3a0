import ipaddress
import string

from hypothesis import strategies as st
from vp import Check, Test, require, same, short


def eq(got, want, text, *args):
    require(same(got, want), text + ": got %s, expected %s", *(args + (short(got), short(want))))


GOODIP = ["1.2.3.4", "127.0.0.1", "0.0.0.0", "255.255.255.255", "::1", "::", "2001:db8::1", "fe80::abcd", "::ffff:1.2.3.4"]
BADIP = ["localhost", "1.2.3", "1.2.3.4.5", "256.1.1.1", "1.2.3.4:80", "x", "[::1]", "1.2.3.4/8", ":::", "g::", "1..2.3"]


@st.composite
def item(draw):
    d = {}
    good = draw(st.booleans())
    keys = draw(st.lists(st.sampled_from(["port", "port", "ip", "unix", "control_password", "control_cookie_file", "prot"]), max_size=5, unique=True))
    if good and "ip" in keys and "port" not in keys:
        keys.append("port")
    for k in keys:
        if k == "port":
            v = draw(st.sampled_from([1, 80, 65535, "20003", "9051", " 9051 "])) if good else draw(
                st.sampled_from([0, -1, "0", "-5", "x", "", None, "80x", "1.5", "0x50", 1, "443", "8 0"]))
        elif k == "ip":
            v = draw(st.sampled_from(GOODIP)) if good else draw(st.sampled_from(BADIP + [None, "", "1.2.3.4", "::1"]))
        elif k == "unix":
            v = draw(st.sampled_from(["/tmp/x", "x", " ", "/a b/c"])) if good else draw(st.sampled_from([None, "", "/tmp/y"]))
        elif k == "control_password":
            v = draw(st.sampled_from(["keys/p.txt", "x", " "])) if good else draw(st.sampled_from([None, "", "y"]))
        else:
            v = draw(st.sampled_from(["z", None, "", 5]))
        d[k] = v
    return d


@st.composite
def configs(draw):
    kind = draw(st.sampled_from(["one", "one", "list", "list", "list", "none", "empty", "withnone"]))
    if kind == "one":
        c = draw(item())
    elif kind == "list":
        c = draw(st.lists(item(), min_size=1, max_size=4))
    elif kind == "none":
        c = None
    elif kind == "empty":
        c = []
    else:
        c = draw(st.lists(item(), max_size=2))
        c.insert(draw(st.integers(0, len(c))), None)
    return dict(config=c, keys=["port", "unix", "ip", "control_password"], choose=kind in ("one", "list"),
                local=draw(st.sampled_from([None, True, False])),
                versions=draw(st.sampled_from([None, 4, 6, [4], [6], [4, 6], [6, 4]])))


def port_of(v):
    if isinstance(v, int):
        return v
    s = v.strip()
    d = s[1:] if s[:1] in ("-", "+") else s
    return int(s) if d and all(c in string.digits for c in d) else None


def is_ip(v):
    try:
        ipaddress.ip_address(v)
        return True
    except ValueError:
        return False


def valid(d, need_ip=False):
    if d is None:
        return False
    if "port" in d:
        if d["port"] is None or port_of(d["port"]) is None or port_of(d["port"]) <= 0:
            return False
        if need_ip and "ip" not in d:
            return False
    if "ip" in d and (d.get("port") is None or not d["ip"] or not is_ip(d["ip"])):
        return False
    return all(d[k] not in (None, "") for k in ("unix", "control_password") if k in d)


def config_run(case, w):
    r = w.call("config", case)
    c = case["config"]
    l = c if isinstance(c, list) else [c]
    for key, need in (("plain", False), ("with_ip", True)):
        eq(r[key], ["ok", all(valid(d, need) for d in l)], "validity (%s) of %s", key, short(c))
    if case["choose"]:
        def having(k):
            return next((d for d in l if k in d), None)
        eq(r["first"], ["ok", l[0]], "a connection")
        eq(r["having"], [["ok", having(k)] for k in case["keys"]], "a connection with an attribute")
        h = having("control_password")
        eq(r["password"], ["ok", h["control_password"] if h else None], "control password of %s", short(c))
    local = True if case["local"] is None else case["local"]
    vs = case["versions"] or 4
    vs = vs if isinstance(vs, list) else [vs]
    # connect
    unix = [["unix", d["unix"], None] for d in l if valid(d) and "unix" in d]
    ips = []
    for d in l:
        if valid(d, not local) and "port" in d:
            p = port_of(d["port"])
            ips += [["tcp", x, p] for x in ([d["ip"]] if "ip" in d else [{4: "127.0.0.1", 6: "::1"}[v] for v in vs])]
    want = unix + ips
    eq(r["connect"], [want, -1 if len(want) == 1 else len(want), [1] * len(want)], "connections made for %s", short(case))
    # listen
    unix = [["listenunix", d["unix"], None] for d in l if valid(d) and "unix" in d]
    ips = []
    for d in l:
        if valid(d) and "port" in d:
            p = port_of(d["port"])
            any_ip = {4: "127.0.0.1" if local else "0.0.0.0", 6: "::1" if local else "::"}
            ips += [["listentcp", x, p] for x in ([d["ip"]] if "ip" in d else [any_ip[v] for v in vs])]
    want = unix + ips
    got = r["listen"]
    require(got[0] != "exc" and sorted(map(str, got[0])) == sorted(map(str, want)), "listeners for %s: %s", short(case), short(got))
    eq(got[1:], [-1 if len(want) == 1 else len(want), [1] * len(want)], "listeners for %s", short(case))
    return bool(want), ["valid" if all(valid(d) for d in l) else "invalid"]


# --- endpoints -------------------------------------------------------------------

ADDR = st.one_of(st.none(), st.just(["odd"]),
                 st.tuples(st.just("ip4"), st.sampled_from(["1.2.3.4", "127.0.0.1"]), st.integers(1, 65535)).map(list),
                 st.tuples(st.just("ip6"), st.sampled_from(["::1", "2001:db8::5"]), st.integers(1, 65535)).map(list),
                 st.tuples(st.just("name"), st.sampled_from(["example.com", "x"]), st.integers(1, 65535)).map(list),
                 st.tuples(st.just("unix"), st.sampled_from([None, "/tmp/s", ""])).map(list))


def host_of(a):
    if a is None:
        return None
    return "odd address" if a[0] == "odd" else a[1]


def info(a):
    h = host_of(a)
    p = a[2] if a is not None and len(a) == 3 else None
    if h is None:
        return "(port:%s)" % p
    return h if p is None else "%s:%s" % (h, p)


def endpoint_run(case, w):
    r = w.call("endpoint", case)
    host = None if case["host"] == "none" else case["host"]
    local = None if host is None else info(host)
    peer = info(case["peer"])
    eq(r, [["ok", x] for x in ("remote: %s local: %s" % (peer, local) if local is not None else "remote: %s" % peer,
                               peer, local, host_of(case["peer"]), host_of(host))],
       "description of the endpoints of %s", short(case))
    return True, [str(case["peer"] and case["peer"][0])]


# --- relay facts -----------------------------------------------------------------

WS = st.sampled_from(["", "", "", " ", "\t", "\r\n", "  "])
PR = "abZ09 .:-_/[](),\t~"
ODDCH = ["\xe9", "\x00", "\x7f", "\x1b"]


def padded(s):
    return st.tuples(WS, s, WS).map("".join)


def text(alphabet, lo, hi):
    return st.text(st.sampled_from(alphabet), min_size=lo, max_size=hi)


def odd(s):
    return st.tuples(s, st.sampled_from(ODDCH), s).map("".join)


def fact():
    nick = st.one_of(text("abZ09", 0, 19), text("aB1", 18, 22), text("ab-_. ", 1, 6), odd(text("aB1", 0, 5)))
    port = st.one_of(st.sampled_from(["9001", "[::]:9001", "9001 NoListen", "127.0.0.1:9001 NoAdvertise"]), text(PR, 0, 12), text("ab1", 198, 203), odd(text(PR, 0, 5)))
    ver = st.one_of(st.sampled_from(["version 0.3.0.1", "0.3.0.1", "Tor version=1.1", "version", "versionversion 2", "1.1.0 (git-abc)", "Version 3", "a version b version c"]),
                    text(PR, 0, 10), odd(text(PR, 0, 5)))
    addr = st.one_of(st.sampled_from(["1.2.3.4", "255.255.255.255", "1.1.1.11", "999.1.1.1", "1234567", "......."]), text("019.", 5, 17), text("01.", 15, 17), text("1.", 6, 7), text("01a:.", 7, 9), odd(text("01.", 3, 5)))
    fp = st.one_of(text("0123456789ABCDEF", 40, 40), text("abcdef0123456789", 40, 40), text("0AF", 38, 42), text("0AFGx", 40, 40), odd(text("0A", 18, 21)))
    flags = st.one_of(st.sampled_from(["", "Fast", "Guard Running  Valid", " Exit\tFast "]), text("abc \t", 0, 10))
    geo = st.sampled_from(["/usr/share/tor/geoip", "", " x ", "geoip6"])
    return st.one_of(st.tuples(st.just("nickname"), padded(nick)), st.tuples(st.sampled_from(["orport", "dirport"]), padded(port)),
                     st.tuples(st.sampled_from(["tor_version", "tor_privcount_version"]), padded(ver)), st.tuples(st.just("address"), padded(addr)),
                     st.tuples(st.just("fingerprint"), padded(fp)), st.tuples(st.just("flag_list"), flags),
                     st.tuples(st.sampled_from(["geoip_file", "geoipv6_file"]), geo)).map(list)


ASCII_WS = " \t\n\r\x0b\x0c"
PRINTABLE = set(string.printable)


def step(s, name, raw):
    """the new value of the fact, or None if it is refused"""
    v = raw.strip(ASCII_WS)
    if name == "nickname":
        ok = len(v) <= 19 and all(c in string.ascii_letters + string.digits for c in v)
    elif name in ("orport", "dirport"):
        if not (1 <= len(v) <= 200 and set(v) <= PRINTABLE):
            return False
        s.setdefault(name, set()).add(v)
        return True
    elif name.endswith("version"):
        if "version" in raw:
            v = raw.split("version", 1)[1].strip(ASCII_WS)
        ok = len(v) > 0 and set(v) <= PRINTABLE
    elif name == "address":
        ok = 7 <= len(v) <= 15 and all(c in string.digits + "." for c in v)
    elif name == "fingerprint":
        ok = len(v) == 40 and all(c in string.hexdigits for c in v)
        if ok and name in s:
            return True
    elif name == "flag_list":
        v, ok = raw.split(), True
    else:
        v, ok = raw, True
    if ok:
        s[name] = v
    return ok


def facts_run(case, w):
    s = {"flag_list": []}
    labels = set()
    r = w.call("facts", case)
    seen = {}
    for (name, raw), (res, ctx) in zip([(None, None)] + case["steps"], r):
        if name is not None:
            ok = step(s, name, raw)
            labels.add("%s:%s" % (name, ok))
            eq(res, ["ok", ok], "acceptance of %s %r", name, raw)
        want = {k: ", ".join(sorted(v)) if isinstance(v, set) else v for k, v in s.items()}
        if "fingerprint" in s:
            want["noise_weight_value"] = ctx.get("noise_weight_value")
        eq(ctx, want, "facts after %s %r", name, raw)
    return bool(case["steps"]), sorted(labels)


CHECK = Check("C26", [
    Test("configs", configs(), config_run, 1500, 40000),
    Test("endpoints", st.fixed_dictionaries(dict(peer=ADDR, host=st.one_of(ADDR, st.just("none")))), endpoint_run, 400, 3000),
    Test("facts", st.lists(fact(), max_size=12).map(lambda l: dict(steps=l)), facts_run, 800, 30000),
], ["ops_conn"],
    rule="a case is non-trivial if a connection is made, an endpoint described or a fact reported",
    assumptions=["ports, addresses and paths are text, integers or missing, as a configuration file gives them"])
