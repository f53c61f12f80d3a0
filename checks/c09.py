import binascii
import hashlib
import hmac
import re

from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require

SKEY = b"Tor safe cookie authentication server-to-controller hash"
CKEY = b"Tor safe cookie authentication controller-to-server hash"
HEX = re.compile("^[0-9a-fA-F]*$")


# what is sent anyway
WORDS = " ".join(["protocolinfo 1", "authchallenge safecookie", "authenticate", "setevents", "set_tmodel false", "quit",
                  "setconf enableprivcount=0", "setconf __reloadtorrconsighup=1", "getconf nickname", "getconf orport",
                  "getconf dirport", "getconf geoipfile", "getconf geoipv6file", "getinfo version", "getinfo address",
                  "getinfo privcount-version", "getinfo fingerprint"])


def b(s):
    return s.encode("latin-1")


def hx(s):
    return binascii.hexlify(b(s)).decode()


secret = st.one_of(
    st.none(),
    st.integers(0, 10 ** 6).map(lambda n: hashlib.sha256(b(str(n))).digest().decode("latin-1")),
    st.sampled_from([0, 1, 7, 8, 9, 31, 32, 33, 64, 1023, 1024, 1025, 1500]).flatmap(
        lambda n: st.integers(0, 255).map(lambda c: ("%sab\n \"\\" % chr(c) * 400)[:n])),
    st.text(st.characters(max_codepoint=255), min_size=6, max_size=40))
cookie = st.one_of(st.integers(0, 10 ** 6).map(lambda n: hashlib.sha256(b("d%d" % n)).digest().decode("latin-1")), secret, st.integers(0, 10 ** 6).map(lambda n: hashlib.sha256(b("c%d" % n)).digest().decode("latin-1")))
METHODS = ["NULL", "HASHEDPASSWORD", "COOKIE", "SAFECOOKIE"]
BAD = ["bit", "wrong_cookie", "wrong_key", "old_nonce", "other_server_nonce", "swapped", "no_nonce", "short_hash",
       "long_hash", "short_nonce", "long_nonce", "zero", "not_hex", "odd", "no_hash", "only_hash", "error", "ok"]
noise = st.sampled_from(["250-PROTOCOLINFO 1", "250-VERSION Tor=\"0.3.0.7\"", "250-VERSION Tor=\"\"", "250-OTHER x=1"])
reply = st.sampled_from(["250 OK", "515 Bad authentication", "551 Invalid", "500 x", "garbage", "250 OK"])


@st.composite
def dialogues(draw):
    methods = draw(st.lists(st.sampled_from(METHODS + ["FUTURE", "NULLX", "safecookie"]), max_size=4, unique=True))
    want = draw(st.sampled_from(["SAFECOOKIE", "SAFECOOKIE", "HASHEDPASSWORD", ""]))
    if want and want not in methods:
        methods.insert(draw(st.integers(0, len(methods))), want)
    case = dict(methods=methods,
                name=draw(st.sampled_from(["path", "path", "path", "path", "none", "empty"])),
                suffix=draw(st.sampled_from(["", " with space", "\"quote", "\\back", "\\\"both\\\\"])),
                before=draw(st.lists(noise, max_size=2)), after=draw(st.lists(noise, max_size=2)),
                challenge=draw(st.sampled_from(["good", "good", "good", "upper"] + BAD)), n=draw(st.integers(0, 255)),
                reply=draw(reply), seed=draw(st.integers(0, 10 ** 6)))
    if draw(st.integers(0, 3)):
        case["cookie"] = draw(cookie)
    if draw(st.integers(0, 3)):
        case["password"] = draw(secret)
    return case


def run_dialogue(case, w):
    path = {"path": " COOKIEFILE={COOKIEPATH}", "none": "", "empty": " COOKIEFILE=\"\""}[case["name"]]
    if "cookie" not in case:
        path = ""
    auth = "250-AUTH METHODS=" + ",".join(case["methods"]) + path
    steps = [["line", l] for l in case["before"] + [auth] + case["after"]] + [["line", "250 OK"]]
    has_cookie = path.endswith("PATH}")
    pw = case.get("password")
    pw_ok = pw is not None and 8 <= len(pw) <= 1024
    if "SAFECOOKIE" in case["methods"] and has_cookie:
        how = "safecookie"
        steps.append(["challenge", case["challenge"], case["n"]])
    elif "HASHEDPASSWORD" in case["methods"] and pw_ok:
        how = "password"
    elif "NULL" in case["methods"]:
        how = "null"
    else:
        how = "nothing"
    steps.append(["line", case["reply"]])
    steps.append(["line", "250 OK"])
    a = dict(steps=steps, cookie_suffix=case["suffix"])
    for k in ("cookie", "password"):
        if k in case:
            a[k] = case[k]
    r = w.call("control", a, seed=case["seed"])
    out = r["out"]
    k = len(case["before"]) + 1 + len(case["after"]) + 1     # index of the first 250 OK
    expect_eq(out[0]["sent"], ["PROTOCOLINFO 1"], "opening")
    for o in out[1:k]:
        require(not o["sent"] and not o["closed"], "before the list of methods ended: %s", o)
    first = out[k]["sent"]
    proof = None
    sn = b(r["server_nonce"])
    step = k + 1
    if how == "safecookie":
        require(len(first) == 1 and re.match("^AUTHCHALLENGE SAFECOOKIE [0-9a-fA-F]{64}$", first[0]),
                "safe cookie offered with a cookie file, sent %s", first)
        cn = binascii.unhexlify(first[0].split(" ")[2])
        other = w.call("control", dict(a, steps=steps[:k]), seed=case["seed"] + 1)["out"][k]["sent"]
        require(other != first, "the same nonce twice")
        c = case.get("cookie")
        valid = c is not None and len(c) == 32 and case["challenge"] in ("good", "upper")
        o = out[step]
        step += 1
        if c is not None and len(c) == 32:
            proof = hmac.new(CKEY, b(c) + cn + sn, hashlib.sha256).hexdigest()
        if valid:
            expect_eq([x.lower() for x in o["sent"]], ["authenticate " + proof], "answer to the server's proof")
            authed = True
        else:
            # other positive replies are no proof: they are passed over
            require(o["closed"] or case["challenge"] in ("no_hash", "ok"), "open after a %s challenge", case["challenge"])
            require(not any(l.startswith("AUTH") for x in out[step - 1:] for l in x["sent"]),
                    "after a %s challenge with a cookie of %s bytes: %s", case["challenge"], c and len(c), o)
            authed = False
    elif how == "password":
        expect_eq([x.lower() for x in first], ["authenticate " + hx(pw)], "password authentication")
        authed = True
    elif how == "null":
        expect_eq([x.strip() for x in first], ["AUTHENTICATE"], "authentication without a secret")
        authed = True
    else:
        require(out[k]["closed"] and not first, "no usable method, but %s", out[k])
        authed = False
    if authed:
        o = out[step]
        if case["reply"] == "250 OK":
            require(not o["closed"] and "GETINFO fingerprint" in o["sent"], "after authentication: %s", o)
        else:
            require(o["closed"], "open after the reply %r to authentication", case["reply"])
            require(not any(l.startswith("GET") for l in o["sent"]), "asked for facts unauthenticated")
    every = [l.lower() for o in out for l in o["sent"]]
    c = case.get("cookie")
    for l in every:
        if c and not (pw and (hx(c) in hx(pw) or hx(pw) in hx(c) or c.lower() in pw.lower())):
            require(len(c) < 8 or len(set(c)) < 4 or c.lower().strip() in WORDS or (hx(c) not in l and c.lower() not in l), "the cookie itself was sent")
        if pw and how != "password" and len(pw) >= 8 and len(set(pw)) > 3 and pw.lower().strip() not in WORDS:
            require(hx(pw) not in l and pw.lower() not in l, "the password was sent using method %s", how)
    require(all(o["exits"] == 0 for o in out), "the collector stopped")
    return how != "nothing", [how + (" accepted" if authed else " refused")]


# --- strings ------------------------------------------------------------------
quoted = st.text(st.characters(max_codepoint=255), max_size=30) | st.text(st.sampled_from("\\\"ab \n"), max_size=12)


def run_strings(case, w):
    for s, (q, dq, h, dh) in zip(case, w.call("strings", case)):
        expect_eq(dq, s, "quoted and unquoted")
        expect_eq(dh, s, "hex and back")
        require(HEX.match(h) and len(h) == 2 * len(s), "hex of %r: %s", s, h)
        require(q[:1] == q[-1:] == '"' and len(q) >= 2, "quoted %r: %s", s, q)
        # nothing inside ends the quoted string early
        require(re.match(r'^(?:[^"\\]|\\.)*$', q[1:-1], re.S), "%r is quoted as %s", s, q)
        expect_eq(re.sub(r"\\(.)", r"\1", q[1:-1], flags=re.S), s, "what Tor reads")
    return any('"' in s or "\\" in s for s in case), []


def run_decode(case, w):
    how, v = w.call("decode", case)
    s = case.strip(" \t\n\r\x0b\x0c")
    if len(s) >= 2 and s[0] == s[-1] == '"':
        if not re.match(r'^(?:[^"\\]|\\["\\])*$', s[1:-1]):
            return False, ["not a string"]
        expect_eq([how, v], ["ok", re.sub(r"\\(.)", r"\1", s[1:-1])], "unquoted")
        return True, ["quoted"]
    ok = HEX.match(s) and len(s) % 2 == 0
    expect_eq(how, "ok" if ok else "exc", "decoding of %r" % case)
    if ok:
        expect_eq(v, binascii.unhexlify(s).decode("latin-1"), "hex")
    return True, ["hex" if ok else "neither"]


# --- the client against the stub server -----------------------------------------
pws = st.one_of(st.none(), secret.filter(lambda s: s is not None))


@st.composite
def pairs(draw):
    sp = draw(pws)
    return dict(server_cookie=draw(st.booleans()), server_password=sp,
                client_password=draw(st.one_of(st.just(sp), pws)), use_setconf=draw(st.booleans()),
                tamper=draw(st.none() | st.tuples(st.integers(0, 9), st.integers(0, 150), st.sampled_from("09afX \""))),
                swap_cookie=draw(st.integers(0, 7)) == 0, start_at=draw(st.integers(0, 30)),
                counters=draw(st.sampled_from([["ZeroCount"], ["ExitCircuitCount", "EntryConnectionCount"]])),
                seed=draw(st.integers(0, 10 ** 6)))


def run_pair(case, w):
    r = w.call("back_to_back", case, seed=case["seed"])
    ok = lambda p: p is not None and 8 <= len(p) <= 1024
    sp, cp = case["server_password"], case["client_password"]
    t = case["tamper"]
    seen = False
    for who, line, auth in r["wire"]:
        if who == "c" and line.startswith(("GETINFO", "GETCONF", "SETEVENTS ", "SETCONF")) and not r["c_closed"]:
            seen = True
    if not t:
        if case["server_cookie"]:
            want = not case["swap_cookie"]
        elif ok(sp):
            want = sp == cp and ok(cp)
        else:
            want = True
        expect_eq(r["authenticated"] or r["client_state"] in ("waiting", "processing"), want, "authenticated")
        if want:
            require(r["client_state"] == "processing", "authenticated but %s", r["client_state"])
            facts = dict(c for c in r["c_calls"] if c[0] != "event")
            for f in ("set_nickname", "set_orport", "set_dirport", "set_fingerprint", "set_flag_list", "set_address",
                      "set_tor_version", "set_tor_privcount_version", "set_geoip_file", "set_geoipv6_file"):
                require(f in facts, "%s was not discovered: %s", f, sorted(facts))
            expect_eq(r["s_calls"][-1:], [["inject", case["counters"] != ["ZeroCount"]]], "the stub after collection starts")
        else:
            require(r["c_closed"], "the client kept a connection that is not authenticated")
            require(not seen, "commands before authentication")
        require(r["exc"][1] is None, "the stub failed: %s", r["exc"])
    elif case["server_cookie"] and case["swap_cookie"]:
        require(not r["authenticated"], "authenticated with a changed cookie")
    return True, ["tampered" if t else "clean", "in" if r["authenticated"] else "out"]


stub_line = st.one_of(
    st.sampled_from(["PROTOCOLINFO 1", "AUTHENTICATE", "AUTHENTICATE 00", "GETINFO fingerprint", "GETCONF Nickname",
                     "SETEVENTS PRIVCOUNT_CIRCUIT_CLOSE", "SETEVENTS privcount_circuit_close PRIVCOUNT_STREAM_ENDED",
                     "SETEVENTS BOGUS", "SETEVENTS PRIVCOUNT_CIRCUIT_CLOSE BOGUS1 BOGUS2", "SETEVENTS", "SETCONF EnablePrivCount=1",
                     "SETCONF x=1", "QUIT", "AUTHCHALLENGE SAFECOOKIE " + "ab" * 32, "AUTHCHALLENGE SAFECOOKIE abc",
                     "AUTHCHALLENGE COOKIE " + "ab" * 32, "AUTHENTICATE \"unterminated", "SET_TMODEL FALSE", "GETINFO",
                     "GETINFO nothing", ""]),
    st.tuples(st.just("proof"), st.sampled_from(["good", "good", "wrong"]), st.sampled_from(["good", "good", "wrong"]),
              st.sampled_from(["good", "good", "wrong"])).map(list))


@st.composite
def stubs(draw):
    pw = draw(pws)
    steps = draw(st.lists(stub_line, min_size=1, max_size=7))
    if draw(st.booleans()):
        steps = ["PROTOCOLINFO 1", "AUTHCHALLENGE SAFECOOKIE " + "cd" * 32] + steps
    if pw and draw(st.booleans()):
        p = draw(st.sampled_from([pw, pw[:-1], pw + "x"]))
        steps.insert(draw(st.integers(0, len(steps))), "AUTHENTICATE " + hx(p))
    return dict(cookie_file=draw(st.booleans()), password=pw, steps=steps, seed=draw(st.integers(0, 99)))


def run_stub(case, w):
    out = w.call("stub", case, seed=case["seed"])
    ok = case["password"] is not None and 8 <= len(case["password"]) <= 1024
    was, closed = False, False
    chall = False
    labels = []
    for o, step in zip(out, case["steps"]):
        require(o["exc"] is None, "the stub failed: %s", o["exc"])
        if closed:
            require(not o["sent"] and not o["calls"], "activity after closing: %s", o)
            continue
        if o["auth"] and not was:
            line = o["line"]
            require(line.startswith("AUTHENTICATE"), "authenticated by %r", line)
            arg = line[12:].strip()
            if case["cookie_file"] or ok:
                good = (ok and arg == hx(case["password"])) or (
                    case["cookie_file"] and chall and isinstance(step, list) and step[1:] == ["good"] * 3)
                require(good, "the stub accepted %r", line)
            labels.append("authenticated")
        if isinstance(step, list) and step[1:] == ["good"] * 3 and chall and case["cookie_file"]:
            require(o["auth"], "a valid proof was refused")
        if not was and not o["auth"]:
            require(not any(c == ["inject", True] for c in o["calls"]), "events before authentication")
            t = o["line"].split(" ")[0]
            require(o["closed"] or t in ("PROTOCOLINFO", "AUTHCHALLENGE"), "%r left an unauthenticated connection open", o["line"])
        if was:
            t = o["line"].split(" ")
            if t[0] == "SETEVENTS":
                names = [x.upper() for x in t[1:]]
                bad = [x for x in names if "BOGUS" in x]
                expect_eq(o["calls"], [["inject", bool(names) and not bad]], "events after %s" % t)
                expect_eq(o["sent"][0][:3], "552" if bad else "250", "reply to %s" % t)
        if any("SERVERHASH=" in l for l in o["sent"]):
            require(case["cookie_file"], "a proof without a cookie")
            chall = True
        was = o["auth"]
        closed = o["closed"]
    return len(out) > 1, labels


CHECK = Check("C09", [
    Test("dialogue", dialogues(), run_dialogue, quick=4000, thorough=40000, shards=2),
    Test("strings", st.lists(quoted, min_size=1, max_size=8), run_strings, quick=500, thorough=10000),
    Test("decode", st.one_of(quoted, quoted.map(lambda s: '"' + s + '"'), st.text(st.sampled_from("0123456789abcdefABCDEFg "), max_size=12)),
         run_decode, quick=800, thorough=10000),
    Test("pair", pairs(), run_pair, quick=600, thorough=8000),
    Test("stub", stubs(), run_stub, quick=1000, thorough=15000),
], jy=["ops_torctl"],
    rule="dialogue: a method was chosen; strings: a string needs escaping; pair and stub: more than one line was exchanged",
    assumptions=["An exception raised while a line is handled ends the connection, as Twisted does.",
                 "The cookie file is the one Tor names in its PROTOCOLINFO reply."])
