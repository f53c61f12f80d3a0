import base64
import hashlib
import hmac
import json

from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require

NAMES = {1: "HANDSHAKE1-SERVER-COOKIE", 2: "HANDSHAKE2-CLIENT-COOKIE-HMAC", 3: "HANDSHAKE3-SERVER-HMAC",
         4: "HANDSHAKE4-CLIENT-VERIFY"}
ROLES = {1: "SERVER", 2: "CLIENT", 3: "SERVER", 4: "CLIENT"}
PREFIX = {s: "%s PRIVCOUNT-100 %s HMAC-SHA256" % (NAMES[s], ROLES[s]) for s in NAMES}
LIMIT = 200


def b(s):
    return s.encode("latin-1")


def unb64(tok):
    """a cookie or proof: 32 bytes in 44 characters, or None"""
    try:
        raw = base64.b64decode(b(tok))
    except Exception:
        return None
    return raw if len(tok) == 44 and len(raw) == 32 else None


def parse(line, stage, n):
    """the values after the fixed part of a handshake line, or None"""
    t = line.split()
    if len(t) != 4 + n or " ".join(t[:4]) != PREFIX[stage]:
        return None
    return t[4:]


def mac(key, stage, sc, cc):
    return hmac.new(key, b(PREFIX[stage]) + sc + cc, hashlib.sha256).digest()


class Model:
    """what one end may conclude from the lines it gets; key: its own secret"""
    def __init__(self, role, key):
        self.role, self.key = role, key
        self.sc = self.cc = None
        self.proved = False      # server: the client sent a valid proof
        self.valid = False

    def sent(self, line):
        """a line this end sent: its own cookie"""
        v = parse(line, 1, 1) if self.role == "server" else parse(line, 2, 2)
        if v:
            c = unb64(v[0])
            require(c is not None, "bad cookie in %s", line)
            if self.role == "server":
                self.sc = c
            else:
                self.cc = c

    def takes(self, line):
        """'ok', 'auth' when the line completes the handshake, or None when it
        is not a genuine handshake line for this end in this state"""
        if self.role == "server":
            v = parse(line, 2, 2)
            if v:
                c, m = unb64(v[0]), unb64(v[1])
                if c and m and c != self.sc and m == mac(self.key, 2, self.sc, c):
                    self.cc, self.proved = c, True
                    return "ok"
            elif parse(line, 4, 1) == ["SUCCESS"] and self.proved:
                self.valid = True
                return "auth"
        else:
            v = parse(line, 1, 1)
            if v:
                c = unb64(v[0])
                if c:
                    self.sc = c
                    return "ok"
            v = parse(line, 3, 1)
            if v:
                m = unb64(v[0])
                if m and self.sc and self.cc and m == mac(self.key, 3, self.sc, self.cc):
                    self.valid = True
                    return "auth"
        return None

    def answer(self, sent, what):
        """what this end sent in reply to a genuine line"""
        if self.role == "server" and what == "ok":
            v = parse(sent[0], 3, 1) if len(sent) == 1 else None
            require(v and unb64(v[0]) == mac(self.key, 3, self.sc, self.cc), "reply to a valid proof: %s", sent)
        elif self.role == "client" and what == "ok":
            v = parse(sent[0], 2, 2) if len(sent) == 1 else None
            require(v is not None, "reply to a cookie: %s", sent)
            self.cc = unb64(v[0])
            require(unb64(v[1]) == mac(self.key, 2, self.sc, self.cc), "client proof: %s", sent)
        elif self.role == "client":
            require(len(sent) == 1 and parse(sent[0], 4, 1) == ["SUCCESS"], "reply to a valid server proof: %s", sent)
        else:
            require(len(sent) == 1 and sent[0].startswith("STATUS "), "after the handshake the server sent %s", sent)


def only_failures(sent):
    for l in sent:
        t = l.split()
        require(len(t) == 5 and t[4] == "FAIL" and t[0].startswith("HANDSHAKE"), "sent to an unauthenticated peer: %s", l)


text = st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=30)
key32 = st.integers(0, 2 ** 40).map(lambda n: hashlib.sha256(b(str(n))).digest().decode("latin-1"))

APP = ["STATUS 1500000000.0 {\"name\": \"x\", \"state\": \"idle\"}", "START SUCCESS {}", "START {}", "STOP {}", "STOP FAIL",
       "STOP SUCCESS {\"Counts\": {}}", "CHECKIN 60", "CHECKIN SUCCESS", "", " ", "QUIT", "GET / HTTP/1.0",
       "HANDSHAKE", "HANDSHAKE5 PRIVCOUNT-100 CLIENT HMAC-SHA256 SUCCESS"]
raws = st.one_of(st.sampled_from(APP), text,
                 st.sampled_from([198, 199, 200, 201, 202, 300, 5000]).map(lambda n: ("STATUS 1 " + "x" * n)[:n]),
                 st.sampled_from([1, 2, 3, 4]).map(lambda s: PREFIX[s] + " FAIL"),
                 st.sampled_from([1, 2, 3, 4]).map(lambda s: PREFIX[s] + " SUCCESS")).map(lambda r: dict(raw=r))


@st.composite
def forged(draw, stage=None):
    s = dict(stage=stage or draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4])), n=draw(st.integers(0, 5)))
    kind = draw(st.sampled_from(["key", "bit", "stage", "swap", "old", "role", "version", "type", "name", "short",
                                 "body", "cut", "flip", "tail", "cookie", "cookie", "b64", "nokey", "badlen", "role", "tail"]))
    if kind == "key":
        s["key"] = draw(key32)
    elif kind == "nokey":
        s["key"] = ""
    elif kind == "bit":
        s["mac_bit"] = draw(st.integers(0, 255))
    elif kind == "stage":
        s["mac_stage"] = draw(st.sampled_from([1, 2, 3, 4]))
    elif kind == "swap":
        s["swap"] = True
    elif kind == "old":
        s["sc"] = "other"
    elif kind == "role":
        s["role"] = draw(st.sampled_from(["CLIENT", "SERVER", "client", "X"]))
    elif kind == "version":
        s["version"] = draw(st.sampled_from(["PRIVCOUNT-101", "PRIVCOUNT-10", "PRIVCOUNT-1000", "privcount-100", ""]))
    elif kind == "type":
        s["type"] = draw(st.sampled_from(["HMAC-SHA1", "HMAC-SHA2567", "NULL"]))
    elif kind == "name":
        s["name"] = draw(st.sampled_from(sorted(NAMES.values()) + ["HANDSHAKE", "HANDSHAKE4"]))
    elif kind == "short":
        s["mac_len"] = draw(st.sampled_from([0, 1, 16, 20, 24, 31]))
    elif kind == "body":
        s["body"] = draw(st.sampled_from(["SUCCESS", "FAIL", "", "SUCCESS SUCCESS", "success"]) | text)
    elif kind == "cut":
        s["cut"] = draw(st.integers(0, 80))
    elif kind == "flip":
        s["flip"], s["flip_to"] = draw(st.integers(0, 250)), draw(st.sampled_from("AZaz09+/= "))
    elif kind == "tail":
        s["tail"] = draw(st.sampled_from([" x", " SUCCESS", "="]) | st.integers(1, 130).map(lambda n: " " * n))
    elif kind == "cookie":
        s["cookie"] = draw(st.sampled_from(["server", "server", "server", "client", "", "\0" * 32, "a" * 31, "a" * 33, "\xff" * 32]))
    elif kind == "b64":
        s["body"] = draw(st.sampled_from(["*" * 44, "A" * 44, "A" * 43 + "= " + "A" * 43 + "=", "A" * 42 + "=="]))
    elif kind == "badlen":
        s["cookie"] = draw(st.integers(1, 40)) * "q"
    return s


genuine = st.sampled_from([1, 2, 3, 4]).map(lambda s: dict(stage=s))


@st.composite
def attacks(draw):
    role = draw(st.sampled_from(["server", "client"]))
    steps = []
    ok = {"server": [dict(stage=2), dict(stage=4)], "client": [dict(stage=1), dict(stage=3)]}[role]
    mode = draw(st.sampled_from(["forge", "forge", "random", "genuine"]))
    if mode == "random":
        steps = draw(st.lists(st.one_of(genuine, forged(), raws, st.builds(
            lambda c, n: dict(copy=c, n=n), st.sampled_from(["here", "there"]), st.integers(0, 7))), min_size=1, max_size=6))
    else:
        steps = [dict(s) for s in ok]
        if mode == "forge":
            i = draw(st.integers(0, len(steps)))
            bad = draw(st.one_of(forged(), raws, genuine, st.builds(
                lambda c, n: dict(copy=c, n=n), st.sampled_from(["here", "there"]), st.integers(0, 7))))
            k = draw(st.integers(0, 3))
            if i < len(steps) and k == 0:
                steps[i] = bad
            elif i < len(steps) and k < 3:
                steps[i] = draw(forged(steps[i]["stage"]))
            else:
                steps.insert(i, bad)
        else:
            for s in steps:
                s["n"] = draw(st.integers(0, 5))
    tail = draw(st.lists(raws, max_size=2))
    return dict(role=role, key=draw(key32), steps=steps + tail, overheard=True, seed=draw(st.integers(0, 9)))


EFFECTS = ["set_client_status", "get_stop_config", "get_start_config", "set_start_result", "set_stop_result",
           "set_server_status", "do_start", "do_stop", "do_checkin", "set_checkin_task", "stopTrying"]


def run_attack(case, w):
    out = w.call("attack", case, seed=case["seed"])
    m = Model(case["role"], b(case["key"]))
    first = out[0]["sent"]
    if case["role"] == "server":
        require(len(first) == 1 and parse(first[0], 1, 1), "the server opened with %s", first)
    else:
        require(not first, "the client opened with %s", first)
    for l in first:
        m.sent(l)
    closed = False
    labels = [case["role"]]
    for o in out[1:]:
        line = o["line"]
        if closed:
            require(not o["valid"] and not o["sent"] and not o["calls"], "activity after the connection ended: %s", o)
            continue
        was = m.valid
        if not was:
            require(not [c for c in o["calls"] if c[0] in EFFECTS],
                    "%r had an effect before authentication: %s", line, o["calls"])
        what = None
        exact = line == line.strip() and "  " not in line and "\t" not in line
        if len(line) <= LIMIT or was:
            what = m.takes(line) if line.split()[:1] and line.split()[0].startswith("HANDSHAKE") else None
        if what is not None and (exact or o["sent"] and not o["closed"]):
            require(not o["closed"], "a genuine line %r ended the connection", line)
            m.answer(o["sent"], what)
            require(o["valid"] == m.valid, "after the genuine %r authenticated is %s", line, o["valid"])
            labels.append("%s %s" % (case["role"], what))
        elif what is not None:
            closed = o["closed"]
            m.valid = o["valid"]
        elif was and line.split()[:1] and not line.startswith("HANDSHAKE"):
            # an application message on an authenticated connection: other test
            closed = o["closed"]
            if not closed:
                require(o["valid"], "dropped without closing")
        else:
            require(not o["valid"], "authenticated by %r", line)
            require(o["closed"], "the connection stayed open after %r", line)
            if not line.startswith("HANDSHAKE") or len(line) > LIMIT and not was:
                require(o["exits"] == 0, "%r stopped the node", line[:80])
            only_failures(o["sent"])
            m.valid = False
            closed = True
            labels.append("refused")
    return len(out) > 2, labels


# --- two real ends ------------------------------------------------------------

edit = st.one_of(
    st.builds(lambda n, k: [n, k], st.integers(0, 9), st.sampled_from(["drop", "dup", "reflect", "swap", "lose"])),
    st.builds(lambda n, i, c: [n, "flip", i, c], st.integers(0, 9), st.integers(0, 200), st.sampled_from("AZaz09+/= {}\":")),
    st.builds(lambda n, i: [n, "replay", i], st.integers(0, 9), st.integers(0, 9)),
    st.builds(lambda n, i: [n, "cut", i], st.integers(0, 9), st.integers(0, 200)),
    st.builds(lambda n, s, r: [n, "inject", s, r["raw"]], st.integers(0, 9), st.sampled_from("sc"), raws))
config = st.fixed_dictionaries({"a": st.integers(0, 2 ** 70), "b": st.lists(text, max_size=3)})


@st.composite
def sessions(draw):
    k = draw(key32)
    other = draw(st.booleans()) and draw(st.booleans())
    n = draw(st.integers(0, 2))
    start = [draw(st.none() | config) for _ in range(n)]
    stop = [draw(st.none() | config) for _ in range(draw(st.integers(0, 2)))]
    return dict(server_key=k, client_key=draw(key32) if other else k,
                edits=draw(st.lists(edit, max_size=2, unique_by=lambda e: e[0])) if draw(st.booleans()) else [],
                server_script=dict(start=start, stop=stop, period=draw(st.integers(1, 1000)),
                                   status=dict(name="ts", state=draw(text))),
                client_script=dict(start_result=[draw(st.none() | config) for _ in range(n)],
                                   stop_result=[draw(st.none() | config) for _ in range(2)],
                                   status=dict(name=draw(text), state=draw(text), extra=draw(st.integers(0, 5)))),
                seed=draw(st.integers(0, 99)))


def clean_calls(case):
    """what each node is told in an undisturbed session"""
    s, c = [], ["resetDelay"]
    ss, cs = case["server_script"], case["client_script"]
    start, stop = list(ss["start"]), list(ss["stop"])
    sr, pr = list(cs["start_result"]), list(cs["stop_result"])
    name = cs["status"]["name"]
    nxt = lambda q: q.pop(0) if q else None
    while True:
        c.append(["set_server_status", ss["status"]])
        s.append(["set_client_status", name])
        conf = nxt(stop)
        s.append(["get_stop_config", name])
        if conf is not None:
            c.append(["do_stop", conf])
            s.append(["set_stop_result", name, nxt(pr)])
            continue
        conf = nxt(start)
        s.append(["get_start_config", name])
        if conf is not None:
            c.append(["do_start", conf])
            s.append(["set_start_result", name, nxt(sr)])
            continue
        break
    c.append(["set_checkin_task", True])
    c.append("stopTrying")
    return s, [x if isinstance(x, list) else [x] for x in c]


def run_session(case, w):
    o = w.call("mitm", case, seed=case["seed"])
    sk, ck = b(case["server_key"]), b(case["client_key"])
    ms, mc = Model("server", sk), Model("client", ck)
    for who, l in o["sent"]:
        if who == "s" and l.startswith("HANDSHAKE1"):
            ms.sent(l)
            break
    sent = [l for who, l in o["sent"] if who == "c" and l.startswith("HANDSHAKE2") and not l.endswith("FAIL")]
    cookies = [parse(l, 2, 2)[0] for l in sent]
    ci = 0
    auth = {"s": 0, "c": 0}
    for src, line, was, now in o["delivered"]:
        m, me = (mc, "c") if src == "s" else (ms, "s")
        what = m.takes(line) if line.startswith("HANDSHAKE") else None
        if what == "ok" and me == "c" and ci < len(cookies):
            mc.cc = unb64(cookies[ci])
            ci += 1
        if now and not was:
            auth[me] += 1
            require(what == "auth", "%s was authenticated by %r", me, line)
            require(sk == ck, "authenticated with different secrets")
    if sk != ck or not auth["s"]:
        require(not [c for c in o["s_calls"] if c[0] in EFFECTS], "server told %s unauthenticated", o["s_calls"])
    if sk != ck or not auth["c"]:
        require(not [c for c in o["c_calls"] if c[0] in EFFECTS], "client told %s unauthenticated", o["c_calls"])
    if sk == ck and not case["edits"]:
        require(auth["s"] and auth["c"], "two ends with the same secret did not authenticate")
        es, ec = clean_calls(case)
        got = [c[:2] if c[0] == "set_client_status" else c for c in o["s_calls"]]
        expect_eq(got, es, "calls of the server")
        expect_eq(o["c_calls"], ec, "calls of the client")
        for c in o["s_calls"]:
            if c[0] == "set_client_status":
                for k, v in case["client_script"]["status"].items():
                    expect_eq(c[2].get(k), v, "client status " + k)
        period = [l for who, l in o["sent"] if l.startswith("CHECKIN ") and who == "s"]
        expect_eq(period, ["CHECKIN %d" % case["server_script"]["period"]], "check-in period sent")
        require(o["s"]["closed"] and o["c"]["closed"], "the session did not end")
    if not case["edits"]:
        expect_eq([o["s"]["exits"], o["c"]["exits"]], [0, 0], "exits")
    return bool(case["edits"]) or len(o["delivered"]) > 8, [
        "same secret" if sk == ck else "different secrets", "edited" if case["edits"] else "clean",
        "authenticated" if auth["s"] else "not authenticated"]


# --- the secret ----------------------------------------------------------------

def run_secret(case, w):
    a = w.call("secret_file", dict(content=case["content"]), seed=case["seed"])
    c = case["content"]
    if c is None:
        require(a[0][0] == "ok" and len(a[0][1]) == 32, "no secret was made: %s", a[0])
        expect_eq(a[1], a[0], "loading the new secret again")
        other = w.call("secret_file", dict(content=None), seed=case["seed"] + 1)
        require(other[0] != a[0], "two new secrets are equal")
        return True, ["created"]
    expect_eq(a[2], c, "content of the secret file")
    raw = unb64(c.strip())
    if raw is not None:
        expect_eq(a[0], ["ok", raw.decode("latin-1")], "secret of %r" % c)
        return True, ["loaded"]
    require(a[0][0] == "exc" or a[0][1] is False, "a bad secret was accepted: %r", c)
    return True, ["refused"]


secrets = st.one_of(st.none(), st.builds(lambda k, p, q: p + base64.b64encode(b(k)).decode() + q, key32,
                                         st.sampled_from(["", " ", "\n"]), st.sampled_from(["", "\n", " \r\n"])),
                    st.integers(0, 60).map(lambda n: base64.b64encode(b"k" * n).decode()), text)

CHECK = Check("C07", [
    Test("attack", attacks(), run_attack, quick=3000, thorough=30000, shards=2),
    Test("session", sessions(), run_session, quick=900, thorough=20000, shards=2),
    Test("secret", st.builds(lambda c, s: dict(content=c, seed=s), secrets, st.integers(0, 99)), run_secret,
         quick=300, thorough=3000),
], jy=["ops_handshake"],
    rule="attack: at least two lines were delivered; session: the wire was edited or the session went past the handshake",
    assumptions=["Input that is not valid base64, or a server proof before any cookie, may stop the receiving process: "
                 "the code documents this as a known denial of service risk, so only the failure to authenticate is judged."])
