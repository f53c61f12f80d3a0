import base64
import hashlib
import hmac
import json
import math

from hypothesis import strategies as st
from vp import Check, Test, expect_eq, require

leaf = st.one_of(st.none(), st.booleans(), st.integers(-2 ** 130, 2 ** 130), st.integers(-100, 100),
                 st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([float("inf"), float("-inf"), 0.1, -0.0, 1e22]),
                 st.text(max_size=40))
data = st.recursive(leaf, lambda c: st.one_of(st.lists(c, max_size=6), st.dictionaries(st.text(max_size=12), c, max_size=5)),
                    max_leaves=25)
big = st.integers(1, 4000).map(lambda n: {"secret": "x" * n, "n": [n] * (n // 50)})
raw = st.binary(max_size=80).map(lambda x: x.decode("latin-1"))
longkey = st.binary(min_size=32, max_size=150).map(lambda x: x.decode("latin-1"))


def js(x):
    return json.dumps(x, sort_keys=True)


def b(s):
    return s.encode("latin-1")


def run_coding(case, w):
    text = js(case["x"])
    o = w.call("coding", dict(json=text))
    expect_eq(js(json.loads(o["back"])), text, "decoded")
    expect_eq(js(json.loads(o["wire_back"])), text, "read from the wire")
    expect_eq(js(json.loads(o["wire"])), text, "on the wire")
    require("\n" not in o["wire"] and "\r" not in o["wire"], "a line break in %s", o["wire"])
    expect_eq(js(json.loads(base64.b64decode(o["encoded"], validate=True))), text, "encoded")
    return isinstance(case["x"], (list, dict)) and len(case["x"]) > 0, ["container" if isinstance(case["x"], (list, dict)) else "leaf"]


mutation = st.one_of(
    st.tuples(st.just("flip"), st.integers(0, 10 ** 6), st.integers(0, 6)),
    st.tuples(st.just("set"), st.integers(0, 10 ** 6), st.sampled_from("AZaz09-_=+/ ")),
    st.tuples(st.just("cut"), st.integers(0, 10 ** 6)), st.tuples(st.just("head"), st.integers(0, 10 ** 6)),
    st.tuples(st.just("swap"), st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)),
    st.tuples(st.just("append"), st.just(0), st.sampled_from(["A", "=", "AAAA", "gAAAAA=="])))


@st.composite
def boxes(draw):
    to = draw(st.integers(0, 7))
    return dict(x=draw(data | big), to=to, other=(to + draw(st.integers(1, 7))) % 8,
                mutations=draw(st.lists(st.tuples(st.sampled_from(["sym_encrypted_data", "pk_encrypted_secret_key"]), mutation),
                                        min_size=1, max_size=6)), seed=draw(st.integers(0, 1000)))


def lenient(s):
    """what b64decode of the old Python sees"""
    try:
        return base64.b64decode(b(s).translate(bytes.maketrans(b"-_", b"+/")))
    except Exception:
        return None


def run_box(case, w):
    text = js(case["x"])
    o = w.call("box", dict(json=text, to=case["to"], other=case["other"], mutations=case["mutations"]), seed=case["seed"])
    expect_eq(o["keys"], ["pk_encrypted_secret_key", "sym_encrypted_data"], "parts of the ciphertext")
    expect_eq(js(json.loads(o["back"])), text, "decrypted")
    expect_eq(o["other"], "exc", "decryption with another key")
    expect_eq(o["mixed"], "exc", "decryption of parts of two messages")
    require(o["fresh"] and o["secrets_differ"], "the same symmetric key or ciphertext was used twice")
    enc = base64.b64encode(text.encode()).decode()
    blob = json.dumps(o["cipher"])
    if len(enc) > 30:
        require(enc[4:24] not in blob and text[:20] not in blob, "the plaintext shows in the ciphertext")
    hit = 0
    for (field, m), (unchanged, how, val, new) in zip(case["mutations"], o["tampered"]):
        if unchanged or lenient(new) == lenient(o["cipher"][field]):
            # the same bytes in another spelling
            if how == "ok":
                expect_eq(js(json.loads(val)), text, "decrypted unchanged ciphertext")
            continue
        hit += 1
        require(how == "exc", "ciphertext altered by %s decrypted to %s", m, val[:200])
    return hit > 0, ["tampered" if hit else "same bytes"]


@st.composite
def macs(draw):
    k, p, d = draw(longkey), draw(raw), draw(raw)
    vs = [[None, k, p, d]]
    tag = hmac.new(b(k), b(p) + b(d), hashlib.sha256).digest().decode("latin-1")
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["tag", "key", "prefix", "data", "move", "short", "long", "other", "key_tail"]))
        i = draw(st.integers(0, 255))
        flip = lambda s: s[:i % len(s)] + chr(ord(s[i % len(s)]) ^ (1 << i % 8)) + s[i % len(s) + 1:] if s else s + "x"
        v = [tag, k, p, d]
        if kind == "tag":
            v[0] = flip(tag)
        elif kind == "key":
            v[1] = flip(k)
        elif kind == "key_tail":
            v[1] = k + draw(st.sampled_from(["x", "\x01", k]))
        elif kind == "prefix":
            v[2] = flip(p)
        elif kind == "data":
            v[3] = flip(d)
        elif kind == "move":
            # the same concatenation: one and the same tag
            j = i % (len(p + d) + 1)
            v[2], v[3] = (p + d)[:j], (p + d)[j:]
        elif kind == "short":
            v[0] = tag[:i % 32]
        elif kind == "long":
            v[0] = tag + "\0"
        else:
            v[0] = draw(raw)
        vs.append(v)
    return dict(key=k, prefix=p, data=d, verify=vs)


def run_hmac(case, w):
    o = w.call("hmacs", case)
    f = lambda k, p, d: hmac.new(b(k), b(p) + b(d), hashlib.sha256).digest()
    expect_eq(o["tag"], f(case["key"], case["prefix"], case["data"]).decode("latin-1"), "keyed hash")
    for v, got in zip(case["verify"], o["verify"]):
        t = o["tag"] if v[0] is None else v[0]
        expect_eq(got, f(*v[1:]) == b(t), "verification of %s" % v)
    return True, ["accepted %d" % sum(o["verify"])]


def run_short(case, w):
    n = len(case)
    expect_eq(w.call("short_key", case), ["ok" if n >= 32 else "exc"] * 2, "key of %d bytes" % n)
    return True, ["short" if n < 32 else "long"]


def run_digest(case, w):
    o = w.call("digests", case)
    want = hashlib.sha256(b(o["bytes"])).hexdigest()
    for k in ("private", "public", "private_file", "public_file"):
        expect_eq(o[k], want, k + " digest")
    expect_eq(o["again"], o["bytes"], "public key written again")
    require("PRIVATE" not in o["bytes"], "the public key holds a private one")
    others = {w.call("digests", (case + i) % 8)["private"] for i in (1, 3)}
    require(want not in others, "two keys have one digest")


def run_lengths(case, w):
    if case[0] < 0:
        expect_eq(w.call("bad_length", case[0]), ["exc", "exc"], "length %d" % case[0])
        return True, ["negative"]
    for n, (r, p) in zip(case, w.call("lengths", case)):
        expect_eq(r, -(-n * 8 // 6), "raw length of %d" % n)
        expect_eq(p, -(-n // 3) * 4, "padded length of %d" % n)
        if n < 4000:
            e = base64.b64encode(b"a" * n)
            expect_eq([r, p], [len(e.rstrip(b"=")), len(e)], "lengths of %d" % n)
    return True, ["lengths"]


CHECK = Check("C08", [
    Test("coding", st.fixed_dictionaries(dict(x=data)), run_coding, quick=1200, thorough=30000),
    Test("box", boxes(), run_box, quick=400, thorough=8000, shards=2),
    Test("hmac", macs(), run_hmac, quick=1200, thorough=20000),
    Test("short", st.integers(0, 70).map(lambda n: "k" * n), run_short, quick=60, thorough=70),
    Test("digest", st.integers(0, 7), run_digest, quick=8, thorough=8),
    Test("lengths", st.lists(st.integers(0, 2 ** 45) | st.integers(0, 4000), min_size=1, max_size=20) |
         st.integers(-50, -1).map(lambda n: [n]), run_lengths, quick=300, thorough=3000),
], jy=["ops_crypto"],
    rule="coding: non-empty containers; box: at least one mutation changed the ciphertext's bytes; others: every case",
    assumptions=["Fernet and RSA-OAEP are stand-ins built on the Java library, with the behaviour of the cryptography package."])
