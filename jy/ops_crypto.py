'''Operations on privcount.crypto'''
import json
import os
import world
from privcount import crypto as K
OPS = {}
HERE = os.path.dirname(os.path.abspath(__file__))
KEYS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def pem(n):
    with open(os.path.join(HERE, 'keys', 'k%d.pem' % n), 'rb') as f:
        return f.read()


def priv(n):
    if n not in KEYS:
        KEYS[n] = K.load_private_key_string(pem(n))
    return KEYS[n]


def pub(n):
    if ('pub', n) not in KEYS:
        KEYS['pub', n] = K.load_public_key_string(K.get_public_bytes(pem(n)))
    return KEYS['pub', n]


def attempt(f, *a):
    try:
        return ['ok', f(*a)]
    except Exception as e:
        return ['exc', type(e).__name__]


def same(x, y):
    return json.dumps(x, sort_keys=True) == json.dumps(y, sort_keys=True)


@op
def coding(a):
    x = json.loads(a['json'])
    e = K.encode_data(x)
    return {'encoded': e, 'back': json.dumps(K.decode_data(e)), 'wire': K.json_serialise(x),
            'wire_back': json.dumps(json.loads(K.json_serialise(x)))}


def mutate(s, m):
    kind = m[0]
    s = str(s)
    if kind == 'flip' and s:
        i = m[1] % len(s)
        return s[:i] + chr((ord(s[i]) ^ (1 << m[2] % 7)) & 255) + s[i + 1:]
    if kind == 'set' and s:
        i = m[1] % len(s)
        return s[:i] + m[2] + s[i + 1:]
    if kind == 'cut':
        return s[:len(s) - 1 - m[1] % len(s)]
    if kind == 'head':
        return s[1 + m[1] % len(s):]
    if kind == 'swap' and len(s) > 1:
        i, j = m[1] % len(s), m[2] % len(s)
        l = list(s)
        l[i], l[j] = l[j], l[i]
        return ''.join(l)
    if kind == 'append':
        return s + m[2]
    return s


@op
def box(a):
    '''encrypt to one key, decrypt with it, with another, and after tampering'''
    x = json.loads(a['json'])
    c = json.loads(json.dumps(K.encrypt(pub(a['to']), x)))
    d = json.loads(json.dumps(K.encrypt(pub(a['to']), x)))
    out = {'keys': sorted(c), 'back': json.dumps(K.decrypt(priv(a['to']), c)),
           'other': attempt(K.decrypt, priv(a['other']), c)[0],
           'fresh': all(c[k] != d[k] for k in c),
           'secrets_differ': K.decrypt_pk(priv(a['to']), c['pk_encrypted_secret_key']) !=
                             K.decrypt_pk(priv(a['to']), d['pk_encrypted_secret_key']),
           'cipher': c, 'tampered': []}
    mixed = dict(c, sym_encrypted_data=d['sym_encrypted_data'])
    out['mixed'] = attempt(K.decrypt, priv(a['to']), mixed)[0]
    for field, m in a['mutations']:
        t = dict(c)
        t[field] = mutate(c[field], m)
        r = attempt(K.decrypt, priv(a['to']), t)
        out['tampered'].append([t[field] == c[field], r[0], json.dumps(r[1]) if r[0] == 'ok' else r[1], t[field]])
    return out


@op
def hmacs(a):
    t = K.get_hmac(a['key'], a['prefix'], a['data'])
    return {'tag': t, 'verify': [K.verify_hmac(x, k, p, d) for x, k, p, d in
                                 [[v[0] if v[0] is not None else t] + v[1:] for v in a['verify']]]}


@op
def short_key(a):
    return [attempt(K.get_hmac, a, 'p', 'd')[0], attempt(K.verify_hmac, 'x' * 32, a, 'p', 'd')[0]]


@op
def digests(n):
    p = pem(n)
    pubs = K.get_public_bytes(p)
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'key.pem')
    with open(path, 'w') as f:
        f.write(p)
    ppath = os.path.join(os.environ['VERIF_SCRATCH'], 'pub.pem')
    with open(ppath, 'w') as f:
        f.write(pubs)
    return {'private': K.get_public_digest_string(p), 'public': K.get_public_digest_string(pubs, is_private_key=False),
            'private_file': K.get_public_digest(path), 'public_file': K.get_public_digest(ppath, is_private_key=False),
            'bytes': pubs, 'again': K.get_public_bytes(pubs, is_private_key=False)}


@op
def lengths(ns):
    return [[int(K.b64_raw_length(n)), int(K.b64_padded_length(n))] for n in ns]


@op
def bad_length(n):
    return [attempt(K.b64_raw_length, n)[0], attempt(K.b64_padded_length, n)[0]]
