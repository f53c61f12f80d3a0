'''Operations on share keepers and data collectors: the commands of a tally server'''
import base64
import copy
import json
import os
import world
from ops_match import to_yaml
from ops_crypto import pem, priv, pub
from privcount import crypto as K
from privcount import counter as C
from privcount import data_collector as D
from privcount import share_keeper as S
OPS = {}
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
KEYS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys')
Q = 2 ** 70


def op(f):
    OPS[f.__name__] = f
    return f


def put(name, content):
    path = os.path.join(SCRATCH, name)
    with open(path, 'wb') as f:
        f.write(content)
    return path


def wire(x):
    '''what arrives after a trip through the protocol'''
    return json.loads(K.json_serialise(x))


def guarded(f, *a):
    '''(kind, result): an exception ends the process, like in the protocol'''
    try:
        r = f(*a)
    except world.NodeExit:
        return ['exit', None]
    except Exception as e:
        return ['exit', '%s: %s' % (type(e).__name__, e)]
    return ['none', None] if r is None else ['ok', wire(r)]


def public(n):
    return base64.b64encode(K.get_public_bytes(pem(n)))


def digest(n):
    return K.get_public_digest_string(pem(n))


def values(counters):
    return dict((k, [b[2] for b in counters[k]['bins']]) for k in counters)


def secret(counters, spec):
    '''a data collector's blinding for one keeper; and its own blinded zeros'''
    sc = C.SecureCounters(counters, C.counter_modulus(), require_generate_noise=False)
    sc.generate_blinding_shares(['k'])
    share = sc.detach_blinding_shares()['k']['secret']
    return share, values(sc.detach_counts())


def make_share(counters, spec, memo):
    kind = spec['kind']
    layout = counters
    if kind == 'missing counter':
        layout = dict((k, counters[k]) for k in sorted(counters)[1:])
    elif kind == 'missing bin':
        layout = copy.deepcopy(counters)
        layout[sorted(layout)[0]]['bins'] = layout[sorted(layout)[0]]['bins'][:-1]
    elif kind == 'extra bin':
        layout = copy.deepcopy(counters)
        layout[sorted(layout)[0]]['bins'].append([1e15, 1e16])
    data, mine = secret(layout, spec)
    if kind == 'no count':
        data[sorted(data)[0]]['bins'][0] = data[sorted(data)[0]]['bins'][0][:2]
    text = K.encrypt(pub(spec['key']), data)
    part = ('pk_encrypted_secret_key', 'sym_encrypted_data')[spec['at'] % 2]
    if kind == 'flip':
        x = text[part]
        i = spec['at'] % (len(x) - 20)
        text[part] = x[:i] + ('A' if x[i] != 'A' else 'B') + x[i + 1:]
    elif kind == 'cut':
        text[part] = text[part][:spec['at'] % (len(text[part]) - 20)]
    elif kind == 'plain':
        text = data
    if kind != 'plain':
        memo.extend(text.values())
    share = {'secret': text, 'sk_uid': digest(0), 'dc_name': spec['name']}
    if kind == 'no secret':
        del share['secret']
    return share, mine


def status(node):
    s = node.get_status()
    return s['state']


@op
def keeper(a):
    '''a share keeper and a history of commands'''
    key = os.path.join(KEYS, 'k0.pem')
    put('secret', base64.b64encode('s' * 32))
    conf = dict(a['conf'], key=key, tally_server_info={'ip': '127.0.0.1', 'port': 20001},
                secret_handshake=os.path.join(SCRATCH, 'secret'))
    node = S.ShareKeeper(put('sk.yaml', to_yaml({'share_keeper': conf})))
    node.refresh_config()
    out = [dict(ok=node.config is not None, state=status(node))]
    for s in a['steps']:
        o = {}
        if s[0] == 'start':
            cfg = copy.deepcopy(s[1])
            sent = []
            if 'shares' in cfg:
                made = [make_share(s[2], sp, sent) for sp in cfg['shares']]
                cfg['shares'] = [m[0] for m in made]
                o['mine'] = [m[1] for m in made]
            o['result'] = guarded(node.do_start, wire(cfg))
        elif s[0] == 'stop':
            o['result'] = r = guarded(node.do_stop, copy.deepcopy(s[1]))
            text = json.dumps(r[1])
            o['leak'] = [w for w in sent_before(out) if len(w) > 20 and w in text]
            if r[0] == 'ok' and 'Counts' in r[1]:
                o['bins'] = dict((k, [b[:2] for b in r[1]['Counts'][k]['bins']]) for k in r[1]['Counts'])
        elif s[0] == 'tick':
            world.REACTOR.advance(s[1])
        elif s[0] == 'reload':
            put('sk.yaml', to_yaml({'share_keeper': dict(conf, **s[1])}))
            o['result'] = guarded(node.refresh_config)
        if s[0] == 'start':
            o['sent'] = sent
        o['state'] = status(node)
        o['exits'] = len(world.EXITS)
        out.append(o)
        if o.get('result', [''])[0] == 'exit':
            break
    for o in out:
        o.pop('sent', None)
    return out


def sent_before(out):
    return [t for o in out for t in o.get('sent', [])]


# --- data collectors -----------------------------------------------------------

def open_share(share, k):
    '''what the holder of key k reads from a share'''
    try:
        return K.decrypt(priv(k), share['secret'])
    except Exception as e:
        return None


@op
def collector(a):
    '''a data collector and a history of commands, with its relay'''
    put('secret', base64.b64encode('s' * 32))
    conf = dict(a['conf'], tally_server_info={'ip': '127.0.0.1', 'port': 20001}, event_source=a['source'],
                share_keepers=[digest(k) for k in a['keepers']], secret_handshake=os.path.join(SCRATCH, 'secret'))
    path = put('dc.yaml', to_yaml({'data_collector': conf}))
    node = D.DataCollector(path)
    node.refresh_config()
    out = [dict(ok=node.config is not None, state=status(node))]
    world.REACTOR.log = log = []
    shares = {}
    prot = None
    dialled = False
    for s in a['steps']:
        o = {}
        if s[0] == 'start':
            cfg = copy.deepcopy(s[1])
            if 'sharekeepers' in cfg:
                cfg['sharekeepers'] = dict((u, public(k)) for u, k in cfg['sharekeepers'])
            r = guarded(node.do_start, wire(cfg))
            o['result'] = [r[0], None]
            if r[0] == 'exit':
                o['result'] = r
            if r[0] == 'ok':
                dialled = False
                got = {}
                for u in r[1]:
                    readers = []
                    for k in range(4):
                        m = open_share(r[1][u], k)
                        if m is not None:
                            readers.append(k)
                            got[u] = values(m)
                            bins = dict((n, [b[:2] for b in m[n]['bins']]) for n in m)
                            if bins != dict((n, [list(b) for b in s[2][n]]) for n in s[2]):
                                o['layout'] = bins
                    o.setdefault('readers', {})[u] = readers
                    o.setdefault('names', []).append([r[1][u].get('sk_uid'), r[1][u].get('dc_name')])
                    text = json.dumps(r[1][u])
                    o['plain'] = any(str(v) in text for c in got.get(u, {}).values() for v in c if v > 10 ** 6)
                flat = [tuple(sorted((n, tuple(v)) for n, v in got[u].items())) for u in got]
                o['distinct'] = len(set(flat)) == len(flat)
                shares = got
        elif s[0] == 'stop':
            r = guarded(node.do_stop, copy.deepcopy(s[1]))
            if r[0] == 'ok' and 'Counts' in r[1]:
                counts = r[1].pop('Counts')
                v = values(counts)
                for u in shares:
                    for n in v:
                        if n in shares[u]:
                            v[n] = [(x - y) % Q for x, y in zip(v[n], shares[u][n])]
                o['counts'] = dict((n, [x - Q if x >= Q // 2 else x for x in v[n]]) for n in v)
                o['bins'] = dict((n, [b[:2] for b in counts[n]['bins']]) for n in counts)
            o['result'] = r
            prot = None
            dialled = False
        elif s[0] == 'relay':
            # the aggregator's control connection, up to the point at which it knows its relay
            g = node.aggregator
            if g is not None and dialled and prot is None:
                prot = g.buildProtocol(None)
                t = world.Transport()
                for f in ([prot.makeConnection, t],) + tuple([prot.dataReceived, l + '\r\n'] for l in relay_lines(s[1])):
                    o['result'] = guarded(*f)
                    if o['result'][0] == 'exit':
                        break
                o['proto'] = str(prot.state)
        elif s[0] == 'event':
            g = node.aggregator
            if g is not None and prot is not None and prot.transport and not prot.transport.closed:
                o['result'] = guarded(prot.dataReceived, '650 ' + ' '.join(s[1]) + '\r\n')
        elif s[0] == 'tick':
            o['result'] = guarded(world.REACTOR.advance, s[1])
        elif s[0] == 'checkin':
            o['result'] = guarded(node.do_checkin)
        elif s[0] == 'reload':
            put('dc.yaml', to_yaml({'data_collector': dict(conf, **s[1])}))
            o['result'] = guarded(node.refresh_config)
        o['state'] = guarded(status, node)[1]
        o['connects'] = [l for l in log if l[0] != 'ssl']
        o['exits'] = len(world.EXITS)
        dialled = dialled or bool(o['connects'])
        del log[:]
        out.append(o)
        if o.get('result', [''])[0] == 'exit' or world.EXITS:
            break
    return out


def relay_lines(fp):
    '''the dialogue of a relay without authentication'''
    return ['250-PROTOCOLINFO 1', '250-AUTH METHODS=NULL', '250-VERSION Tor="0.3.0"', '250 OK', '250 OK',
            '250 Nickname=relay', '250-version=0.3.0', '250-fingerprint=' + fp]


@op
def context(a):
    '''what a data collector and a share keeper tell about a round'''
    put('secret', base64.b64encode('s' * 32))
    key = os.path.join(KEYS, 'k0.pem')
    tsi = {'ip': '127.0.0.1', 'port': 20001}
    dc = D.DataCollector(put('dc.yaml', to_yaml({'data_collector': dict(
        a['dc'], tally_server_info=tsi, event_source=a['source'], share_keepers=[digest(0)],
        secret_handshake=os.path.join(SCRATCH, 'secret'))})))
    sk = S.ShareKeeper(put('sk.yaml', to_yaml({'share_keeper': dict(
        a['sk'], key=key, tally_server_info=tsi, secret_handshake=os.path.join(SCRATCH, 'secret'))})))
    dc.refresh_config()
    sk.refresh_config()
    out = dict(dc_config=wire(dc.config), sk_config=wire(sk.config), limits=wire(C.add_counter_limits_to_config({})))
    cfg = dict(copy.deepcopy(a['start']), sharekeepers={digest(0): public(0)})
    out['dc_sent'] = sent = wire(cfg)
    r = guarded(dc.do_start, copy.deepcopy(sent))
    out['dc_start'] = r[0]
    if r[0] != 'ok':
        return out
    shares = [r[1][digest(0)]]
    kcfg = dict((k, a['start'][k]) for k in ('counters', 'noise', 'noise_weight', 'dc_threshold', 'collect_period'))
    kcfg['shares'] = shares
    out['sk_sent'] = wire(kcfg)
    out['sk_start'] = guarded(sk.do_start, wire(kcfg))
    out['status'] = [wire(dc.get_status()), wire(sk.get_status())]
    world.REACTOR.advance(a['wait'])
    out['dc_stop'] = guarded(dc.do_stop, dict(a['stop']))
    out['sk_stop'] = guarded(sk.do_stop, dict(a['stop']))
    out['again'] = [wire(dc.get_status()), wire(sk.get_status())]
    lines = open(key).read().split('\n')
    counts = [r[1].pop('Counts', {}) for r in (out['dc_stop'], out['sk_stop'])]
    # what only the owner may know
    out['secrets'] = [base64.b64encode('s' * 32), 's' * 32] + [l for l in lines if len(l) > 40]
    out['ciphertexts'] = [v for v in shares[0]['secret'].values() if len(v) > 40]
    out['values'] = [str(b[2]) for c in counts for n in c for b in c[n]['bins'] if b[2] > 2 ** 30]
    m = open_share(shares[0], 0)
    out['values'] += [str(b[2]) for n in m for b in m[n]['bins'] if b[2] > 2 ** 30]
    return out
