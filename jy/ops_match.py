'''Operations on match lists, and on the tally server's loading of them'''
import base64
import json
import os
import re
import world
from privcount import config as CFG
from privcount import match as M
from privcount import tally_server as T
OPS = {}
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
KEYS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys')


def op(f):
    OPS[f.__name__] = f
    return f


def attempt(f, *a, **kw):
    try:
        return ['ok', f(*a, **kw)]
    except Exception as e:
        return ['exc', type(e).__name__]


def put(name, content):
    path = os.path.join(SCRATCH, name)
    with open(path, 'wb') as f:
        f.write(content)
    return path


def first(objs, s, md5=False):
    for i in range(len(objs)):
        if M.exact_match(objs[i], s, match_onion_md5=md5):
            return i
    return None


@op
def exact(a):
    objs = []
    out = []
    for lst in a['lists']:
        out.append(attempt(lambda: sorted(M.exact_match_prepare_collection(
            list(lst), existing_exacts=objs, match_onion_md5=a['md5']))))
    alone = [M.exact_match_prepare_collection(list(lst)) for lst in a['lists']]
    return dict(prepared=out, first=[first(objs, s, a['md5']) for s in a['search']],
                each=[[bool(M.exact_match(o, s, match_onion_md5=a['md5'])) for o in alone] for s in a['search']])


@op
def suffix(a):
    tree = {}
    dups = []
    for i, lst in enumerate(a['lists']):
        r = attempt(M.suffix_match_prepare_collection, list(lst), separator=a['sep'], existing_suffixes=tree,
                    collection_tag=i)
        dups.append(r[1][1] if r[0] == 'ok' else r[1])
        if r[0] != 'ok':
            return dict(dups=dups)
    wire = json.loads(json.dumps(tree))
    return dict(dups=dups, tags=[M.suffix_match(tree, s, separator=a['sep']) for s in a['search']],
                wire=[M.suffix_match(wire, s, separator=a['sep']) for s in a['search']])


@op
def reverse(a):
    obj = M.suffix_reverse_match_prepare_collection(list(a['list']), a['sep'])
    return [bool(M.suffix_reverse_match(obj, s, a['sep'])) for s in a['search']]


@op
def load(a):
    path = put('list.txt', a['content'])
    kw = {}
    if a['kind']:
        kw['check_' + a['kind']] = True
    r = attempt(M.load_match_list, path, **kw)
    return [r[0], list(r[1][1]) if r[0] == 'ok' else r[1]]


@op
def prefix_map(a):
    path = put('map.txt', a['content'])
    lines = M.load_as_prefix_map(path)[1]
    obj = M.ipasn_prefix_match_prepare_string('\n'.join(lines))
    return [attempt(M.ipasn_prefix_match, obj, s) for s in a['search']]


def base_config(_counters, **kw):
    '''the text of a tally server's configuration file (YAML)'''
    key = os.path.join(KEYS, 'k0.pem')
    if not os.path.exists(os.path.join(SCRATCH, 'secret')):
        put('secret', base64.b64encode('s' * 32))
    ts = dict(listen_port=20001, key=key, cert=key, secret_handshake=os.path.join(SCRATCH, 'secret'), sk_threshold=1,
              dc_threshold=1, noise_weight={'*': 1.0}, collect_period=1200, event_period=60, checkin_period=60,
              delay_period=0, always_delay=False, results=SCRATCH)
    drop = kw.pop('_drop', [])
    top = kw.pop('_top', {})
    ts.update(kw)
    for k in drop:
        del ts[k]
    return to_yaml(dict(top, tally_server=ts, counters=_counters))


def to_yaml(x):
    # PyYAML reads 1e-08 as text
    text = re.sub(r'(?<![\d.\w])(\d+)e([-+]\d+)', r'\1.0e\2', json.dumps(x))
    return text.replace('-Infinity', '-.inf').replace('Infinity', '.inf').replace('NaN', '.nan')


@op
def reload(a):
    '''the tally server reads its configuration file after each change'''
    path = os.path.join(SCRATCH, 'config.yaml')
    ts = T.TallyServer(path)
    out = []
    for s in a['steps']:
        for name in s['content']:
            put(name, s['content'][name])
        kw = dict(reject_overlapping_lists=s['reject'])
        if s['files']:
            kw[a['key'] + '_files'] = [os.path.join(SCRATCH, f) for f in s['files']]
            if a['key'] == 'as':
                put('map4', '0.0.0.0/0\t1')
                put('map6', '::/0\t1')
                kw['as_prefix_files'] = {4: os.path.join(SCRATCH, 'map4'), 6: os.path.join(SCRATCH, 'map6')}
        put('config.yaml', base_config(s['counters'], **kw).replace('"4": ', '4: ').replace('"6": ', '6: '))
        before = ts.config
        r = attempt(ts.refresh_config)
        o = dict(result=r, changed=ts.config is not before)
        c = ts.config
        if c is not None:
            where = c['as_data'] if a['key'] == 'as' else c
            ex = where['lists' if a['key'] == 'as' else a['key'] + '_exacts']
            o['exact'] = [first(ex, x, a['key'] == 'onion_address') for x in a['search']]
            o['raw'] = [list(x) for x in c['as_raw_lists' if a['key'] == 'as' else a['key'] + '_lists']]
            if a['key'] == 'domain':
                o['suffix'] = [M.suffix_match(c['domain_suffixes'], x, separator='.') for x in a['search']]
            o['bins'] = dict((n, c['counters'][n]['bins']) for n in c['counters'] if n != 'ZeroCount')
        out.append(o)
    return out
