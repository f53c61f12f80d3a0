import json
import world
from privcount import counter as C
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def wire(x):
    '''the JSON round trip a report makes between nodes'''
    return json.loads(json.dumps(x))


def attempt(f, *a, **kw):
    '''the result or the name of the exception: for calls whose refusal may
    be either a result or an exception'''
    try:
        return ['ok', f(*a, **kw)]
    except world.NodeExit:
        raise
    except Exception as e:
        return ['exc', type(e).__name__]


def do_inc(sc, inc):
    name, b, n = inc
    if b is None:
        sc.increment(name, C.SecureCounters.SINGLE_BIN, n)
    else:
        sc.increment(name, b, n)


@op
def full_round(a):
    '''a: counters, modulus, sks [uid], dcs [[step...]], sk_order, ts_order,
    bad: None or [report index, kind, ...]'''
    modulus = a['modulus']
    sks = a['sks']
    shares = dict((u, []) for u in sks)
    reports = {}
    out = {'dc': [], 'shares_ok': True, 'sk': []}
    for i, steps in enumerate(a['dcs']):
        sc = C.SecureCounters(a['counters'], modulus, require_generate_noise=a['noise'])
        sc.generate_blinding_shares(sks)
        for s in steps:
            if s[0] == 'inc':
                do_inc(sc, s[1:])
            elif s[0] == 'shares':
                got = sc.detach_blinding_shares()
                for u in got:
                    shares[u].append(wire(got[u]))
            elif s[0] == 'noise':
                sc.generate_noise(s[1])
        counts = sc.detach_counts()
        reports['d%d' % i] = wire(counts)
        out['dc'].append(counts)
    for u in sks:
        sc = C.SecureCounters(a['counters'], modulus, require_generate_noise=False)
        todo = list(shares[u])
        for j in a['sk_order']:
            if todo:
                out['shares_ok'] = sc.import_blinding_share(todo.pop(j % len(todo))) and out['shares_ok']
        for s in todo:
            out['shares_ok'] = sc.import_blinding_share(s) and out['shares_ok']
        counts = sc.detach_counts()
        reports['s' + u] = wire(counts)
        out['sk'].append(counts)
    keys = sorted(reports)
    order = []
    for j in a['ts_order']:
        if keys:
            order.append(keys.pop(j % len(keys)))
    order += keys
    final = [reports[k] for k in order]
    if a.get('bad'):
        idx, kind, n = a['bad']
        r = final[idx % len(final)]
        name = sorted(r)[n % len(r)]
        bins = r[name]['bins']
        if kind == 'drop_counter':
            del r[name]
        elif kind == 'drop_bin':
            bins.pop(n % len(bins))
        elif kind == 'dup_bin':
            bins.append(list(bins[n % len(bins)]))
        elif kind == 'no_count':
            bins[n % len(bins)].pop()
        elif kind == 'extra_item':
            bins[n % len(bins)].append(0)
        elif kind == 'no_bins':
            del r[name]['bins']
    ts = C.SecureCounters(a['counters'], modulus, require_generate_noise=False)
    out['accepted'] = bool(ts.tally_counters(final))
    if out['accepted']:
        out['tally'] = ts.detach_counts()
    return out


@op
def blind(a):
    '''one collector: the reported values and the shares, as lists'''
    world.ENTROPY.reset(a['entropy'])
    sc = C.SecureCounters(a['counters'], a['modulus'], require_generate_noise=False)
    sc.generate_blinding_shares(a['sks'])
    out = {}
    if a.get('detach_first', True):
        shares = sc.detach_blinding_shares()
    for i in a['incs']:
        do_inc(sc, i)
    if not a.get('detach_first', True):
        shares = sc.detach_blinding_shares()
    out['again'] = sc.detach_blinding_shares() is None
    counts = sc.detach_counts()
    for i in a['incs']:
        do_inc(sc, i)
    snapshot = wire(counts)
    second = sc.detach_counts()
    out['second'] = second is None
    out['late'] = sc.tally_counters([snapshot]) if a.get('late_tally') else False
    out['counts'] = vals(snapshot)
    out['shares'] = dict((u, vals(shares[u]['secret'])) for u in shares)
    out['uids'] = dict((u, shares[u].get('sk_uid')) for u in shares)
    out['unchanged'] = wire(counts) == snapshot
    return out


def vals(counters):
    return dict((k, [b[2] for b in counters[k]['bins']]) for k in counters)


@op
def sample_many(a):
    world.ENTROPY.reset(a['entropy'])
    return [C.sample(a['modulus']) for _ in range(a['n'])]


@op
def sample_range(a):
    world.ENTROPY.reset(a['entropy'])
    return [C.sample_randint(a['lo'], a['hi']) for _ in range(a['n'])]


@op
def signed(a):
    return C.adjust_count_signed(a[0], a[1])


@op
def noisy(a):
    '''the noise of one collector (the blinding is removed again)'''
    world.ENTROPY.reset(a['entropy'])
    sc = C.SecureCounters(a['counters'], a['modulus'], require_generate_noise=True)
    sc.generate_blinding_shares(a['sks'])
    out = {}
    for s in a['steps']:
        if s[0] == 'inc':
            do_inc(sc, s[1:])
        elif s[0] == 'noise':
            sc.generate_noise(s[1])
        elif s[0] == 'shares':
            shares = sc.detach_blinding_shares()
    r = attempt(sc.detach_counts)
    if r[0] == 'exc':
        return {'refused': r[1]}
    r = wire(r[1])
    q = a['modulus']
    v = vals(r)
    for u in shares:
        s = vals(shares[u]['secret'])
        for k in v:
            v[k] = [(x - y) % q for x, y in zip(v[k], s[k])]
    return {'values': dict((k, [x - q if x >= (q + 1) // 2 else x for x in v[k]]) for k in v)}


@op
def binning(a):
    sc = C.SecureCounters(a['counters'], a['modulus'], require_generate_noise=False)
    trace = []
    for i in a['incs']:
        before = vals(sc.counters)
        r = attempt(do_inc, sc, i)
        trace.append([r[0], r[1] if r[0] == 'exc' else None])
    ts = C.SecureCounters(a['counters'], a['modulus'], require_generate_noise=False)
    ok = ts.tally_counters([wire(sc.detach_counts())])
    return {'trace': trace, 'ok': ok, 'tally': vals(ts.detach_counts())}


@op
def check_config(a):
    return bool(C.check_counters_config(a['bins'], a['sigmas'], allow_unknown_counters=a['unknown']))


@op
def check_weights(a):
    return {'config': bool(C.check_noise_weight_config(a['weights'], a['threshold'])),
            'threshold': bool(C.check_dc_threshold(a['threshold'])),
            'default': C.has_noise_weight_default(a['weights']),
            'per': [[f, C.get_noise_weight(a['weights'], f), C.has_noise_weight(a['weights'], f)] for f in a['ask']]}


@op
def combine(a):
    return C.combine_counters(a['bins'], a['sigmas'])


@op
def delay(a):
    d = C.CollectionDelay()
    out = []
    for s in a:
        kw = dict(max_client_rtt=s['rtt'], always_delay=s['always'], tolerance=s['tol'])
        if s['op'] == 'ask':
            world.CLOCK.now = s['t']
            out.append([bool(d.round_start_permitted(s['alloc'], s['t'], s['delay'], **kw)),
                        d.get_next_round_start_time(s['alloc'], s['delay'], **kw)])
        else:
            world.CLOCK.now = s['end']
            d.set_delay_for_stop(s['success'], s['alloc'], s['start'], s['end'], s['delay'], **kw)
            out.append(None)
    return out


@op
def limits(a):
    return {'modulus': C.counter_modulus(), 'min_b': C.min_blinded_counter_value(),
            'max_b': C.max_blinded_counter_value(), 'min_t': C.min_tally_counter_value(),
            'max_t': C.max_tally_counter_value()}
