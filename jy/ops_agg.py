'''Operations on a data collector's event aggregator'''
import json
import world
from ops_counter import attempt, vals, wire
from privcount import counter as C
from privcount import data_collector as D
from privcount import match as M
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f

FP = 'A' * 40
Q = 2 ** 70


def make(a):
    '''an aggregator, from the keys of a that are given'''
    suffixes = {}
    tag = 0
    for lst in a.get('domain_lists', []):
        M.suffix_match_prepare_collection(list(lst), separator='.', existing_suffixes=suffixes,
                                          collection_tag=tag)
        tag += 1
    exacts = []
    return D.Aggregator(a['counters'], a.get('traffic_model'), a.get('sks', ['sk']),
                        a.get('noise_weight', {'*': 0}), a.get('modulus', Q),
                        a.get('tor_control_port', {'port': 20003}), a.get('rotate_period', 600),
                        a.get('use_setconf', True), a.get('max_cell_events', 0),
                        a.get('sample_rate', 1.0),
                        [list(x) for x in a.get('domain_lists', [])], suffixes,
                        [list(x) for x in a.get('country_lists', [])],
                        {'prefix_maps': dict(a.get('as_maps', {})), 'lists': [list(x) for x in a.get('as_lists', [])]},
                        [list(x) for x in a.get('hsdir_store_lists', [])],
                        [list(x) for x in a.get('hsdir_fetch_lists', [])],
                        [list(x) for x in a.get('circuit_failure_lists', [])],
                        [list(x) for x in a.get('onion_lists', [])])


def unblind(counts, shares, q):
    v = vals(wire(counts))
    for u in shares:
        s = vals(wire(shares[u]['secret']))
        for k in v:
            v[k] = [(x - y) % q for x, y in zip(v[k], s[k])]
    return dict((k, [x - q if x >= (q + 1) // 2 else x for x in v[k]]) for k in v)


@op
def agg(a):
    '''run the steps on a fresh aggregator; the counts at the end'''
    g = make(a)
    shares = g.get_shares()
    if a.get('start', True):
        g.start()
    results = []
    for s in a['steps']:
        if s[0] == 'event':
            results.append(['ok', g.handle_event(list(s[1]))])
        elif s[0] == 'try':
            results.append(attempt(g.handle_event, list(s[1])))
        elif s[0] == 'set':
            results.append(attempt(getattr(g, 'set_' + s[1]), s[2]))
        elif s[0] == 'advance':
            world.REACTOR.advance(s[1])
            results.append(None)
        elif s[0] == 'connected':
            # what the control protocol does once it knows the relay
            results.append(None)
        elif s[0] == 'context':
            results.append(g.get_context())
    out = {'results': results, 'context': g.get_context()}
    counts = g.stop(counts_are_valid=a.get('valid', True))
    out['counts'] = None if counts is None else unblind(counts, shares, a.get('modulus', Q))
    if a.get('sparse') and counts is not None:
        out['counts'] = dict((k, v) for k, v in out['counts'].items() if any(v))
    out['second'] = g.stop(counts_are_valid=a.get('valid', True)) is None
    out['after'] = bool(attempt(g.handle_event, ['PRIVCOUNT_CIRCUIT_CLOSE'])[1])
    return out


@op
def events_for(a):
    return dict((k, sorted(C.get_events_for_counter(k))) for k in a)


@op
def known_counters(a):
    return sorted(C.get_valid_counters())
