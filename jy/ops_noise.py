'''Operations on the allocation of noise to counters'''
import copy
import os
import re
import StringIO
import sys
import yaml
import world
from privcount import statistics_noise as S
from privcount import tally_server as T
from privcount import counter as C
from ops_match import attempt, put, to_yaml, base_config, SCRATCH
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def search(a):
    '''binary search of a step function, and of one with a step at infinity'''
    out = []
    for lo, hi, step, tol, want in a:
        calls = []

        def fn(x):
            calls.append(x)
            return x >= step
        out.append(attempt(S.interval_boolean_binary_search, fn, lo, hi, tol, return_true=want))
    return out


@op
def parts(a):
    out = []
    for s, eps, delta, std in a:
        out.append([S.satisfies_dp(s, eps, delta, std), attempt(S.get_differentially_private_std, s, eps, delta),
                    attempt(S.get_differentially_private_epsilon, s, std, delta)])
    return out


def privacy(a):
    p = dict(epsilon=a['epsilon'], delta=a['delta'], excess_noise_ratio=a['excess'])
    p.update(a.get('tol', {}))
    return p


@op
def allocate(a):
    n = dict(privacy=privacy(a), counters=copy.deepcopy(a['counters']))
    r = attempt(S.get_noise_allocation, n, circuit_sample_rate=a['rate'])
    if r[0] == 'exc':
        return r
    return ['ok', r[1]['privacy'], r[1]['counters']]


@op
def stats(a):
    '''the other entry points'''
    sp = dict((k, (v['sensitivity'], v['estimated_value'])) for k, v in a['counters'].items())
    r1 = attempt(S.get_opt_privacy_allocation, a['epsilon'], a['delta'], sp, a['excess'])
    r2 = attempt(S.get_noise_allocation_stats, a['epsilon'], a['delta'], sp, a['excess'])
    return [[r1[0], list(r1[1]) if r1[0] == 'ok' else r1[1]], r2]


@op
def configure(a):
    '''the tally server loads a noise file, then the allocation it wrote, then
    one file with everything'''
    out = []
    counters = dict((k, dict(bins=[[float('-inf'), float('inf')]] if k.endswith("Count") else [[0, 1], [1, 2]]))
                    for k in a['counters'] if k != 'ZeroCount')
    put('bins.yaml', to_yaml(dict(counters=counters)))
    put('noise0.yaml', to_yaml(dict(privacy=privacy(a), counters=a['counters'])))
    every = dict((k, dict(counters.get(k, {}), **a['counters'][k])) for k in a['counters'])
    for i in range(3):
        alloc = os.path.join(SCRATCH, 'noise%d.yaml' % (i + 1))
        if os.path.exists(alloc):
            os.unlink(alloc)
        kw = dict(counters=os.path.join(SCRATCH, 'bins.yaml'), noise=os.path.join(SCRATCH, 'noise%d.yaml' % i),
                  allocation=alloc, circuit_sample_rate=a['rate'])
        if i == 1:
            counters.pop(a['reject'], None)
            put('bins.yaml', to_yaml(dict(counters=counters)))
        if a['reject']:
            kw['counter_name_reject'] = '^' + a['reject'] + '$'
        text = base_config(counters, **kw)
        if i == 2:
            kw['_drop'] = ['noise', 'counters']
            text = base_config(every, _top=dict(privacy=privacy(a)), **kw)
        put('config.yaml', text)
        ts = T.TallyServer(os.path.join(SCRATCH, 'config.yaml'))
        r = attempt(ts.refresh_config)
        if r[0] == 'exc' or ts.config is None:
            out.append(['refused', r[1]] + [None, None])
            break
        out.append(['ok', ts.config['noise']['counters'], yaml.load(open(alloc)), sorted(ts.config['counters'])])
    return out


def printed(f, *a):
    """what is printed, and how the call ended"""
    old, sys.stdout = sys.stdout, StringIO.StringIO()
    try:
        r = attempt(f, *a)
        return r, sys.stdout.getvalue()
    finally:
        sys.stdout = old


@op
def report(a):
    """what the functions for operators print and compare"""
    sp = dict((k, (v['sensitivity'], v['estimated_value'])) for k, v in a['counters'].items())
    eps, sigmas, ratio = S.get_opt_privacy_allocation(a['epsilon'], a['delta'], sp, a['excess'])
    r, text = printed(S.print_privacy_allocation, sp, dict(sigmas), dict(eps), a['excess'])
    c = attempt(S.compare_noise_allocation, a['epsilon'], a['delta'], sp, a['excess'])
    return dict(print_=r[0], text=text, compare=c[0], eps=eps, sigmas=sigmas, ratio=ratio)


@op
def script(a):
    """a script for operators, with other tables of counters"""
    path = os.path.join(os.path.dirname(os.path.abspath(S.__file__)), 'tools', a['script'])
    with open(path) as f:
        src = f.read()
    i = re.search(r'(?m)^if __name__\b', src).start()
    ns = {'__name__': '__main__', '__file__': path}
    exec compile(src[:i], path, 'exec') in ns
    tables = dict((k, t) for k, t in ns.items() if k.endswith('parameters') and isinstance(t, dict))
    given = dict((k, dict(t)) for k, t in tables.items())
    for t in tables.values():
        names = sorted(t)
        for j, n in enumerate(names):
            d = a['change'][j % len(a['change'])]
            if d is None and len(t) > 1:
                del t[n]
            elif d is not None:
                t[n] = (t[n][0] * d[0], t[n][1] * d[1])

    def go():
        exec compile('\n' * src[:i].count('\n') + src[i:], path, 'exec') in ns
    r, text = printed(go)
    docs = [yaml.load(x) for x in re.findall(r'(?m)^counters:\n(?:  .*\n)+privacy:\n(?:  .*\n)+', text)]
    return dict(how=r[0], what=r[1], text=text, docs=docs, tables=tables, given=given, machines=ns['num_relay_machines'])
