'''Operations on traffic models'''
import copy
import json
import os
import world
from privcount import counter as C
from privcount import traffic_model as TM
from privcount import tally_server as T
from ops_match import attempt, put, to_yaml, base_config, SCRATCH
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def load(x):
    '''as json.load gives it, with text keys'''
    return json.loads(json.dumps(x))


@op
def check(a):
    return [attempt(TM.check_traffic_model_config, load(m)) for m in a]


@op
def normalise(a):
    return attempt(TM.normalize_traffic_model_config, load(a))


@op
def noise(a):
    m = TM.TrafficModel(load(a['model']))
    labels = m.get_all_counter_labels()
    out = dict(labels=sorted(labels), all=attempt(m.get_bins_init_config, None), noise=[])
    for n in a['noise']:
        ok = attempt(m.check_noise_config, n)
        out['noise'].append([ok, attempt(m.get_noise_init_config, n),
                             attempt(m.get_bins_init_config, n) if ok == ['ok', True] else None])
    return out


@op
def configure(a):
    put('model.json', json.dumps(a['model']))
    kw = dict(traffic_model=os.path.join(SCRATCH, 'model.json'))
    if a['noise'] is not None:
        put('tnoise.yaml', to_yaml(a['noise']))
        kw['traffic_noise'] = os.path.join(SCRATCH, 'tnoise.yaml')
    put('config.yaml', base_config(a['counters'], **kw))
    ts = T.TallyServer(os.path.join(SCRATCH, 'config.yaml'))
    r = attempt(ts.refresh_config)
    c = ts.config
    if c is None:
        return [r, None]
    return [r, dict(counters=c['counters'], noise=c['noise']['counters'], model=c['traffic_model'],
                    events=dict((k, sorted(C.get_events_for_counter(k))) for k in c['counters']))]


@op
def update(a):
    conf = load(a['model'])
    out = []
    for r in a['rounds']:
        m = TM.TrafficModel(conf)
        conf = json.loads(json.dumps(m.update_from_tallies(dict(r['tallies']), *r['inertia'])))
        out.append([load(conf), TM.check_traffic_model_config(conf)])
    return out
