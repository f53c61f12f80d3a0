'''Nodes whose configuration files are edited while they run'''
import copy
import json
import os
import yaml
import world
from ops_deploy import load_cached, _load
from ops_match import attempt, to_yaml
from ops_node import digest, KEYS
from ops_pipe import configure
from ops_server import put, SCRATCH
from privcount import counter as C
from privcount import data_collector as D
from privcount import share_keeper as S
from privcount import tally_server as T
OPS = {}
EV = C.PRIVCOUNT_COUNTER_EVENTS
CLASSES = {'tally_server': T.TallyServer, 'data_collector': D.DataCollector, 'share_keeper': S.ShareKeeper}


def write(kind, c):
    if kind == 'tally_server':
        return configure(c)
    c = dict(c)
    here, top = c.pop('_secret', ['@/secret', None])
    if here:
        c['secret_handshake'] = here.replace('@', SCRATCH)
    if isinstance(c.get('key'), int):
        c['key'] = os.path.join(KEYS, 'k%d.pem' % c['key'])
    if isinstance(c.get('share_keepers'), list):
        c['share_keepers'] = [digest(k) for k in c['share_keepers']]
    d = {kind: c}
    if top:
        d['secret_handshake'] = top.replace('@', SCRATCH)
    return put('node.yaml', to_yaml(d))


def damage(path, d):
    '''the file as an editor or a full disk can leave it'''
    what, name, x = d
    if name:
        path = os.path.join(SCRATCH, name)
    if not os.path.isfile(path):
        return
    if what == 'cut':
        text = open(path).read()
        with open(path, 'w') as f:
            f.write(text[:int(len(text) * x)])
    elif what == 'text':
        with open(path, 'wb') as f:
            f.write(x)
    else:
        os.remove(path)
        if what == 'directory':
            os.mkdir(path)
            return path


def same(a, b):
    '''the keys whose values differ'''
    if a is None or b is None:
        return [] if a is b else ['(all)']
    return sorted(str(k) for k in set(a) | set(b) if k not in a or k not in b or a[k] != b[k])


def summary(kind, c, keys):
    return None if c is None else dict((k, c[k]) for k in keys if k in c)


def reload_node(a):
    kind = a['kind']
    base = dict(EV)
    yaml.load = load_cached
    put('secret', 'c2VjcmV0')
    if not os.path.isdir(os.path.join(SCRATCH, 'results')):
        os.mkdir(os.path.join(SCRATCH, 'results'))
    out = []
    node = None
    try:
        for step in a['steps']:
            path = write(kind, step['conf'])
            made = damage(path, step['damage']) if step.get('damage') else None
            here = dict(EV)
            # a node that starts now
            EV.clear()
            EV.update(base)
            fresh = CLASSES[kind](path)
            world.LOG.reset()
            world.LOG.on = True
            f = attempt(fresh.refresh_config)
            why = [m for _, m in world.LOG.records][-3:]
            world.LOG.reset()
            EV.clear()
            EV.update(here)
            if node is None:
                node = CLASSES[kind](path)
            before = copy.deepcopy(node.config)
            del world.REACTOR.log[:]
            r = attempt(node.do_checkin if kind != 'tally_server' and before is not None else node.refresh_config)
            o = dict(fresh=f, why=why, result=r, valid=fresh.config is not None, differs=same(fresh.config, node.config),
                     moved=same(before, node.config), config=summary(kind, node.config, a['keys']),
                     dial=[list(x[1:3]) for x in world.REACTOR.log if x[0] in ('ssl', 'connectSSL', 'SSL')],
                     log=[str(x[0]) for x in world.REACTOR.log])
            if node.config is not None:
                x = node.get_secret_handshake_path()
                o['secret'] = 'default' if x == os.path.abspath('privcount.secret_handshake.yaml') else x.replace(SCRATCH + os.sep, '@/')
            if kind == 'share_keeper' and node.config is not None:
                o['name'] = node.get_status()['name']
                o['want'] = digest(step['conf']['key']) if isinstance(step['conf'].get('key'), int) else None
            out.append(o)
            if made:
                os.rmdir(made)
    finally:
        yaml.load = _load
        EV.clear()
        EV.update(base)
    return out

OPS['reload_node'] = reload_node
