'''Operations on the tally server: a history of messages, ticks and configurations'''
import base64
import json
import os
import world
from ops_match import base_config, to_yaml
from ops_handshake import End, NAMES, ROLES, mac, cookie_of
from privcount import tally_server as T
from privcount import protocol as P
from twisted.python.failure import Failure
from twisted.internet.error import ConnectionDone
OPS = {}
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
KEYS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys')
SECRET = 'S3cr' * 8


def op(f):
    OPS[f.__name__] = f
    return f


def put(name, content):
    path = os.path.join(SCRATCH, name)
    with open(path, 'wb') as f:
        f.write(content)
    return path


class Conn(object):
    '''a client's end of one connection'''
    def __init__(self, ts):
        self.p = ts.buildProtocol(None)
        self.t = world.Transport()
        self.up = True
        self.p.makeConnection(self.t)
        hello = self.t.lines()
        sc = cookie_of(hello, NAMES[1])
        cc = 'c' * len(sc)
        parts = hello[0].split()
        prefix = '%s %s %s %s' % (NAMES[2], parts[1], ROLES[2], parts[3])
        proof = mac(SECRET, prefix, sc, cc)
        self.feed('%s %s %s' % (prefix, base64.b64encode(cc), base64.b64encode(proof)))
        self.t.lines()
        self.feed('%s %s %s %s SUCCESS' % (NAMES[4], parts[1], ROLES[4], parts[3]))
    def feed(self, line):
        if self.up and not self.t.closed:
            self.p.dataReceived(line + '\r\n')
    def drain(self):
        return self.t.lines()
    def lose(self):
        if self.up:
            self.up = False
            self.t.closed = True
            self.p.connectionLost(Failure(ConnectionDone()))


def files():
    out = {}
    for f in sorted(os.listdir(os.path.join(SCRATCH, 'results'))):
        path = os.path.join(SCRATCH, 'results', f)
        with open(path) as g:
            out[f] = g.read()
        os.remove(path)
    return out


def write_config(c):
    kw = dict(c['ts'])
    for k in c.get('lists', {}):
        kw[k + '_files'] = [put('%s%d' % (k, i), '\n'.join(l) + '\n') for i, l in enumerate(c['lists'][k])]
        if k == 'as':
            kw['as_prefix_files'] = {4: put('map4', c['maps'][0]), 6: put('map6', c['maps'][1])}
    put('secret', base64.b64encode(SECRET))
    kw['results'] = os.path.join(SCRATCH, 'results')
    sig = dict((n, {'sigma': c['sigmas'][n]}) for n in c['sigmas'])
    kw['sigmas'] = put('sigmas', to_yaml({'counters': sig}))
    kw['_drop'] = c.get('drop', [])
    counters = c['counters']
    if c.get('place') == 'files':
        kw['counters'] = put('bins', to_yaml({'counters': counters}))
        counters = {}
    elif c.get('place') == 'one file':
        kw['_drop'] = kw['_drop'] + ['sigmas']
        counters = dict((k, dict(counters.get(k, {}), **sig.get(k, {}))) for k in set(counters) | set(sig))
    text = base_config(counters, **kw).replace('"4": ', '4: ').replace('"6": ', '6: ')
    return put('ts.yaml', text)


@op
def server(a):
    '''the tally server from its start to the end of a history'''
    if not os.path.isdir(os.path.join(SCRATCH, 'results')):
        os.mkdir(os.path.join(SCRATCH, 'results'))
    files()
    ts = T.TallyServer(write_config(a['config']))
    ts.run()
    log = list(world.REACTOR.log)
    conns = {}
    out = [dict(listen=[l[0] for l in log], calls=len(world.REACTOR.getDelayedCalls()))]
    for s in a['steps']:
        o = {}
        kind, who = s[0], s[1]
        try:
            if kind == 'tick':
                world.REACTOR.advance(s[1])
            elif kind == 'config':
                write_config(s[1])
            elif kind == 'open':
                if who in conns:
                    conns[who].lose()
                conns[who] = Conn(ts)
            elif kind == 'close':
                if who in conns:
                    conns.pop(who).lose()
            elif kind == 'send':
                if who in conns:
                    for line in s[2]:
                        conns[who].feed(line)
            if kind in ('open', 'send') and who in conns:
                o['lines'] = conns[who].drain()
                o['closed'] = bool(conns[who].t.closed)
            if kind == 'tick':
                f = files()
                if f:
                    o['files'] = f
            others = [c for c in conns if c != who and conns[c].drain()]
            if others:
                o['others'] = sorted(others)
        except (Exception, world.NodeExit) as e:
            import traceback
            o['exc'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
        o['stopped'] = world.REACTOR.stopped + len(world.EXITS)
        out.append(o)
        if o['stopped'] or 'exc' in o:
            break
    return dict(out=out, secret=base64.b64encode(SECRET), scratch=SCRATCH,
                key=[l for l in open(os.path.join(KEYS, 'k0.pem')).read().split('\n') if len(l) > 40])
