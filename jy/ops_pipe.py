'''Rounds of a tally server with real clients, from the operator's files to the
published tally; messages pass without a network'''
import base64
import copy
import json
import os
import yaml
import world
from ops_deploy import load_cached, _load, RelayProtocol, Relay
from ops_match import to_yaml
from ops_node import digest, KEYS
from ops_server import Conn, write_config, files, put, SCRATCH
from privcount import counter as C
from privcount import data_collector as D
from privcount import share_keeper as S
from privcount import tally_server as T
OPS = {}
EV = C.PRIVCOUNT_COUNTER_EVENTS


LINK = os.path.join(os.getcwd(), 'traffic.model.latest.json')


class Process(object):
    '''a node with its own table of counters'''
    def __init__(self, base):
        self.table = dict(base)
    def __enter__(self):
        EV.clear()
        EV.update(self.table)
    def __exit__(self, *a):
        self.table = dict(EV)


class Client(object):
    def __init__(self, ts, name, node, base):
        self.ts, self.name, self.node, self.proc = ts, name, node, Process(base)
        self.conn = None
        self.relay = self.prot = None
        self.said = []
        self.ended = None
        self.starts = []
    def send(self, line):
        with self.ts.proc:
            self.conn.feed(line)
        return self.conn.drain()
    def checkin(self):
        if self.conn is None:
            with self.ts.proc:
                self.conn = Conn(self.ts)
            self.conn.drain()
        with self.proc:
            s = self.node.get_status()
        s.setdefault('name', self.name)
        out = []
        for line in self.send('STATUS %f %s' % (world.CLOCK.now, json.dumps(s))):
            word, _, rest = line.partition(' ')
            if word not in ('START', 'STOP'):
                continue
            c = json.loads(rest)
            with self.proc:
                r = self.node.do_start(c) if word == 'START' else self.node.do_stop(c)
            out.append([word, r is not None])
            if word == 'START' and r is not None:
                self.starts.append(c)
            if word == 'STOP' and self.prot is not None:
                self.ended = self.t.lines()
                self.prot = None
            self.send(word + (' FAIL' if r is None else ' SUCCESS ' + json.dumps(r)))
        return out
    # the relay of a data collector
    def dial(self, n):
        self.relay = Relay(n)
        self.stub = RelayProtocol(self.relay)
        self.stub.transport = world.Transport()
        with self.proc:
            self.prot = self.node.aggregator.buildProtocol(None)
            self.t = world.Transport()
            self.prot.makeConnection(self.t)
        self.pump()
    def pump(self):
        while True:
            lines = self.t.lines()
            if not lines:
                break
            for l in lines:
                self.said.append(l)
                for a in self.stub.answer(l):
                    with self.proc:
                        self.prot.dataReceived(a + '\r\n')
    def emit(self, items):
        if items[0] in self.stub.events:
            with self.proc:
                self.prot.dataReceived('650 ' + ' '.join(items) + '\r\n')


def configure(c):
    c = copy.deepcopy(c)
    if c.get('model'):
        c['ts']['traffic_model'] = put('model.json', json.dumps(c['model']))
        c['ts']['traffic_noise'] = put('tnoise.yaml', to_yaml(c['model_noise']))
    return write_config(c)


def pipeline(a):
    res = os.path.join(SCRATCH, 'results')
    if os.path.lexists(LINK):
        os.remove(LINK)
    if not os.path.isdir(res):
        os.mkdir(res)
    files()
    base = dict(EV)
    yaml.load = load_cached
    try:
        return rounds(a, base)
    finally:
        yaml.load = _load
        EV.clear()
        EV.update(base)


def rounds(a, base):
    log = world.REACTOR.log
    proc = Process(base)
    with proc:
        ts = T.TallyServer(configure(a['configs'][0]))
        ts.proc = proc
        ts.run()
    secret = os.path.join(SCRATCH, 'secret')
    tsi = {'ip': '127.0.0.1', 'port': 20001}
    clients = []
    for i in range(a['sks']):
        n = S.ShareKeeper(put('sk%d.yaml' % i, to_yaml({'share_keeper': dict(
            key=os.path.join(KEYS, 'k%d.pem' % i), tally_server_info=tsi, secret_handshake=secret, delay_period=0)})))
        clients.append(Client(ts, None, n, base))
    dcs = []
    for i, setconf in enumerate(a['setconf']):
        n = D.DataCollector(put('dc%d.yaml' % i, to_yaml({'data_collector': dict(
            name='dc%d' % i, tally_server_info=tsi, secret_handshake=secret, delay_period=0, rotate_period=10 ** 6,
            event_source={'ip': '127.0.0.1', 'port': 20100 + i}, share_keepers=[digest(k) for k in range(a['sks'])],
            use_setconf=setconf)})))
        dcs.append(Client(ts, 'dc%d' % i, n, base))
    clients = dcs + clients
    for c in clients:
        with c.proc:
            c.node.refresh_config()
            if isinstance(c.node, S.ShareKeeper):
                c.name = digest(clients.index(c) - len(dcs))
    out = []
    for r in range(len(a['configs'])):
        o = dict(answers=[])
        for tick in range(40):
            for c in clients:
                o['answers'] += [[c.name] + x for x in c.checkin()]
            world_tick(ts, clients, 15)
            for i, c in enumerate(dcs):
                g = c.node.aggregator
                if g is not None and c.prot is None and not c.node.is_aggregator_pending:
                    c.said = []
                    c.dial(i)
            if 'lines' not in o and all(c.prot is not None for c in dcs):
                for i, items in a['events'][r]:
                    dcs[i].emit(items)
                for c in dcs:
                    c.pump()
                o['lines'] = [c.said for c in dcs]
                o['starts'] = [dict((k, v) for k, v in c.starts[-1].items() if k in ('traffic_model',)) for c in dcs]
                if r + 1 < len(a['configs']):
                    configure(a['configs'][r + 1])
            f = files()
            if f:
                o['files'] = f
                if os.path.lexists(LINK):
                    o['link'] = os.readlink(LINK)
                for k in f:
                    if 'tallies' in k:
                        t = json.loads(f[k])
                        o['tally'] = dict((n, t[n]['bins']) for n in t)
                break
        o['ended'] = [c.ended for c in dcs]
        out.append(o)
        if 'tally' not in o:
            break
    return out


def world_tick(ts, clients, dt):
    # the delayed calls belong to the tally server, or start an aggregator
    with ts.proc:
        world.REACTOR.advance(dt)

OPS['pipeline'] = pipeline
