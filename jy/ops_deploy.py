'''A whole deployment in one process: a tally server, share keepers, data
collectors and their relays, on a simulated network with faults'''
import base64
import json
import os
import random
import traceback
import world
from ops_match import base_config, to_yaml
from ops_crypto import priv
from ops_node import digest, KEYS
from privcount import crypto as K
from privcount import data_collector as D
from privcount import share_keeper as S
from privcount import tally_server as T
from twisted.internet import error as tw
from twisted.internet.address import IPv4Address
from twisted.python.failure import Failure
import copy
import yaml
OPS = {}
_load = yaml.load
_parsed = {}


def load_cached(f, *a, **k):
    '''parsing is slow, and the nodes read the same files in each loop'''
    text = f.read() if hasattr(f, 'read') else f
    if text not in _parsed:
        if len(_parsed) > 50:
            _parsed.clear()
        _parsed[text] = _load(text, *a, **k)
    return copy.deepcopy(_parsed[text])

SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
SECRET = 'S3cr' * 8
R = world.REACTOR
TS_PORT = 20001
BIG = 2 ** 31


def put(name, content):
    path = os.path.join(SCRATCH, name)
    with open(path, 'wb') as f:
        f.write(content)
    return path


def node_of(owner):
    return owner.split('#')[0] if owner else owner


class End(world.Transport):
    '''one end of a link'''
    def __init__(self, net, owner, name):
        world.Transport.__init__(self, IPv4Address('TCP', '10.0.0.1', 1), IPv4Address('TCP', '10.0.0.2', 2))
        self.net, self.owner, self.name = net, owner, name
        self.gone = False
        self.peer_end = self.proto = self.connector = None
        self.arrival = 0.0
    def write(self, data, tag=None):
        assert isinstance(data, str), 'write of %s' % type(data)
        if self.closed or self.gone:
            return
        self.net.sent(self, data)
        parts = [data]
        if tag is None and len(data) > 3 and self.net.rnd.random() < 0.2:
            i = self.net.rnd.randrange(1, len(data))
            parts = [data[:i], data[i:]]
        for p in parts:
            self._later(self.peer_end.receive, p, tag)
    def _later(self, f, *a):
        '''in order: nothing overtakes what was sent before it'''
        self.arrival = max(self.arrival, world.CLOCK.now + self.net.latency(self))
        self.net.call(self.peer_end.owner, self.arrival - world.CLOCK.now, f, *a)
    def receive(self, data, tag):
        if self.closed or self.gone:
            return
        if tag is not None:
            self.net.delivered(self.owner, tag)
        try:
            self.net.received(self, data)
            self.proto.dataReceived(data)
        except Exception as e:
            # twisted drops the connection when the protocol raises
            self.net.exception(self.owner, e)
            self._later(self.peer_end.lost, tw.ConnectionDone())
            self.lost(tw.ConnectionLost())
    def loseConnection(self, *a):
        if not (self.closed or self.gone):
            self.closed = self.disconnecting = True
            self._later(self.peer_end.lost, tw.ConnectionDone())
            self.net.call(self.owner, 0, self.lost, tw.ConnectionDone())
    abortConnection = loseConnection
    def lost(self, why):
        if self.gone:
            return
        self.gone = self.closed = True
        self.connected = False
        self.net.ends.discard(self)
        try:
            self.proto.connectionLost(Failure(why))
        except Exception as e:
            self.net.exception(self.owner, e)
        if self.connector is not None:
            self.connector.lost(why)
        if not self.peer_end.gone:
            self._later(self.peer_end.lost, tw.ConnectionDone())


class Connector(object):
    '''like twisted.internet.base.BaseConnector'''
    def __init__(self, net, kind, host, port, factory):
        self.net, self.kind, self.host, self.port, self.factory = net, kind, host, port, factory
        self.owner = world.WORLD.current
        self.state = 'disconnected'
        self.started = False
        self.end = self.attempt = None
        self.connect()
    def connect(self):
        assert self.state == 'disconnected', 'connect while %s' % self.state
        self.state = 'connecting'
        if not self.started:
            self.factory.doStart()
            self.started = True
        self.factory.startedConnecting(self)
        if self.state == 'connecting':
            self.attempt = self.net.call(self.owner, self.net.latency(None), self._done)
    def _done(self):
        self.attempt = None
        target = self.net.accept(self)
        if target is None:
            return self.failed(tw.ConnectionRefusedError())
        self.net.link(self, target)
    def failed(self, why):
        self.state = 'disconnected'
        self.factory.clientConnectionFailed(self, Failure(why))
        self._finish()
    def lost(self, why):
        self.state = 'disconnected'
        try:
            self.factory.clientConnectionLost(self, Failure(why))
        except Exception as e:
            self.net.exception(self.owner, e)
        self._finish()
    def _finish(self):
        if self.state == 'disconnected' and self.started:
            self.started = False
            self.factory.doStop()
    def stopConnecting(self):
        if self.state != 'connecting':
            raise tw.NotConnectingError("we're not trying to connect")
        if self.attempt is not None:
            self.attempt.cancel()
            self.attempt = None
        self.failed(tw.UserError())
    def disconnect(self):
        if self.state == 'connecting':
            self.stopConnecting()
        elif self.state == 'connected':
            self.end.loseConnection()
    def getDestination(self):
        return IPv4Address('TCP', self.host, self.port)


class Listener(object):
    def __init__(self, net, port, factory):
        self.net, self.port, self.factory = net, port, factory
        self.owner = world.WORLD.current
    def stopListening(self):
        if self.net.listeners.get(self.port) is self:
            del self.net.listeners[self.port]
            self.factory.doStop()


class RelayProtocol(object):
    '''a Tor relay's control port without authentication'''
    def __init__(self, relay):
        self.relay = relay
        self.buf = ''
        self.events = []
    def makeConnection(self, transport):
        self.transport = transport
        self.relay.conns.append(self)
    def connectionLost(self, why):
        if self in self.relay.conns:
            self.relay.conns.remove(self)
    def dataReceived(self, data):
        self.buf += data
        while '\r\n' in self.buf:
            line, _, self.buf = self.buf.partition('\r\n')
            for l in self.answer(line):
                self.transport.write(l + '\r\n')
    def answer(self, line):
        word, _, rest = line.partition(' ')
        fp = self.relay.fingerprint
        if word == 'PROTOCOLINFO':
            return ['250-PROTOCOLINFO 1', '250-AUTH METHODS=NULL', '250-VERSION Tor="0.3.0"', '250 OK']
        if word == 'GETCONF':
            known = {'Nickname': 'relay%d' % self.relay.n, 'ORPort': '9001', 'EnablePrivCount': '1'}
            return ['250 ' + rest + ('=' + known[rest] if rest in known else '')]
        if word == 'GETINFO' and rest.startswith('ns/id/'):
            return ['250+%s=' % rest, 'r relay x', 's Exit Fast Guard Running V2Dir Valid', '.', '250 OK']
        if word == 'GETINFO':
            known = {'version': '0.3.0', 'address': '127.0.0.%d' % (self.relay.n + 1), 'privcount-version': '1.0',
                     'fingerprint': fp}
            return ['250-%s=%s' % (rest, known[rest]), '250 OK']
        if word == 'SETEVENTS':
            self.events = rest.split()
        if word == 'QUIT':
            self.transport.loseConnection()
            return []
        return ['250 OK']


class Relay(object):
    def __init__(self, n):
        self.n = n
        self.fingerprint = '%040X' % (n + 1)
        self.conns = []
    def buildProtocol(self, addr):
        return RelayProtocol(self)
    def emit(self, tag, items):
        for c in list(self.conns):
            if items[0] in c.events:
                c.transport.write('650 ' + ' '.join(items) + '\r\n', tag)


class Net(object):
    def __init__(self, a):
        self.a = a
        self.rnd = random.Random(a['seed'])
        self.lag = a['lag']
        self.ends = set()
        self.listeners = {}
        self.blocked = set()
        self.journal = []
        self.got = {}
        self.defer = {}
        self.secrets = set()
        self.keys = [priv(k) for k in range(a['sks'])]
    def note(self, *what):
        self.journal.append([world.CLOCK.now - world.START] + list(what))
    def call(self, owner, delay, f, *a):
        saved, world.WORLD.current = world.WORLD.current, owner
        try:
            return R.callLater(max(0.0, delay), f, *a)
        finally:
            world.WORLD.current = saved
    def latency(self, end):
        base, spread = self.lag
        if end is not None and 'relay' in end.name:
            base, spread = 0.001, 0.01
        return base + spread * self.rnd.random()
    def connect(self, kind, host, port, factory):
        return Connector(self, kind, host, port, factory)
    def listen(self, kind, host, port, factory):
        l = Listener(self, port, factory)
        self.listeners[port] = l
        factory.doStart()
        return l
    def accept(self, c):
        l = self.listeners.get(c.port)
        if l is None or l.owner in world.WORLD.dead:
            return None
        if (node_of(c.owner), c.port) in self.blocked:
            return None
        return l
    def link(self, c, l):
        name = '%s>%s' % (node_of(c.owner), node_of(l.owner))
        ours, theirs = End(self, c.owner, name), End(self, l.owner, name)
        ours.peer_end, theirs.peer_end = theirs, ours
        ours.connector, c.end = c, ours
        theirs.proto = l.factory.buildProtocol(None)
        c.state = 'connected'
        ours.proto = c.factory.buildProtocol(None)
        self.ends.update([ours, theirs])
        self.call(l.owner, 0, theirs.proto.makeConnection, theirs)
        ours.proto.makeConnection(ours)
    def node_died(self, owner):
        self.note('died', owner)
        for p in list(self.listeners):
            if self.listeners[p].owner == owner:
                del self.listeners[p]
        for e in list(self.ends):
            if e.owner == owner and not e.gone:
                e.gone = e.closed = True
                self.ends.discard(e)
                e._later(e.peer_end.lost, tw.ConnectionLost())
    def exception(self, owner, e):
        self.note('exception', owner, '%s: %s' % (type(e).__name__, e), traceback.format_exc()[-1800:])
    def delivered(self, owner, tag):
        self.got.setdefault(owner, []).append(tag)

    # what is said on the links of the tally server
    def sent(self, end, data):
        owner = end.owner
        if not owner.startswith(('dc', 'sk')) or 'relay' in end.name:
            return
        if data.startswith(('START SUCCESS', 'START FAIL')):
            self.note('started' if data[6] == 'S' else 'refused', owner, self.defer.get(owner, 0))
            self.got[owner] = []
            if owner.startswith('dc') and data[6] == 'S':
                self.learn(json.loads(data[14:]))
        elif data.startswith('STOP SUCCESS'):
            r = json.loads(data[13:])
            if 'Counts' in r:
                self.note('report', owner, self.got.pop(owner, []))
                if owner.startswith('dc'):
                    self.learn_counts(r['Counts'])
            else:
                self.note('empty report', owner)
    def learn(self, shares):
        '''what no one but the share keepers may ever read'''
        for s in shares.values():
            for v in s['secret'].values():
                self.secrets.update(v[i:i + 60] for i in range(0, len(v) - 60, 2000))
            for k in self.keys:
                try:
                    m = K.decrypt(k, s['secret'])
                except Exception:
                    continue
                self.learn_counts(m)
                break
    def learn_counts(self, counters):
        for n in counters:
            for b in counters[n]['bins']:
                if b[2] > BIG:
                    self.secrets.add(str(b[2]))
    def received(self, end, data):
        '''by the tally server and its clients'''
        if end.name.endswith('>ts'):
            end.heard = getattr(end, 'heard', '') + data
            while '\r\n' in end.heard:
                line, _, end.heard = end.heard.partition('\r\n')
                who = end.peer_end.owner
                if node_of(end.owner) != 'ts':
                    if line.startswith('START {'):
                        self.defer[end.owner] = json.loads(line[6:]).get('defer_time', 0)
                elif line.startswith('START SUCCESS'):
                    self.note('ts started', who)
                elif line.startswith('START'):
                    self.note('ts refused', who)
                elif line.startswith('STOP'):
                    self.note('ts report', who, line.startswith('STOP SUCCESS') and 'Counts' in json.loads(line[13:]))


class Deployment(object):
    def __init__(self, a):
        self.a = a
        self.net = R.net = Net(a)
        self.serial = {}
        self.live = {}
        put('secret', base64.b64encode(SECRET))
        self.secret = os.path.join(SCRATCH, 'secret')
        self.results = os.path.join(SCRATCH, 'deploy-results')
        if not os.path.isdir(self.results):
            os.mkdir(self.results)
        self.files()
        self.relays = []
        for i in range(a['dcs']):
            r = Relay(i)
            self.relays.append(r)
            self.relay_up(i)
    def relay_up(self, i):
        saved, world.WORLD.current = world.WORLD.current, 'relay%d' % i
        self.net.listen('tcp', '', 20100 + i, Boring(self.relays[i]))
        world.WORLD.current = saved
    def files(self):
        out = {}
        for f in sorted(os.listdir(self.results)):
            path = os.path.join(self.results, f)
            out[f] = open(path).read()
            os.remove(path)
        return out
    def start(self, name):
        a = self.a
        if name in self.live and self.live[name] not in world.WORLD.dead:
            return
        self.serial[name] = self.serial.get(name, 0) + 1
        owner = '%s#%d' % (name, self.serial[name])
        self.live[name] = owner
        self.net.note('up', owner)
        tsi = {'ip': '127.0.0.1', 'port': TS_PORT}
        if name == 'ts':
            sig = put('sigmas', to_yaml({'counters': dict((n, {'sigma': 0.0}) for n in a['counters'])}))
            node = T.TallyServer(put('ts.yaml', base_config(a['counters'], **dict(
                a['ts'], results=self.results, sigmas=sig, secret_handshake=self.secret))))
        elif name.startswith('sk'):
            k = int(name[2:])
            node = S.ShareKeeper(put(name + '.yaml', to_yaml({'share_keeper': dict(
                a['client'], key=os.path.join(KEYS, 'k%d.pem' % k), tally_server_info=tsi, secret_handshake=self.secret)})))
        else:
            i = int(name[2:])
            node = D.DataCollector(put(name + '.yaml', to_yaml({'data_collector': dict(
                a['client'], name=name, tally_server_info=tsi, event_source={'ip': '127.0.0.1', 'port': 20100 + i},
                share_keepers=[digest(k) for k in range(a['sks'])], rotate_period=10 ** 6,
                secret_handshake=self.secret)})))
        self.step(owner, node.run)
    def crash(self, name):
        R.kill(self.live.get(name))
    def drop(self, name):
        '''the links of this node to the tally server break'''
        for e in list(self.net.ends):
            if not e.gone and e.name == name + '>ts':
                self.net.call(e.owner, 0, e.lost, tw.ConnectionLost())
    def relay_drop(self, i):
        for e in list(self.net.ends):
            if not e.gone and e.name == 'dc%d>relay%d' % (i, i):
                self.net.call(e.owner, 0, e.lost, tw.ConnectionLost())
    def step(self, owner, f, *a):
        try:
            R.guard(owner, f, *a)
        except Exception as e:
            self.net.exception(owner, e)
    def until(self, when):
        '''run all that falls due; look at the results after each step'''
        n = 0
        while True:
            t = R.next_time()
            if t is None or t > when:
                break
            n += 1
            assert n < 400000, 'no end'
            try:
                R.run_one()
            except Exception as e:
                self.net.exception(None, e)
            if os.listdir(self.results):
                self.publish(self.files())
        world.CLOCK.now = max(world.CLOCK.now, when)
    def publish(self, files):
        lines = open(os.path.join(KEYS, 'k0.pem')).read().split('\n')
        for k in range(self.a['sks']):
            lines += open(os.path.join(KEYS, 'k%d.pem' % k)).read().split('\n')
        hidden = [l for l in lines if len(l) > 40] + [SECRET, base64.b64encode(SECRET), SCRATCH]
        tally = outcome = None
        leaks = []
        for f in files:
            leaks += [[f, s] for s in list(self.net.secrets) + hidden if s in files[f]]
            if 'tallies' in f:
                tally = json.loads(files[f])
            else:
                outcome = json.loads(files[f])
        for x in (tally, (outcome or {}).get('Tally')):
            # published counts are public whatever they look like
            for n in x or {}:
                for b in x[n]['bins']:
                    leaks = [l for l in leaks if l[1] != str(b[2])]
        bins = lambda x: None if x is None else dict((n, x[n]['bins']) for n in x)
        self.net.note('published', bins(tally), bins((outcome or {}).get('Tally')), leaks[:5], sorted(files))


class Boring(object):
    '''a relay as a factory'''
    def __init__(self, relay):
        self.buildProtocol = relay.buildProtocol
    def doStart(self):
        pass
    doStop = doStart


def deployment(a):
    yaml.load = load_cached
    try:
        return simulate(a)
    finally:
        yaml.load = _load


def simulate(a):
    d = Deployment(a)
    todo = []
    for t, name in a['up']:
        todo.append((t, 0, d.start, name))
    for i, (t, relay, items) in enumerate(a['events']):
        todo.append((t, 1, lambda r=d.relays[relay], i=i, items=items: r.emit(i, items)))
    blocked = d.net.blocked
    for f in a['faults']:
        t, kind, who = f[0], f[1], f[2]
        if kind == 'crash':
            todo.append((t, 2, d.crash, who))
            todo.append((t + f[3], 2, d.start, who))
        elif kind == 'drop':
            todo.append((t, 2, d.drop, who))
        elif kind == 'block':
            key = (who, TS_PORT)
            todo.append((t, 2, blocked.add, key))
            todo.append((t, 2, d.drop, who))
            todo.append((t + f[3], 2, blocked.discard, key))
        elif kind == 'relay':
            key = (who, 20100 + int(who[2:]))
            todo.append((t, 2, blocked.add, key))
            todo.append((t, 2, d.relay_drop, int(who[2:])))
            todo.append((t + f[3], 2, blocked.discard, key))
    for i, x in enumerate(sorted(todo, key=lambda x: (x[0], x[1]))):
        d.until(world.START + x[0])
        if x[1] == 1:
            d.step(None, x[2])
        else:
            x[2](*x[3:])
    # then nothing fails any more
    d.net.note('calm')
    tallies = lambda: len([j for j in d.net.journal if j[1] == 'published' and j[2] is not None])
    before = tallies()
    end = world.CLOCK.now + a['patience']
    while world.CLOCK.now < end and tallies() < before + a['after']:
        d.until(world.CLOCK.now + 30)
        if world.CLOCK.now > 2e9:
            break
    return dict(journal=d.net.journal, exits=len(world.EXITS))

OPS['deployment'] = deployment
