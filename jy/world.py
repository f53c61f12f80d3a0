'''
The deterministic world the code under test runs in (Jython side): virtual clock,
seeded operating system randomness, in-memory network, recorded process exits.
Must be imported before anything from privcount or twisted.internet.
'''
import hashlib
import heapq
import os
import sys
import time as _time

real_time = _time.time
real_exit = os._exit
START = 1500000000.0


class Clock(object):
    now = START

CLOCK = Clock()


def fake_time():
    return CLOCK.now

# the time module is a Java class in Jython: replace it by a module
import types
_mod = types.ModuleType('time')
for _k in dir(_time):
    if not _k.startswith('_') and _k in ("sleep","strftime","gmtime","localtime","ctime","asctime","mktime","strptime","clock","timezone","altzone","daylight","tzname","struct_time","tzset","accept2dyear"):
        setattr(_mod, _k, getattr(_time, _k))
_mod.time = fake_time
sys.modules['time'] = _mod


class Entropy(object):
    '''os.urandom: a SHA-256 counter stream keyed by a seed; counts its use'''
    def __init__(self):
        self.reset('0')
    def reset(self, seed):
        self.key = hashlib.sha256('verif' + str(seed)).digest()
        self.n = 0
        self.buf = ''
        self.used = 0
        self.script = None       # optional function n -> bytes
    def __call__(self, n):
        self.used += n
        if self.script is not None:
            return self.script(n)
        while len(self.buf) < n:
            self.buf += hashlib.sha256(self.key + str(self.n)).digest()
            self.n += 1
        out, self.buf = self.buf[:n], self.buf[n:]
        return out

ENTROPY = Entropy()
os.urandom = ENTROPY
import random
random._urandom = ENTROPY


class NodeExit(BaseException):
    '''the process of a simulated node ended'''
    def __init__(self, code):
        BaseException.__init__(self, 'exit %r' % (code,))
        self.code = code

EXITS = []


def fake_exit(code):
    EXITS.append(code)
    raise NodeExit(code)

os._exit = fake_exit

# --- twisted -----------------------------------------------------------------
from twisted.internet import error as tw_error
import types


class DelayedCall(object):
    def __init__(self, reactor, when, seq, f, a, kw):
        self.reactor, self.when, self.seq, self.f, self.a, self.kw = reactor, when, seq, f, a, kw
        self.called = self.cancelled = 0
        self.owner = WORLD.current
    def getTime(self):
        return self.when
    def cancel(self):
        if self.cancelled:
            raise tw_error.AlreadyCancelled
        if self.called:
            raise tw_error.AlreadyCalled
        self.cancelled = 1
    def reset(self, secs):
        self._move(CLOCK.now + secs)
    def delay(self, secs):
        self._move(self.when + secs)
    def _move(self, when):
        self.cancelled = 1
        new = self.reactor.callLater(when - CLOCK.now, self.f, *self.a, **self.kw)
        self.cancelled = 0
        self.__dict__.update(new.__dict__)
    def active(self):
        return 0 if self.cancelled or self.called else 1
    def __cmp__(self, other):
        return cmp((self.when, self.seq), (other.when, other.seq))


class World(object):
    current = None          # the node now running (for exits, listening ...)
    strict = True
    def reset(self):
        self.current = None
        self.dead = set()

WORLD = World()
WORLD.reset()


class FakeReactor(object):
    '''Single-threaded reactor on the virtual clock. Connections are made by
    the net object set by a harness; with none, attempts are recorded.'''
    def __init__(self):
        self.reset()
    def reset(self):
        self.calls = []
        self.seq = 0
        self.net = None
        self.log = []
        self.running = True
        self.stopped = 0
    def seconds(self):
        return CLOCK.now
    def callLater(self, delay, f, *a, **kw):
        assert delay >= 0, 'negative delay %r' % (delay,)
        self.seq += 1
        dc = DelayedCall(self, CLOCK.now + delay, self.seq, f, a, kw)
        heapq.heappush(self.calls, dc)
        return dc
    def callFromThread(self, f, *a, **kw):
        return self.callLater(0, f, *a, **kw)
    def callWhenRunning(self, f, *a, **kw):
        f(*a, **kw)
    def getDelayedCalls(self):
        return [c for c in self.calls if c.active()]
    def addSystemEventTrigger(self, *a, **kw):
        pass
    def removeSystemEventTrigger(self, *a, **kw):
        pass
    def next_time(self):
        while self.calls and not self.calls[0].active():
            heapq.heappop(self.calls)
        return self.calls[0].when if self.calls else None
    def run_one(self):
        '''run the next delayed call (the clock moves to its time)'''
        when = self.next_time()
        if when is None:
            return False
        c = heapq.heappop(self.calls)
        CLOCK.now = max(CLOCK.now, c.when)
        c.called = 1
        if c.owner is not None and c.owner in WORLD.dead:
            return True
        self.guard(c.owner, c.f, *c.a, **c.kw)
        return True
    def guard(self, owner, f, *a, **kw):
        '''run f as the node owner; a process exit kills that node only'''
        saved, WORLD.current = WORLD.current, owner
        try:
            return f(*a, **kw)
        except NodeExit as e:
            self.log.append(('exit', owner, e.code))
            self.kill(owner)
        except SystemExit as e:
            self.log.append(('exit', owner, e.code))
            self.kill(owner)
        finally:
            WORLD.current = saved
    def kill(self, owner):
        if owner is not None and owner not in WORLD.dead:
            WORLD.dead.add(owner)
            if self.net is not None:
                self.net.node_died(owner)
    def advance(self, dt):
        '''move the virtual clock forward by dt, running what falls due'''
        end = CLOCK.now + dt
        while True:
            t = self.next_time()
            if t is None or t > end:
                break
            self.run_one()
        CLOCK.now = end
    def stop(self):
        self.stopped += 1
        if not self.running:
            raise tw_error.ReactorNotRunning()
    def run(self, *a, **kw):
        pass
    def _conn(self, kind, host, port, factory):
        if self.net is not None:
            return self.net.connect(kind, host, port, factory)
        c = FakeConnector(kind, host, port, factory)
        self.log.append((kind, host, port))
        factory.doStart()
        return c
    def connectTCP(self, host, port, factory, timeout=30, bindAddress=None):
        return self._conn('tcp', host, port, factory)
    def connectSSL(self, host, port, factory, ctx=None, timeout=30, bindAddress=None):
        return self._conn('ssl', host, port, factory)
    def connectUNIX(self, path, factory, timeout=30, checkPID=0):
        return self._conn('unix', path, None, factory)
    def _listen(self, kind, host, port, factory):
        if self.net is not None:
            return self.net.listen(kind, host, port, factory)
        self.log.append(('listen' + kind, host, port))
        factory.doStart()
        return FakeListener(factory)
    def listenTCP(self, port, factory, backlog=50, interface=''):
        return self._listen('tcp', interface, port, factory)
    def listenSSL(self, port, factory, ctx=None, backlog=50, interface=''):
        return self._listen('ssl', interface, port, factory)
    def listenUNIX(self, path, factory, backlog=50, mode=438, wantPID=0):
        return self._listen('unix', path, None, factory)


class FakeConnector(object):
    def __init__(self, kind, host, port, factory):
        self.kind, self.host, self.port, self.factory = kind, host, port, factory
        self.disconnected = 0
        self.connects = 0
    def disconnect(self):
        self.disconnected += 1
    def stopConnecting(self):
        self.disconnected += 1
    def connect(self):
        self.connects += 1


class FakeListener(object):
    def __init__(self, factory):
        self.factory = factory
        self.stopped = 0
    def stopListening(self):
        self.stopped += 1
        self.factory.doStop()

REACTOR = FakeReactor()

import twisted.internet
sys.modules['twisted.internet.reactor'] = REACTOR
twisted.internet.reactor = REACTOR

_ssl = types.ModuleType('twisted.internet.ssl')


class ClientContextFactory(object):
    pass


class DefaultOpenSSLContextFactory(object):
    def __init__(self, *a, **kw):
        self.args = a
_ssl.ClientContextFactory = ClientContextFactory
_ssl.DefaultOpenSSLContextFactory = DefaultOpenSSLContextFactory
sys.modules['twisted.internet.ssl'] = _ssl
twisted.internet.ssl = _ssl

# twisted/protocols/__init__.py wraps the module object in a proxy that Jython
# cannot import submodules from: import it without the proxy
import twisted
import imp


def _plain_package(name):
    path = os.path.join(twisted.__path__[0], *name.split('.')[1:])
    m = types.ModuleType(name)
    m.__path__ = [path]
    m.__file__ = os.path.join(path, '__init__.py')
    sys.modules[name] = m
    setattr(twisted, name.split('.')[1], m)

if 'twisted.protocols' not in sys.modules:
    _plain_package('twisted.protocols')

import logging


class _Null(logging.Handler):
    def emit(self, record):
        # the message is formatted, so that a broken logging call is seen
        LOG.note(record)


class LogSink(object):
    '''keeps what is logged by a case (levels and messages)'''
    def __init__(self):
        self.reset()
    def reset(self):
        self.records = []
        self.on = False
    def note(self, record):
        if self.on:
            try:
                self.records.append((record.levelname, record.getMessage()))
            except Exception as e:
                self.records.append(('BROKEN', repr(e)))

LOG = LogSink()
if os.environ.get("VERIF_LOG"): LOG.note = lambda r: sys.stderr.write(r.getMessage() + "\n")
logging.getLogger().handlers = [_Null()]
logging.getLogger().setLevel(int(os.environ.get("VERIF_LOG_LEVEL", logging.WARNING)))


class Transport(object):
    '''a transport that records what the protocol does with it'''
    disconnecting = False
    connected = True
    def __init__(self, peer=None, host=None):
        from twisted.internet.address import IPv4Address
        self.out = ''
        self.closed = False
        self.how = None
        self.peer = peer or IPv4Address('TCP', '127.0.0.1', 40000)
        self.host = host or IPv4Address('TCP', '127.0.0.1', 20000)
        self.on_close = None
    def write(self, data):
        assert isinstance(data, str), 'write of %s' % type(data)
        if not self.closed:
            self.out += data
    def writeSequence(self, seq):
        self.write(''.join(seq))
    def loseConnection(self, *a):
        self.closed = True
        self.disconnecting = True
        self.how = self.how or 'lose'
    def abortConnection(self, *a):
        self.closed = True
        self.disconnecting = True
        self.how = self.how or 'abort'
    def getPeer(self):
        return self.peer
    def getHost(self):
        return self.host
    def lines(self):
        out, self.out = self.out, ''
        parts = out.split('\r\n')
        assert parts[-1] == '', 'unterminated line %r' % parts[-1]
        return parts[:-1]


def reset(seed='0', now=START):
    '''a fresh world for the next case'''
    CLOCK.now = now
    ENTROPY.reset(seed)
    random.seed(str(seed))
    del EXITS[:]
    WORLD.reset()
    REACTOR.reset()
    LOG.reset()
