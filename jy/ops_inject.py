'''Replays event logs through the injector and its control port stub'''
import os
import world
from privcount import inject as I
from ops_torctl import End, put
from ops_match import attempt
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


class Session(object):
    def __init__(self, a):
        path = put('events.log', a['log'])
        self.inj = I.PrivCountDataInjector(path, a['pause'], a['before'], a['after'])
        self.listeners = [world.FakeListener(self.inj) for i in range(2)]
        self.inj.set_listeners(self.listeners)
        self.end = End(lambda f: f.buildProtocol(None), self.inj)
        self.end.connect()
        self.sent = []
    def collect(self):
        self.sent.extend([world.CLOCK.now, l] for l in self.end.t.lines())
    def start(self, events):
        for l in ('PROTOCOLINFO 1', 'AUTHENTICATE'):
            self.end.feed(l + '\r\n')
        auth = self.end.t.lines()
        if auth[-1:] != ['250 OK'] or self.end.t.closed:
            raise RuntimeError('not authenticated: %r' % (auth,))
        self.end.feed('SETEVENTS %s\r\n' % ' '.join(events))
        self.collect()


@op
def replay(a):
    s = Session(a)
    s.start(a['events'])
    listening = [l.stopped for l in s.listeners]
    n = 0
    stopped = None
    # the first thing that happens after so many steps of the reactor
    while n < a['most'] and world.REACTOR.calls and s.end.exc is None:
        if n == a['stop_after'] and stopped is None:
            stopped = len(s.sent)
            if a['stop'] == 'lose':
                s.end.t.connected = False
                s.end.lose()
            else:
                s.end.feed({'quit': 'QUIT\r\n', 'events': 'SETEVENTS\r\n'}[a['stop']])
                s.collect()
        before = world.CLOCK.now
        if not world.REACTOR.run_one():
            break
        s.collect()
        n += 1
    world.REACTOR.advance(10)
    s.collect()
    return dict(sent=s.sent, stopped=stopped, steps=n, exc=s.end.exc, exits=len(world.EXITS) + s.end.exits,
                closed=bool(s.end.t.closed), reactor=world.REACTOR.stopped, listening=listening,
                left=len([1 for c in world.REACTOR.calls if c.active()]))
