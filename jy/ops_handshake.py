'''Operations on the two ends of the PrivCount protocol, with an adversary'''
import base64
import hashlib
import hmac
import json
import os
import world
from privcount import protocol as P
from twisted.python.failure import Failure
from twisted.internet.error import ConnectionDone
OPS = {}
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')


def op(f):
    OPS[f.__name__] = f
    return f


def key_file(n, key):
    path = os.path.join(SCRATCH, 'secret%s.txt' % n)
    with open(path, 'w') as f:
        f.write(base64.b64encode(key) + '\n')
    return path


class Factory(object):
    '''records what the protocol tells the node; answers from a script'''
    def __init__(self, path, script):
        self.path, self.script = path, script
        self.calls = []
        self.task = None
    def get_secret_handshake_path(self):
        return self.path
    def note(self, *a):
        self.calls.append(json.loads(json.dumps(a)))
    def nxt(self, key):
        q = self.script.get(key) or []
        return q.pop(0) if q else None
    # server side
    def get_status(self):
        return self.script.get('status', {'name': 'node'})
    def set_client_status(self, uid, status):
        self.note('set_client_status', uid, dict((k, v) for k, v in status.items() if k not in ('alive',)))
    def get_stop_config(self, uid):
        c = self.nxt('stop')
        self.note('get_stop_config', uid)
        return c
    def get_start_config(self, uid):
        c = self.nxt('start')
        self.note('get_start_config', uid)
        return c
    def get_checkin_period(self):
        return self.script.get('period', 60)
    def set_start_result(self, uid, data):
        self.note('set_start_result', uid, data)
    def set_stop_result(self, uid, data):
        self.note('set_stop_result', uid, data)
    # client side
    def set_server_status(self, status):
        self.note('set_server_status', status)
    def do_start(self, config):
        self.note('do_start', config)
        return self.nxt('start_result')
    def do_stop(self, config):
        self.note('do_stop', config)
        return self.nxt('stop_result')
    def do_checkin(self):
        self.note('do_checkin')
    def get_checkin_task(self):
        return self.task
    def set_checkin_task(self, t):
        self.task = t
        self.note('set_checkin_task', t is not None)
    def resetDelay(self):
        self.note('resetDelay')
    def stopTrying(self):
        self.note('stopTrying')


class End(object):
    '''one end: the protocol of the code under test on a recording transport'''
    def __init__(self, role, path, script=None):
        self.role = role
        self.factory = Factory(path, script or {})
        cls = P.PrivCountServerProtocol if role == 'server' else P.PrivCountClientProtocol
        self.p = cls(self.factory)
        self.t = world.Transport()
        self.exits = 0
        self.gone = False
        self.sent = []
        self.valid_line = []
    def guard(self, f, *a):
        try:
            f(*a)
        except world.NodeExit:
            self.exits += 1
            self.t.loseConnection()
    def connect(self):
        self.guard(self.p.makeConnection, self.t)
        return self.drain()
    def drain(self):
        lines = self.t.lines()
        self.sent.extend(lines)
        return lines
    def feed(self, data):
        if self.gone or self.exits:
            return []
        self.guard(self.p.dataReceived, data)
        return self.drain()
    def lose(self):
        if not self.gone:
            self.gone = True
            self.t.closed = True
            self.guard(self.p.connectionLost, Failure(ConnectionDone()))
    def state(self):
        return {'valid': bool(self.p.is_valid_connection) and not self.t.closed,
                'closed': bool(self.t.closed or self.exits), 'exits': self.exits,
                'max': self.p.MAX_LENGTH}


def mac(key, prefix, sc, cc):
    return hmac.new(key, prefix + sc + cc, hashlib.sha256).digest()


def cookie_of(lines, stage, n=4):
    for l in lines:
        parts = l.split()
        if parts[0].startswith(stage) and len(parts) > n and parts[n] != 'FAIL':
            return base64.b64decode(parts[n])
    return None

NAMES = {1: 'HANDSHAKE1-SERVER-COOKIE', 2: 'HANDSHAKE2-CLIENT-COOKIE-HMAC', 3: 'HANDSHAKE3-SERVER-HMAC',
         4: 'HANDSHAKE4-CLIENT-VERIFY'}
ROLES = {1: 'SERVER', 2: 'CLIENT', 3: 'SERVER', 4: 'CLIENT'}


def render(step, env):
    '''the bytes of one step of the adversary's script'''
    if 'raw' in step:
        return step['raw']
    if 'copy' in step:
        # a line seen earlier: of this connection or of another one
        src = env['seen'] if step['copy'] == 'here' else env['recorded']
        if not src:
            return None
        return src[step['n'] % len(src)]
    st = step['stage']
    version, typ = step.get('version', 'PRIVCOUNT-100'), step.get('type', 'HMAC-SHA256')
    prefix = '%s %s %s %s' % (step.get('name', NAMES[st]), version, step.get('role', ROLES[st]), typ)
    fresh = env['server_cookie'] if step.get('sc', 'own') == 'own' else env['other_cookie']
    sc = fresh or '\0' * 32
    cc = env['client_cookie'] or '\0' * 32
    if st in (1, 2):
        c = step.get('cookie')
        mine = {'server': sc, 'client': cc, None: hashlib.sha256('c%s' % step.get('n', 0)).digest()}.get(
            c, None if c not in ('server', 'client', None) else '')
        if mine is None:
            mine = c
        if st == 1:
            env['server_cookie'] = mine
            sc = mine
        else:
            cc = mine
            env['client_cookie'] = cc
    key = env['key'] if step.get('key', 'good') == 'good' else step['key']
    hp = '%s %s %s %s' % (NAMES[step.get('mac_stage', st)], 'PRIVCOUNT-100', ROLES[step.get('mac_stage', st)], 'HMAC-SHA256')
    if st in (2, 3):
        a, b = (sc, cc) if not step.get('swap') else (cc, sc)
        m = mac(key, hp, a, b)
        if step.get('mac_bit') is not None:
            i = step['mac_bit'] % 256
            m = m[:i // 8] + chr(ord(m[i // 8]) ^ (1 << (i % 8))) + m[i // 8 + 1:]
        m = m[:step.get('mac_len', 32)]
    b64 = base64.b64encode
    body = {1: lambda: b64(sc), 2: lambda: b64(cc) + ' ' + b64(m), 3: lambda: b64(m),
            4: lambda: 'SUCCESS'}[st]()
    body = step.get('body', body)
    line = prefix + ' ' + body
    if step.get('cut') is not None:
        line = line[:len(line) - 1 - step['cut'] % (len(line) - 1)]
    if step.get('flip') is not None:
        i = step['flip'] % len(line)
        line = line[:i] + step.get('flip_to', 'x') + line[i + 1:]
    return line + step.get('tail', '')


@op
def attack(a):
    '''play the adversary's script to one end'''
    good = key_file('g', a['key'])
    env = dict(key=a['key'], server_cookie=None, client_cookie=None, other_cookie=None, recorded=[], seen=[])
    # an earlier, genuine session the adversary overheard
    if a.get('overheard'):
        s, c = End('server', good), End('client', good)
        lines = pump(s, c, [])[0]
        env['recorded'] = [l for _, l in lines]
        env['other_cookie'] = cookie_of(env['recorded'], 'HANDSHAKE1')
    end = End(a['role'], good, a.get('script'))
    out = []
    lines = end.connect()
    env['seen'].extend(lines)
    if a['role'] == 'server':
        env['server_cookie'] = cookie_of(lines, 'HANDSHAKE1')
    out.append(dict(end.state(), sent=lines, line=None, calls=[]))
    for step in a['steps']:
        text = render(step, env)
        if text is None:
            continue
        before = len(end.factory.calls)
        lines = end.feed(text + step.get('eol', '\r\n'))
        env['seen'].extend(lines)
        env['seen'].append(text)
        if a['role'] == 'client':
            env['client_cookie'] = cookie_of(lines, 'HANDSHAKE2') or env['client_cookie']
        out.append(dict(end.state(), sent=lines, line=text, calls=end.factory.calls[before:]))
    return out


def pump(s, c, edits, limit=60):
    '''run two real ends back to back through a man in the middle; edits: list
    of [n, kind, args] for the n-th line on the wire'''
    wire = []
    sent = []
    delivered = []
    c.connect()
    wire.extend(('s', l) for l in s.connect())
    edits = dict((e[0], e[1:]) for e in edits)
    n = 0
    while wire and n < limit:
        who, line = wire.pop(0)
        sent.append((who, line))
        e = edits.get(n)
        n += 1
        items = [(who, line)]
        if e is not None:
            kind = e[0]
            if kind == 'drop':
                items = []
            elif kind == 'dup':
                items = items * 2
            elif kind == 'flip':
                i = e[1] % max(1, len(line))
                items = [(who, line[:i] + e[2] + line[i + 1:])]
            elif kind == 'reflect':
                items = [('c' if who == 's' else 's', line)]
            elif kind == 'replay' and sent:
                items.append(sent[e[1] % len(sent)])
            elif kind == 'swap' and wire:
                items = [wire.pop(0), (who, line)]
            elif kind == 'cut':
                items = [(who, line[:len(line) - 1 - e[1] % len(line)])]
            elif kind == 'inject':
                items = [(e[1], e[2]), (who, line)]
            elif kind == 'lose':
                items = []
                s.lose()
                c.lose()
        for src, l in items:
            dst = c if src == 's' else s
            was = dst.p.is_valid_connection
            got = dst.feed(l + '\r\n')
            delivered.append([src, l, bool(was), bool(dst.p.is_valid_connection)])
            wire.extend(('c' if src == 's' else 's', x) for x in got)
    return sent, delivered


@op
def mitm(a):
    k1 = key_file('a', a['server_key'])
    k2 = key_file('b', a['client_key'])
    s, c = End('server', k1, a['server_script']), End('client', k2, a['client_script'])
    sent, delivered = pump(s, c, a['edits'])
    return {'delivered': delivered, 'sent': sent, 's': s.state(), 'c': c.state(),
            's_calls': s.factory.calls, 'c_calls': c.factory.calls}


@op
def secret_file(a):
    '''load the handshake secret from a file with this content (None: absent)'''
    path = os.path.join(SCRATCH, 'load.txt')
    if os.path.exists(path):
        os.remove(path)
    if a['content'] is not None:
        with open(path, 'w') as f:
            f.write(a['content'])
    out = []
    for _ in range(2):
        try:
            out.append(['ok', P.PrivCountProtocol.handshake_secret_load(path)])
        except Exception as e:
            out.append(['exc', type(e).__name__])
    out.append(open(path).read() if os.path.exists(path) else None)
    return out
