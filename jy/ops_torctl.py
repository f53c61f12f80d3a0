'''Operations on the Tor control client (and the stub server)'''
import binascii
import hashlib
import hmac
import json
import os
import world
from privcount import protocol as P
from twisted.python.failure import Failure
from twisted.internet.error import ConnectionDone, ConnectionLost
OPS = {}
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
C = P.TorControlProtocol
SKEY = 'Tor safe cookie authentication server-to-controller hash'
CKEY = 'Tor safe cookie authentication controller-to-server hash'


def op(f):
    OPS[f.__name__] = f
    return f


def put(name, content):
    '''a file in the scratch directory with this content (None: no file)'''
    path = os.path.join(SCRATCH, name)
    if os.path.exists(path):
        os.remove(path)
    if content is not None:
        with open(path, 'wb') as f:
            f.write(content)
    return path


class Factory(object):
    '''records the calls of the control client, answers from the config'''
    def __init__(self, a):
        self.a = a
        self.calls = []
        self.fingerprint = None
        self.events = 0
    def get_control_password(self):
        return self.a.get('password_path')
    def get_control_cookie_file(self):
        return self.a.get('cookie_path')
    def get_use_setconf(self):
        return self.a.get('use_setconf', True)
    def get_circuit_sample_rate(self):
        return self.a.get('sample_rate', 1.0)
    def get_max_cell_events_per_circuit(self):
        return self.a.get('max_cells', -1)
    def get_fingerprint(self):
        return self.fingerprint
    def __getattr__(self, name):
        if not name.startswith('set_'):
            raise AttributeError(name)
        def setter(value):
            self.calls.append([name, value])
            if name == 'set_fingerprint':
                v = value.strip()
                if len(v) != 40:
                    return False
                self.fingerprint = v
            return True
        return setter
    def handle_event(self, event):
        self.calls.append(['event', list(event)])
        self.events += 1
        return self.a.get('refuse') != self.events
    def start_injecting(self):
        self.calls.append(['inject', True])
    def stop_injecting(self):
        self.calls.append(['inject', False])


class End(object):
    def __init__(self, cls, factory):
        self.factory = factory
        self.p = cls(factory)
        self.t = world.Transport()
        self.exits, self.gone, self.exc = 0, False, None
    def guard(self, f, *a):
        try:
            f(*a)
        except world.NodeExit:
            self.exits += 1
            self.t.loseConnection()
        except Exception as e:
            # twisted drops the connection when the protocol raises
            self.exc = '%s: %s' % (type(e).__name__, e)
            self.t.loseConnection()
            self.lose(ConnectionLost())
    def connect(self):
        self.guard(self.p.makeConnection, self.t)
    def feed(self, data):
        if not (self.gone or self.t.closed or self.exits):
            self.guard(self.p.dataReceived, data)
    def lose(self, why=None):
        if not self.gone:
            self.gone = True
            self.t.closed = True
            self.guard(self.p.connectionLost, Failure(why or ConnectionDone()))


def mac(key, cookie, cn, sn):
    return hmac.new(key, cookie + cn + sn, hashlib.sha256).digest()


def challenge(kind, cookie, cn, sn, n):
    '''an AUTHCHALLENGE reply of some kind'''
    h = mac(SKEY, cookie, cn, sn)
    if kind == 'bit':
        h = h[:n // 8 % 32] + chr(ord(h[n // 8 % 32]) ^ (1 << n % 8)) + h[n // 8 % 32 + 1:]
    elif kind == 'wrong_cookie':
        h = mac(SKEY, 'x' * 32, cn, sn)
    elif kind == 'wrong_key':
        h = mac(CKEY, cookie, cn, sn)
    elif kind == 'old_nonce':
        h = mac(SKEY, cookie, 'o' * 32, sn)
    elif kind == 'other_server_nonce':
        h = mac(SKEY, cookie, cn, 's' * 32)
    elif kind == 'swapped':
        h = mac(SKEY, cookie, sn, cn)
    elif kind == 'no_nonce':
        h = mac(SKEY, cookie, '', sn)
    elif kind == 'short_hash':
        h = h[:n % 32]
    elif kind == 'long_hash':
        h = h + 'x'
    elif kind == 'short_nonce':
        sn = sn[:n % 32]
        h = mac(SKEY, cookie, cn, sn)
    elif kind == 'long_nonce':
        sn = sn + 'y'
        h = mac(SKEY, cookie, cn, sn)
    elif kind == 'zero':
        h = '\0' * 32
    hx = binascii.hexlify
    sh, ss = hx(h), hx(sn)
    if kind == 'upper':
        sh, ss = sh.upper(), ss.upper()
    if kind == 'not_hex':
        sh = sh[:-1] + 'g'
    if kind == 'odd':
        sh = sh[:-1]
    if kind == 'no_hash':
        return '250 AUTHCHALLENGE SERVERNONCE=' + ss
    if kind == 'only_hash':
        return '250 AUTHCHALLENGE SERVERHASH=' + sh
    if kind == 'ok':
        return '250 OK'
    if kind == 'error':
        return '513 Invalid base16 client nonce'
    return '250 AUTHCHALLENGE SERVERHASH=%s SERVERNONCE=%s' % (sh, ss)


@op
def control(a):
    '''a dialogue between the control client and a scripted Tor'''
    a = dict(a)
    sub = {'COOKIEPATH': put('cookie' + a.get('cookie_suffix', ''), a.get('cookie')) if 'cookie' in a else ''}
    if 'password' in a:
        a['password_path'] = put('password.txt', a['password'])
    fac = Factory(a)
    e = End(P.TorControlClientProtocol, fac)
    sn = hashlib.sha256('server nonce').digest()
    out = []

    def note():
        out.append({'sent': e.t.lines(), 'closed': bool(e.t.closed or e.exits), 'exits': e.exits, 'exc': e.exc,
                    'calls': fac.calls[:]})
        del fac.calls[:]
    if not a.get('late'):
        e.connect()
    note()
    for s in a['steps']:
        if s[0] == 'connect':
            e.connect()
        elif s[0] == 'line':
            text = s[1]
            for k in sub:
                if '{' + k + '}' in text:
                    q = '"' + sub[k].replace('\\', '\\\\').replace('"', '\\"') + '"'
                    text = text.replace('{' + k + '}', q)
            e.feed(text + '\r\n')
        elif s[0] == 'challenge':
            cn = e.p.client_nonce or '\0' * 32
            last = [l for o in out for l in o['sent'] if l.startswith('AUTHCHALLENGE SAFECOOKIE ')]
            if last:
                cn = binascii.unhexlify(last[-1].split(' ')[2])
            e.feed(challenge(s[1], a.get('cookie') or 'n' * 32, cn, sn, s[2] if len(s) > 2 else 0) + '\r\n')
        elif s[0] == 'start':
            e.guard(e.p.startCollection, s[1], s[2], s[3])
        elif s[0] == 'stop':
            e.guard(e.p.stopCollection)
        elif s[0] == 'lose':
            e.lose()
        elif s[0] == 'tick':
            world.REACTOR.advance(s[1])
        note()
    tasks = len(world.REACTOR.getDelayedCalls())
    return {'out': out, 'server_nonce': sn, 'timers': tasks}


@op
def strings(a):
    r = []
    for s in a:
        q = C.encodeControllerString(s, hex_encode=False)
        h = C.encodeControllerString(s)
        r.append([q, C.decodeControllerString(q), h, C.decodeControllerString(h)])
    return r


@op
def decode(a):
    try:
        return ['ok', C.decodeControllerString(a)]
    except TypeError as e:
        return ['exc', 'TypeError']


@op
def back_to_back(a):
    '''the real client against the real stub server'''
    a = dict(a)
    server_conf = {'cookie_path': os.path.join(SCRATCH, 'stub_cookie') if a['server_cookie'] else None}
    if a['server_cookie'] and os.path.exists(server_conf['cookie_path']):
        os.remove(server_conf['cookie_path'])
    if a['server_password'] is not None:
        server_conf['password_path'] = put('server_password', a['server_password'])
    client_conf = {'use_setconf': a['use_setconf']}
    if a['client_password'] is not None:
        client_conf['password_path'] = put('client_password', a['client_password'])
    sf, cf = Factory(server_conf), Factory(client_conf)
    s = End(P.TorControlServerProtocol, sf)
    c = End(P.TorControlClientProtocol, cf)
    s.connect()
    c.connect()
    wire = []
    auth_before = []
    for n in range(200):
        moved = False
        for src, dst in ((c, s), (s, c)):
            lines = src.t.lines()
            for l in lines:
                moved = True
                wire.append(['c' if src is c else 's', l, bool(s.p.authenticated)])
                if a.get('tamper') is not None and len(wire) - 1 == a['tamper'][0]:
                    i = a['tamper'][1] % len(l)
                    l = l[:i] + a['tamper'][2] + l[i + 1:]
                if dst is c and a.get('swap_cookie') and l.startswith('250 AUTHCHALLENGE'):
                    put('stub_cookie', 'z' * 32)
                dst.feed(l + '\r\n')
            if src.t.closed and not dst.gone:
                dst.lose()
        if n == a.get('start_at'):
            c.guard(c.p.startCollection, a['counters'], None, None)
        if not moved and n > a.get('start_at', 0):
            break
    return {'wire': wire, 'authenticated': bool(s.p.authenticated), 'client_state': str(c.p.state),
            'c_calls': cf.calls, 's_calls': sf.calls, 'c_closed': c.t.closed, 's_closed': s.t.closed,
            'exc': [c.exc, s.exc]}


@op
def stub(a):
    '''a scripted client against the stub server'''
    conf = {}
    if a['cookie_file']:
        conf['cookie_path'] = put('stub_cookie', None)
    if a['password'] is not None:
        conf['password_path'] = put('server_password', a['password'])
    f = Factory(conf)
    e = End(P.TorControlServerProtocol, f)
    e.connect()
    out = []
    nonce = {'cn': '', 'sn': ''}
    for s in a['steps']:
        text = s
        if isinstance(s, list):
            cookie = open(conf['cookie_path']).read() if a['cookie_file'] and os.path.exists(conf['cookie_path']) else 'n' * 32
            key = {'good': CKEY, 'wrong': SKEY}[s[1]]
            ck = cookie if s[2] == 'good' else 'q' * 32
            sn = nonce['sn'] if s[3] == 'good' else 'r' * 32
            text = 'AUTHENTICATE ' + binascii.hexlify(mac(key, ck, nonce['cn'], sn))
        if text.startswith('AUTHCHALLENGE SAFECOOKIE '):
            try:
                nonce['cn'] = binascii.unhexlify(text.split(' ')[2])
            except TypeError:
                pass
        e.feed(text + '\r\n')
        lines = e.t.lines()
        for l in lines:
            if 'SERVERNONCE=' in l:
                nonce['sn'] = binascii.unhexlify(l.split('SERVERNONCE=')[1])
        out.append({'line': text, 'sent': lines, 'auth': bool(e.p.authenticated), 'closed': bool(e.t.closed),
                    'calls': f.calls[:], 'exc': e.exc})
        del f.calls[:]
    return out
