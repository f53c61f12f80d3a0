'''Operations on connection configurations, endpoints, and relay facts'''
import world
from privcount import connection as N
from twisted.internet.address import IPv4Address, IPv6Address, HostnameAddress, UNIXAddress
from ops_agg import make
from ops_match import attempt
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


class Fac(object):
    def doStart(self):
        pass
    def doStop(self):
        pass


def count(x):
    return len(x) if isinstance(x, list) else -1


def items(x):
    return x if isinstance(x, list) else [x]


@op
def config(a):
    c = a['config']
    out = dict(plain=attempt(N.validate_connection_config, c),
               with_ip=attempt(N.validate_connection_config, c, must_have_ip=True))
    out['password'] = out['first'] = out['having'] = None
    if a['choose']:
        out['password'] = attempt(N.get_a_control_password, c)
        out['first'] = attempt(N.choose_a_connection, c)
        out['having'] = [attempt(N.choose_a_connection_with, c, k) for k in a['keys']]
    for name, kw in (('connect', {}), ('listen', {})):
        world.REACTOR.log = []
        args = {}
        if a['local'] is not None:
            args['ip_local_default'] = a['local']
        if a['versions'] is not None:
            args['ip_version_default'] = a['versions']
        try:
            r = getattr(N, name)(Fac(), c, **args)
            # each of them can be stopped again
            (N.disconnect if name == 'connect' else N.stopListening)(r)
            out[name] = [list(world.REACTOR.log), count(r),
                         [getattr(i, 'disconnected' if name == 'connect' else 'stopped') for i in items(r)]]
        except Exception as e:
            out[name] = ['exc', type(e).__name__]
    return out


class T(object):
    def __init__(self, peer, host):
        self.peer = peer
        if host != 'none':
            self.getHost = lambda: host
    def getPeer(self):
        return self.peer


class Odd(object):
    def __str__(self):
        return 'odd address'


def address(x):
    if x is None:
        return None
    kind = x[0]
    if kind == 'ip4':
        return IPv4Address('TCP', x[1], x[2])
    if kind == 'ip6':
        return IPv6Address('TCP', x[1], x[2])
    if kind == 'name':
        return HostnameAddress(x[1], x[2])
    if kind == 'unix':
        return UNIXAddress(x[1])
    return Odd()


@op
def endpoint(a):
    t = T(address(a['peer']), 'none' if a['host'] == 'none' else address(a['host']))
    return [attempt(f, t) for f in (N.transport_info, N.transport_remote_info, N.transport_local_info,
                                    N.transport_peer_hostname, N.transport_local_hostname)]


@op
def facts(a):
    g = make(dict(counters={'Zero': {'bins': [[0.0, float('inf')]], 'sigma': 0.0}}))
    out = [[None, g.get_context()]]
    for name, value in a['steps']:
        out.append([attempt(getattr(g, 'set_' + name), value), g.get_context()])
    return out
