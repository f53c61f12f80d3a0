'''Operations on the texts of log messages'''
import world
from privcount import log as L
from ops_match import attempt
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


@op
def texts(a):
    out = []
    for now, name, args, kw in a['calls']:
        world.CLOCK.now = now
        args = [x.encode('latin-1') if isinstance(x, unicode) else x for x in args]
        out.append(attempt(getattr(L, name), *args, **dict((str(k), v) for k, v in kw.items())))
    return out


@op
def stop(a):
    '''what happens to the process and the reactor'''
    world.REACTOR.running = a['running']
    try:
        L.errorCallback('failure') if a['code'] == 'error' else L.stop_reactor(a['code'])
        how = ['returned']
    except world.NodeExit as e:
        how = ['exit', e.code]
    except SystemExit as e:
        how = ['sys.exit', e.code]
    except Exception as e:
        how = ['exc', type(e).__name__]
    return dict(how=how, stopped=world.REACTOR.stopped)
