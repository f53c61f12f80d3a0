'''The command line: privcount/tools/privcount run as a program'''
import logging
import os
import shutil
import StringIO
import sys
import types
import world
from ops_match import SCRATCH
from ops_torctl import End
from privcount import data_collector, inject, plot, share_keeper, tally_server
from privcount.protocol import get_privcount_version
OPS = {}
TOOL = os.path.join(os.path.dirname(os.path.abspath(inject.__file__)), 'tools', 'privcount')


def op(f):
    OPS[f.__name__] = f
    return f


def load():
    tool = types.ModuleType('privcount_cli')
    with open(TOOL) as f:
        exec compile(f.read(), TOOL, 'exec') in tool.__dict__
    return tool


def text(x):
    return x.encode('latin-1') if isinstance(x, unicode) else x


class Net(object):
    '''the listeners that were opened'''
    def __init__(self):
        self.opened = []
    def listen(self, kind, host, port, factory):
        self.opened.append([kind, host, port])
        self.factory = factory
        factory.doStart()
        return world.FakeListener(factory)
    def node_died(self, owner):
        pass


def replay(net, a):
    '''what the injector sends to a client'''
    end = End(lambda f: f.buildProtocol(None), net.factory)
    end.connect()
    out = []
    for l in ['PROTOCOLINFO 1'] + a['auth']:
        end.feed(text(l) + '\r\n')
        out.append(end.t.lines())
    if not out[-1] or out[-1][-1] != '250 OK' or end.t.closed:
        return dict(said=out, accepted=False, sent=[])
    end.feed('SETEVENTS PRIVCOUNT_CIRCUIT_CELL\r\n')
    sent = [[world.CLOCK.now, l] for l in end.t.lines()]
    n = 0
    while world.REACTOR.calls and n < 200 and world.REACTOR.run_one():
        sent.extend([world.CLOCK.now, l] for l in end.t.lines())
        n += 1
    return dict(said=out, accepted=True, sent=sent, exc=end.exc)


@op
def cli(a):
    home = os.path.join(SCRATCH, 'cli')
    if os.path.isdir(home):
        shutil.rmtree(home)
    os.makedirs(os.path.join(home, 'work'))
    ran = []
    for path, content in a['files']:
        with open(os.path.join(home, path), 'wb') as f:
            f.write(text(content))

    def say():
        for level in (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR):
            logging.log(level, 'level %d', level)

    def node(kind):
        class Node(object):
            def __init__(self, path):
                self.path = path
            def run(self):
                try:
                    with open(self.path, 'rb') as f:
                        ran.append([kind, f.read(), os.path.isabs(self.path)])
                except EnvironmentError:
                    ran.append([kind, None, os.path.isabs(self.path)])
                say()
        return Node

    def drawn(args):
        ran.append(['plot', '', True])
        say()

    net = Net()
    cwd, argv, stdin, stdout, stderr = os.getcwd(), sys.argv, sys.stdin, sys.stdout, sys.stderr
    root = logging.getLogger()
    handlers, level = root.handlers, root.level
    saved = [(m, n, getattr(m, n)) for m, n in ((data_collector, 'DataCollector'), (tally_server, 'TallyServer'),
                                                (share_keeper, 'ShareKeeper'), (plot, 'run_plot'))]
    env = os.environ.get('HOME')
    how, played = ['returned'], None
    try:
        for m, n, old in saved:
            setattr(m, n, drawn if n == 'run_plot' else node({'DataCollector': 'dc', 'TallyServer': 'ts', 'ShareKeeper': 'sk'}[n]))
        os.chdir(os.path.join(home, 'work'))
        os.environ['HOME'] = home
        sys.argv = ['privcount'] + [text(x).replace('@', home) for x in a['argv']]
        sys.stdin, sys.stdout, sys.stderr = StringIO.StringIO(text(a['stdin'])), StringIO.StringIO(), StringIO.StringIO()
        root.handlers = []
        world.REACTOR.net = net
        tool = load()
        if a['before'] is not None:
            # an earlier run in the same directory
            args, sys.argv, sys.stdin = sys.argv, ['privcount', 'sk', '-'], StringIO.StringIO(text(a['before']))
            tool.main()
            sys.argv, sys.stdin = args, StringIO.StringIO(text(a['stdin']))
            sys.stdout, sys.stderr = StringIO.StringIO(), StringIO.StringIO()
            root.handlers = []
            del ran[:]
        try:
            tool.main()
        except SystemExit as e:
            how = ['exit', e.code]
        except world.NodeExit as e:
            how = ['exit', e.code]
        except Exception as e:
            how = ['raised', type(e).__name__]
        if net.opened and how == ['returned']:
            say()
            played = replay(net, a)
        for h in root.handlers:
            h.close()
        out, err = sys.stdout.getvalue(), sys.stderr.getvalue()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = argv, stdin, stdout, stderr
        root.handlers = handlers
        root.setLevel(level)
        world.REACTOR.net = None
        os.chdir(cwd)
        if env is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = env
        for m, n, old in saved:
            setattr(m, n, old)
    logs = {}
    for d, _, names in os.walk(home):
        for n in names:
            p = os.path.relpath(os.path.join(d, n), home)
            with open(os.path.join(d, n), 'rb') as f:
                logs[p] = f.read()
    given = dict((p, text(c)) for p, c in a['files'])
    return dict(how=how, ran=ran, out=out, err=err, opened=net.opened, played=played, version=get_privcount_version(),
                made=dict((p, c) for p, c in logs.items() if given.get(p) != c),
                gone=[p for p in given if p not in logs])
