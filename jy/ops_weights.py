'''The tool that computes the share of each role that relays have, with
stand-ins for stem, numpy and multiprocessing'''
import imp
import json
import os
import shutil
import StringIO
import sys
import types
import world
from ops_match import put, SCRATCH
OPS = {}


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


class Version(object):
    def __init__(self, text):
        self.parts = tuple(int(i) for i in text.split('.'))
    def __cmp__(self, other):
        return cmp(self.parts, other.parts)


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Document(object):
    def __init__(self, d):
        self.text = json.dumps(d)
        self.valid_after = d['valid_after']
        self.params = d['params']
        self.bandwidth_weights = d['weights']
        self.routers = dict((str(f), self.router(str(f), r)) for f, r in d['routers'].items())
    def __str__(self):
        return self.text
    def router(self, f, r):
        ok = bool(r['exits'])
        return Thing(fingerprint=f, bandwidth=r['bandwidth'], version=Version(r['version']), flags=[str(x) for x in r['flags']],
                     protocols=r['protocols'], exit_policy=Thing(is_exiting_allowed=lambda: ok))


def parse_file(path, *a, **kw):
    with open(path) as f:
        text = f.read()
    if text.startswith('@'):
        text = text.partition('\n')[2]
    return iter([Document(json.loads(text))])


class Pool(object):
    def __init__(self, *a):
        pass
    def map_async(self, f, items):
        r = [f(i) for i in items]
        return Thing(ready=lambda: True, get=lambda *a: r, wait=lambda *a: None)
    map = lambda self, f, items: [f(i) for i in items]
    close = join = terminate = lambda self: None

CURRENT = [None]
Flag = Thing(GUARD='Guard', EXIT='Exit', FAST='Fast', STABLE='Stable', HSDIR='HSDir', BADEXIT='BadExit', RUNNING='Running', VALID='Valid')
module('numpy', mean=lambda l: sum(l) / float(len(l)))
remote = module('stem.descriptor.remote', DescriptorDownloader=lambda *a, **kw: Thing(
    get_consensus=lambda *a, **kw: Thing(run=lambda *a, **kw: [Document(CURRENT[0])])))
desc = module('stem.descriptor', parse_file=parse_file, DocumentHandler=Thing(DOCUMENT='DOCUMENT'), remote=remote)
vers = module('stem.version', Version=Version)
module('stem', Flag=Flag, descriptor=desc, version=vers)
module('multiprocessing', Pool=Pool, cpu_count=lambda: 2)
PATH = os.path.join(os.environ['PRIVCOUNT_DIRECTORY'], 'privcount', 'tools', 'compute_fractional_position_weights')
TOOL = types.ModuleType('compute_fractional_position_weights')
with open(PATH) as _f:
    exec compile(_f.read(), PATH, 'exec') in TOOL.__dict__


def weights(a):
    d = os.path.join(SCRATCH, 'consensuses')
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.mkdir(d)
    before = set(os.listdir('.'))
    if a['how'] == 'dir':
        for name, doc in a['docs']:
            put('consensuses/' + name, json.dumps(doc) if doc else 'not a consensus')
        arg = d
    elif a['how'] == 'file':
        arg = put('consensuses/' + a['docs'][0][0], json.dumps(a['docs'][0][1]))
    else:
        CURRENT[0] = a['docs'][0][1]
        arg = '-'
    saved = sys.argv, sys.stdout
    out = StringIO.StringIO()
    err = None
    try:
        sys.argv = ['weights', '-m'] if a['pool'] else ['weights']
        sys.argv += [arg] + list(a['prints'])
        sys.stdout = out
        TOOL.main()
    except (Exception, SystemExit) as e:
        import traceback
        err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-600:])
    finally:
        sys.argv, sys.stdout = saved
    for f in set(os.listdir('.')) - before:
        os.remove(f)
    return dict(err=err, out=out.getvalue())

OPS['weights'] = weights
