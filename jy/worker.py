'''
Persistent worker (Jython): reads one JSON request per line from stdin, runs it
on the code in /repo and answers with one JSON line on stdout.
'''
import sys
import os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT = sys.stdout
sys.stdout = sys.stderr
import world
import json
import traceback
import importlib


def tostr(x):
    '''JSON text -> byte strings, as the code under test uses them'''
    if isinstance(x, unicode):
        return x.encode('latin-1')
    if isinstance(x, list):
        return [tostr(i) for i in x]
    if isinstance(x, dict):
        return dict((tostr(k), tostr(v)) for k, v in x.iteritems())
    return x


def touni(x):
    if isinstance(x, str):
        return x.decode('latin-1')
    if isinstance(x, (list, tuple)):
        return [touni(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted(touni(i) for i in x)
    if isinstance(x, dict):
        return dict((touni(k) if isinstance(k, basestring) else k, touni(v))
                    for k, v in x.iteritems())
    return x

OPS = {}


def main():
    for name in sys.argv[1:]:
        m = importlib.import_module(name)
        OPS.update(m.OPS)
    OUT.write('{"ready": true}\n')
    OUT.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        req = json.loads(line)
        try:
            world.reset(req.get('seed', '0'), req.get('now', world.START))
            res = {'ok': touni(OPS[req['op']](tostr(req['a'])))}
        except BaseException as e:
            res = {'exc': touni([type(e).__name__, str(e)[:2000], traceback.format_exc()[-6000:]])}
        OUT.write(json.dumps(res) + '\n')
        OUT.flush()

main()
