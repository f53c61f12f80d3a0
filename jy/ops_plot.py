'''The plotting tool on result files, with a stand-in for matplotlib that records
the bars'''
import logging
import json
import os
import sys
import types
import world
from ops_match import put, SCRATCH
from privcount import plot as PL
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


class Points(list):
    '''the part of a numpy array that positions of bars need'''
    def __add__(self, x):
        return Points(i + x for i in self)
    __radd__ = __add__

PAGES = []


class Axis(object):
    def __init__(self, page):
        self.page = page
    def bar(self, left, height, width=None, **kw):
        e = kw.get('yerr')
        self.page['bars'].append(dict(left=list(left), height=list(height), width=width, color=kw.get('color'),
                                      err=None if e is None else [list(x) for x in e]))
        return [len(self.page['bars']) - 1]
    def set_title(self, t):
        self.page['title'] = t
    def set_xticklabels(self, l):
        self.page['ticks'] = list(l)
        return l
    def set_xticks(self, l):
        self.page['at'] = list(l)
    def legend(self, bars, labels):
        self.page['legend'] = [[b, l] for b, l in zip(bars, labels)]
    def __getattr__(self, name):
        return lambda *a, **kw: []


class Figure(object):
    def add_subplot(self, *a):
        PAGES.append(dict(bars=[]))
        return Axis(PAGES[-1])
    def __getattr__(self, name):
        return lambda *a, **kw: None


class Pdf(object):
    def __init__(self, name):
        self.name = name
        PDFS.append([name, 0, False])
    def savefig(self, *a, **kw):
        PDFS[-1][1] += 1
    def close(self):
        PDFS[-1][2] = True

PDFS = []


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    return m


def stand_in():
    pylab = module('pylab', rcParams={}, arange=lambda n: Points(range(n)), figure=lambda *a, **kw: Figure(),
                   setp=lambda *a, **kw: None, close=lambda *a, **kw: None)
    pdf = module('matplotlib.backends.backend_pdf', PdfPages=Pdf)
    back = module('matplotlib.backends', backend_pdf=pdf)
    module('matplotlib', use=lambda x: None, backends=back, pylab=pylab)

stand_in()


@op
def plot(a):
    '''the text and the pages written for the given input files and options'''
    del PAGES[:]
    del PDFS[:]
    argv = ['plot.py', '-p', os.path.join(SCRATCH, a.get('prefix', 'out'))] + list(a['options'])
    if a.get('labels') is not None:
        argv += ['-b', put('labels.txt', a['labels'])]
    for i, (label, text) in enumerate(a['files']):
        argv += ['-o', put('in%d.json' % i, text), label]
    saved = sys.argv
    before = set(os.listdir(SCRATCH))
    err = None
    try:
        sys.argv = argv
        PL.main()
    except (Exception, SystemExit) as e:
        import traceback
        err = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-600:])
    finally:
        sys.argv = saved
    out = {}
    for f in os.listdir(SCRATCH):
        if f.startswith(a.get('prefix', 'out') + '.') or f not in before and not f.startswith(('in', 'labels')):
            p = os.path.join(SCRATCH, f)
            if os.path.isfile(p):
                out[f] = open(p).read()
                os.remove(p)
    return dict(err=err, files=out, pages=list(PAGES), pdfs=[[os.path.basename(n), k, c] for n, k, c in PDFS])
