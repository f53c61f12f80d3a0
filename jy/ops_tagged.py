'''Operations on tagged fields'''
from privcount import tagged_event as TE
OPS = {}
KINDS = ['string', 'list', 'int', 'flag', 'float', 'ip_address']


def op(f):
    OPS[f.__name__] = f
    return f


def plain(v):
    if v is None or isinstance(v, (bool, str, list)):
        return [type(v).__name__, v]
    if isinstance(v, (int, long)):
        return ['int', str(v)]
    if isinstance(v, float):
        return ['float', repr(v)]
    return [type(v).__name__, str(v)]


def attempt(f, *a, **kw):
    try:
        return ['ok', plain(f(*a, **kw))]
    except Exception as e:
        return ['exc', type(e).__name__]


@op
def parse(a):
    before = list(a['fields'])
    r = TE.parse_tagged_event(a['fields'])
    return dict(fields=sorted(r.items()), same=before == a['fields'], dict=isinstance(r, dict),
                again=TE.parse_tagged_event(a['fields']) == r)


@op
def typed(a):
    out = []
    for c in a['checks']:
        kind, name, fields = c['kind'], c['name'], c['fields']
        valid = getattr(TE, 'is_%s_valid' % kind)
        get = getattr(TE, 'get_%s_value' % kind)
        before = dict(fields)
        ok = attempt(valid, name, fields, 'in a test', is_mandatory=c['mandatory'], **c['limits'])
        got = attempt(get, name, fields, 'in a test', is_mandatory=c['mandatory'], default=c['default'])
        nodef = attempt(get, name, fields, 'in a test', is_mandatory=False)
        obj = None
        if kind == 'ip_address':
            obj = attempt(TE.get_ip_address_object, name, fields, 'in a test', is_mandatory=c['mandatory'])
        out.append(dict(ok=ok, got=got, nodef=nodef, obj=obj, same=before == fields))
    return out
