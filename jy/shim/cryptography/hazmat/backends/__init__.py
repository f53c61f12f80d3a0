
class _Backend(object):
    pass
_BACKEND = _Backend()
def default_backend():
    return _BACKEND
