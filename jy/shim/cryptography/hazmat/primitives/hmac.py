from __future__ import absolute_import

import hashlib
import hmac as _hmac
from cryptography.exceptions import InvalidSignature

class HMAC(object):
    def __init__(self, key, algorithm, backend=None):
        if not isinstance(key, (str, bytes, bytearray)):
            raise TypeError('key must be bytes')
        self._h = _hmac.new(bytes(key), digestmod=getattr(hashlib, algorithm.name))
        self._done = False
    def update(self, data):
        assert not self._done
        if not isinstance(data, (str, bytes, bytearray)):
            raise TypeError('data must be bytes')
        self._h.update(bytes(data))
    def finalize(self):
        assert not self._done
        self._done = True
        return self._h.digest()
    def verify(self, signature):
        if not isinstance(signature, (str, bytes)):
            raise TypeError('signature must be bytes')
        d = self.finalize()
        if len(d) != len(signature):
            raise InvalidSignature('Signature did not match digest.')
        r = 0
        for a, b in zip(d, signature):
            r |= ord(a) ^ ord(b)
        if r:
            raise InvalidSignature('Signature did not match digest.')
