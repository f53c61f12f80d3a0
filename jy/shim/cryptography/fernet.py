
import hmac
import hashlib
import os
import struct
import time
from base64 import urlsafe_b64encode, urlsafe_b64decode
from javax.crypto import Cipher
from javax.crypto.spec import IvParameterSpec, SecretKeySpec
from cryptography.hazmat.primitives.serialization import jbytes, pbytes

class InvalidToken(Exception):
    pass

class Fernet(object):
    @classmethod
    def generate_key(cls):
        return urlsafe_b64encode(os.urandom(32))
    def __init__(self, key, backend=None):
        key = urlsafe_b64decode(str(key))
        if len(key) != 32:
            raise ValueError('Fernet key must be 32 url-safe base64-encoded bytes.')
        self._sign = key[:16]
        self._enc = key[16:]
    def encrypt(self, data):
        if isinstance(data, unicode):
            raise TypeError('data must be bytes')
        now = int(time.time())
        iv = os.urandom(16)
        c = Cipher.getInstance('AES/CBC/PKCS5Padding')
        c.init(Cipher.ENCRYPT_MODE, SecretKeySpec(jbytes(self._enc), 'AES'), IvParameterSpec(jbytes(iv)))
        body = '\x80' + struct.pack('>Q', now) + iv + pbytes(c.doFinal(jbytes(data)))
        return urlsafe_b64encode(body + hmac.new(self._sign, body, hashlib.sha256).digest())
    def decrypt(self, token, ttl=None):
        from java.lang import Exception as JException
        if isinstance(token, unicode):
            raise TypeError('token must be bytes')
        now = int(time.time())
        try:
            data = urlsafe_b64decode(token)
        except (TypeError, ValueError):
            raise InvalidToken
        if len(data) < 9 + 16 + 32 or data[0] != '\x80':
            raise InvalidToken
        ts, = struct.unpack('>Q', data[1:9])
        if ttl is not None and (ts + ttl < now or now + 60 < ts):
            raise InvalidToken
        if hmac.new(self._sign, data[:-32], hashlib.sha256).digest() != data[-32:]:
            raise InvalidToken
        try:
            c = Cipher.getInstance('AES/CBC/PKCS5Padding')
            c.init(Cipher.DECRYPT_MODE, SecretKeySpec(jbytes(self._enc), 'AES'), IvParameterSpec(jbytes(data[9:25])))
            return pbytes(c.doFinal(jbytes(data[25:-32])))
        except JException:
            raise InvalidToken
