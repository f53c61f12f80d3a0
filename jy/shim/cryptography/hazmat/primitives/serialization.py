
from array import array
from base64 import b64encode, b64decode
import re
from java.security import KeyFactory
from java.security.spec import PKCS8EncodedKeySpec, X509EncodedKeySpec, RSAPublicKeySpec, MGF1ParameterSpec
from javax.crypto import Cipher
from javax.crypto.spec import OAEPParameterSpec, PSource

def jbytes(s):
    return array('b', [(b - 256 if b > 127 else b) for b in bytearray(s)])

def pbytes(a):
    return ''.join(chr(b & 0xff) for b in a)

class Encoding(object):
    PEM = 'PEM'
    DER = 'DER'
class PublicFormat(object):
    SubjectPublicKeyInfo = 'spki'
class PrivateFormat(object):
    PKCS8 = 'pkcs8'
    TraditionalOpenSSL = 'trad'
class NoEncryption(object):
    pass

def _pem(label, der):
    b = b64encode(der)
    lines = [b[i:i + 64] for i in range(0, len(b), 64)]
    return '-----BEGIN %s-----\n%s\n-----END %s-----\n' % (label, '\n'.join(lines), label)

def _unpem(data, label):
    m = re.search(r'-----BEGIN %s-----\s*(.*?)\s*-----END %s-----' % (label, label), str(data), re.S)
    if not m:
        raise ValueError('Could not deserialize key data.')
    try:
        return b64decode(re.sub(r'\s', '', m.group(1)))
    except TypeError:
        raise ValueError('Could not deserialize key data.')

def _cipher(mode, key, pad):
    h = pad._algorithm.java_name
    spec = {'SHA-1': MGF1ParameterSpec.SHA1, 'SHA-256': MGF1ParameterSpec.SHA256,
            'SHA-384': MGF1ParameterSpec.SHA384, 'SHA-512': MGF1ParameterSpec.SHA512}[pad._mgf._algorithm.java_name]
    c = Cipher.getInstance('RSA/ECB/OAEPPadding')
    c.init(mode, key, OAEPParameterSpec(h, 'MGF1', spec, PSource.PSpecified.DEFAULT))
    return c

class RSAPublicKey(object):
    def __init__(self, key):
        self._key = key
    def public_bytes(self, encoding, format):
        assert encoding == Encoding.PEM and format == PublicFormat.SubjectPublicKeyInfo
        return _pem('PUBLIC KEY', pbytes(self._key.getEncoded()))
    def encrypt(self, plaintext, pad):
        from java.lang import Exception as JException
        try:
            return pbytes(_cipher(Cipher.ENCRYPT_MODE, self._key, pad).doFinal(jbytes(plaintext)))
        except JException as e:
            raise ValueError('Encryption failed: %s' % e)

class RSAPrivateKey(object):
    def __init__(self, key):
        self._key = key
    def public_key(self):
        f = KeyFactory.getInstance('RSA')
        return RSAPublicKey(f.generatePublic(RSAPublicKeySpec(
            self._key.getModulus(), self._key.getPublicExponent())))
    def private_bytes(self, encoding, format, encryption_algorithm):
        return _pem('PRIVATE KEY', pbytes(self._key.getEncoded()))
    def decrypt(self, ciphertext, pad):
        from java.lang import Exception as JException
        try:
            return pbytes(_cipher(Cipher.DECRYPT_MODE, self._key, pad).doFinal(jbytes(ciphertext)))
        except JException as e:
            raise ValueError('Decryption failed.')

def load_pem_private_key(data, password, backend=None):
    from java.lang import Exception as JException
    der = _unpem(data, 'PRIVATE KEY')
    try:
        return RSAPrivateKey(KeyFactory.getInstance('RSA').generatePrivate(PKCS8EncodedKeySpec(jbytes(der))))
    except JException as e:
        raise ValueError('Could not deserialize key data.')

def load_pem_public_key(data, backend=None):
    from java.lang import Exception as JException
    der = _unpem(data, 'PUBLIC KEY')
    try:
        return RSAPublicKey(KeyFactory.getInstance('RSA').generatePublic(X509EncodedKeySpec(jbytes(der))))
    except JException as e:
        raise ValueError('Could not deserialize key data.')
