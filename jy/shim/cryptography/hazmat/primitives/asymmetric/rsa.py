
from java.security import KeyPairGenerator
from java.security.spec import RSAKeyGenParameterSpec
from java.math import BigInteger

def generate_private_key(public_exponent, key_size, backend=None):
    from cryptography.hazmat.primitives import serialization as s
    g = KeyPairGenerator.getInstance('RSA')
    g.initialize(RSAKeyGenParameterSpec(key_size, BigInteger.valueOf(public_exponent)))
    kp = g.generateKeyPair()
    return s.RSAPrivateKey(kp.getPrivate())
