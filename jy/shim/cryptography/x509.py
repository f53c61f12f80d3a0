
'''Certificates: enough for privcount.crypto.generate_cert.'''
OID_COMMON_NAME = '2.5.4.3'
class NameAttribute(object):
    def __init__(self, oid, value):
        self.oid, self.value = oid, value
class Name(object):
    def __init__(self, attributes):
        self.attributes = list(attributes)
    def _rfc(self):
        return ','.join('CN=%s' % a.value for a in self.attributes)
class BasicConstraints(object):
    def __init__(self, ca, path_length):
        self.ca, self.path_length = ca, path_length
class Certificate(object):
    def __init__(self, der):
        self.der = der
    def public_bytes(self, encoding):
        from cryptography.hazmat.primitives.serialization import _pem
        return _pem('CERTIFICATE', self.der)
class CertificateBuilder(object):
    def __init__(self):
        self._v = {}
        self._ext = []
    def _set(self, k, v):
        b = CertificateBuilder()
        b._v = dict(self._v, **{k: v})
        b._ext = list(self._ext)
        return b
    def subject_name(self, n):
        return self._set('subject', n)
    def issuer_name(self, n):
        return self._set('issuer', n)
    def not_valid_before(self, d):
        return self._set('before', d)
    def not_valid_after(self, d):
        return self._set('after', d)
    def serial_number(self, n):
        return self._set('serial', n)
    def public_key(self, k):
        return self._set('key', k)
    def add_extension(self, e, critical):
        b = self._set('x', 0)
        b._ext.append((e, critical))
        return b
    def sign(self, private_key, algorithm, backend=None):
        import calendar
        from java.math import BigInteger
        from java.util import Date
        from org.bouncycastle.asn1.x500 import X500Name
        from org.bouncycastle.asn1.x509 import Extension, BasicConstraints as BC
        from org.bouncycastle.cert.jcajce import JcaX509v3CertificateBuilder
        from org.bouncycastle.operator.jcajce import JcaContentSignerBuilder
        from cryptography.hazmat.primitives.serialization import pbytes
        v = self._v
        ms = lambda d: Date(long(calendar.timegm(d.timetuple())) * 1000)
        b = JcaX509v3CertificateBuilder(X500Name(v['issuer']._rfc()), BigInteger(str(v['serial'])),
                                        ms(v['before']), ms(v['after']),
                                        X500Name(v['subject']._rfc()), v['key']._key)
        for e, critical in self._ext:
            b.addExtension(Extension.basicConstraints, critical, BC(bool(e.ca)))
        s = JcaContentSignerBuilder('SHA256withRSA').build(private_key._key)
        return Certificate(pbytes(b.build(s).getEncoded()))
