
class HashAlgorithm(object):
    pass
def _make(pyname, jname, hmacname, size, block):
    class _H(HashAlgorithm):
        name = pyname
        digest_size = size
        block_size = block
        java_name = jname
        java_hmac = hmacname
    _H.__name__ = pyname.upper()
    return _H
SHA1 = _make('sha1', 'SHA-1', 'HmacSHA1', 20, 64)
SHA224 = _make('sha224', 'SHA-224', 'HmacSHA224', 28, 64)
SHA256 = _make('sha256', 'SHA-256', 'HmacSHA256', 32, 64)
SHA384 = _make('sha384', 'SHA-384', 'HmacSHA384', 48, 128)
SHA512 = _make('sha512', 'SHA-512', 'HmacSHA512', 64, 128)
