
class UnsupportedAlgorithm(Exception):
    pass
class InvalidSignature(Exception):
    pass
class InvalidKey(Exception):
    pass
