
class MGF1(object):
    def __init__(self, algorithm):
        self._algorithm = algorithm
class OAEP(object):
    def __init__(self, mgf, algorithm, label):
        self._mgf = mgf
        self._algorithm = algorithm
        self._label = label
