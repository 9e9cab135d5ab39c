CRITICAL = FATAL = 50
ERROR = 40
WARNING = WARN = 30
INFO = 20
DEBUG = 10
NOTSET = 0


class Logger:
    level = 0

    def debug(self, *a, **kw):
        pass

    info = warning = warn = error = exception = critical = fatal = debug

    def log(self, *a, **kw):
        pass

    def isEnabledFor(self, l):
        return True

    def setLevel(self, l):
        pass

    def addHandler(self, h):
        pass

    def getChild(self, n):
        return self


class Handler:
    pass


class NullHandler(Handler):
    pass


class LoggerAdapter(Logger):
    def __init__(self, *a, **kw):
        pass


_L = Logger()


def getLogger(name=None):
    return _L


debug = info = warning = warn = error = exception = critical = _L.debug
log = _L.log


def basicConfig(**kw):
    pass
