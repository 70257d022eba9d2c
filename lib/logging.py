"""Model of the parts of the standard logging library that matter here."""
CRITICAL = 50
FATAL = 50
ERROR = 40
WARNING = 30
WARN = 30
INFO = 20
DEBUG = 10
NOTSET = 0

_names = {50: 'CRITICAL', 40: 'ERROR', 30: 'WARNING', 20: 'INFO', 10: 'DEBUG', 0: 'NOTSET'}
_loggers = {}


def getLevelName(level):
    return _names.get(level, level)


def getLogger(name=None):
    if name not in _loggers:
        _loggers[name] = Logger(name)
    return _loggers[name]


class Filterer:
    def __init__(self):
        self.filters = []

    def addFilter(self, f):
        self.filters.append(f)


class Handler(Filterer):
    def __init__(self, level=NOTSET):
        self.filters = []
        self.level = level
        self.formatter = None

    def setLevel(self, level):
        self.level = level

    def setFormatter(self, fmt):
        self.formatter = fmt

    def close(self):
        pass

    def flush(self):
        pass


class StreamHandler(Handler):
    def __init__(self, stream=None):
        Handler.__init__(self)
        self.stream = stream


class FileHandler(StreamHandler):
    def __init__(self, filename, mode='a', encoding=None, delay=False, errors=None):
        Handler.__init__(self)
        self.baseFilename = filename
        self.mode = mode


class NullHandler(Handler):
    pass


class Formatter:
    def __init__(self, fmt=None, datefmt=None, style='%', validate=True, defaults=None):
        self._fmt = fmt
        self.datefmt = datefmt
        self._style = style

    def format(self, record):
        return term('formatted', self._fmt, self._style, record)


class Logger(Filterer):
    def __init__(self, name, level=NOTSET):
        self.filters = []
        self.name = name
        self.level = level
        self.handlers = []
        self.propagate = True
        self.disabled = False
        self.ignored = ()      # levels a rule does not look at

    def setLevel(self, level):
        self.level = level

    def addHandler(self, h):
        if h not in self.handlers:
            self.handlers.append(h)

    def removeHandler(self, h):
        if h in self.handlers:
            self.handlers.remove(h)

    def hasHandlers(self):
        return bool(self.handlers) or term('root has handlers', kind='bool')

    def isEnabledFor(self, level):
        return term('enabled', self.name, level, kind='bool')

    def getEffectiveLevel(self):
        return self.level

    def _log(self, level, msg, args, exc_info=None, extra=None, stack_info=False, stacklevel=1):
        if level in self.ignored:
            return
        if term('enabled', self.name, level, kind='bool'):
            emit('record', self.name, level, msg, args, exc_info, extra, stack_info, caller(1 + stacklevel))

    def debug(self, msg, *args, **kwargs):
        self._log(10, msg, args, **kwargs)

    def info(self, msg, *args, **kwargs):
        self._log(20, msg, args, **kwargs)

    def warning(self, msg, *args, **kwargs):
        self._log(30, msg, args, **kwargs)

    def warn(self, msg, *args, **kwargs):
        self._log(30, msg, args, **kwargs)

    def error(self, msg, *args, **kwargs):
        self._log(40, msg, args, **kwargs)

    def critical(self, msg, *args, **kwargs):
        self._log(50, msg, args, **kwargs)

    def fatal(self, msg, *args, **kwargs):
        self._log(50, msg, args, **kwargs)

    def exception(self, msg, *args, exc_info=True, **kwargs):
        self._log(40, msg, args, exc_info=exc_info, **kwargs)

    def log(self, level, msg, *args, **kwargs):
        self._log(level, msg, args, **kwargs)


def basicConfig(**kw):
    pass


def disable(level=CRITICAL):
    emit('logging disabled', level)


def shutdown():
    pass
