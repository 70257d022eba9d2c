"""Model of the parts of click that matter here: commands, groups, options."""


class ClickException(Exception):
    pass


class UsageError(ClickException):
    pass


class BadParameter(UsageError):
    pass


class BadOptionUsage(UsageError):
    pass


class Param:
    def __init__(self, decls, attrs):
        self.decls = decls
        self.attrs = attrs
        name = None
        best = ''
        for d in decls:
            if d.startswith('--'):
                d = d.split('/')[0]
                if not best.startswith('--'):
                    best = d
            elif d.startswith('-'):
                if not best:
                    best = d
            else:
                name = d
        if name is None:
            name = best.lstrip('-').replace('-', '_').lower()
        self.name = name

    def default(self):
        """the value without the option"""
        if 'default' in self.attrs and self.attrs['default'] is not None:
            d = self.attrs['default']
            if self.flag():
                return d
            if self.multiple():
                return tuple([self.one(x) for x in d])
            return self.one(d)
        if self.flag():
            return False
        if self.multiple():
            return ()
        if self.attrs.get('required', False):
            raise UsageError('missing')
        return None

    def flag(self):
        return self.attrs.get('is_flag', False)

    def multiple(self):
        return self.attrs.get('multiple', False)

    def nargs(self):
        n = self.attrs.get('nargs')
        if n is None:
            t = self.type()
            return len(t.types) if isinstance(t, Tuple) else 1
        return n

    def type(self):
        t = self.attrs.get('type')
        if t is None:
            return guess(self.attrs.get('default'))
        return kind_of(t)

    def one(self, value):
        """convert one value, or as many as the option takes"""
        t = self.type()
        if isinstance(t, Tuple):
            if len(value) != len(t.types):
                raise BadParameter('number of values')
            return t.convert(value)
        if self.nargs() == 1:
            return t.convert(value)
        if len(value) != self.nargs():
            raise BadParameter('number of values')
        return tuple([t.convert(x) for x in value])


def guess(default):
    """the type of an option that has only a default"""
    if default is None:
        return STRING
    if isinstance(default, (tuple, list)):
        if len(default) == 0:
            return STRING
        first = default[0]
        if isinstance(first, (tuple, list)):
            return Tuple([type_of(x) for x in first])
        return type_of(first)
    return type_of(default)


def type_of(x):
    if isinstance(x, bool):
        return BOOL
    if isinstance(x, (int, float)):
        return NUMBER       # 10 and 10.0 are not told apart here
    return STRING


def kind_of(t):
    if isinstance(t, Type):
        return t
    if isinstance(t, (tuple, list)):
        return Tuple(t)
    if t is int:
        return INT
    if t is float:
        return FLOAT
    if t is bool:
        return BOOL
    return STRING


class Pending:
    """a function with options, not yet a command"""
    def __init__(self, fn, params):
        self.callback = fn
        self.params = params

    def __call__(self, *args, **kw):
        return self.callback(*args, **kw)


class Command:
    def __init__(self, name=None, callback=None, params=None, **attrs):
        self.name = name
        self.callback = callback
        self.params = params if params is not None else []

    def run_with(self, words):
        """what an invocation with these words on the command line does"""
        given = {}
        i = 0
        while i < len(words):
            p = self.find(words[i])
            i = i + 1
            if p.flag():
                given[p.name] = [not p.attrs.get('default', False)]
                continue
            n = p.nargs()
            if i + n > len(words):
                raise BadOptionUsage('too few values')
            if n == 1 and not isinstance(p.type(), Tuple):
                value = words[i]
            else:
                value = tuple(words[i:i + n])
            i = i + n
            if p.name in given:
                given[p.name] = given[p.name] + [value]
            else:
                given[p.name] = [value]
        kw = {}
        for p in self.params:
            if p.name not in given:
                kw[p.name] = p.default()
            elif p.flag():
                kw[p.name] = given[p.name][0]
            elif p.multiple():
                kw[p.name] = tuple([p.one(v) for v in given[p.name]])
            else:
                kw[p.name] = p.one(given[p.name][-1])
        return self.callback(**kw)

    def find(self, word):
        for p in self.params:
            for d in p.decls:
                if word in d.split('/'):
                    return p
        raise UsageError('no such option')

    def __call__(self, *args, **kw):
        emit('command line started')


class Group(Command):
    def __init__(self, name=None, callback=None, params=None, commands=None, **attrs):
        Command.__init__(self, name, callback, params)
        self.commands = {}

    def add_command(self, cmd, name=None):
        if not isinstance(cmd, Command):
            raise TypeError()
        key = name or cmd.name
        self.commands[key] = cmd

    def command(self, name=None, *args, **attrs):
        def deco(f):
            n = None if callable(name) else name
            cmd = make(Command, n, f, attrs)
            self.add_command(cmd)
            return cmd
        if callable(name):
            return deco(name)
        return deco

    def group(self, name=None, *args, **attrs):
        def deco(f):
            n = None if callable(name) else name
            cmd = make(Group, n, f, attrs)
            self.add_command(cmd)
            return cmd
        if callable(name):
            return deco(name)
        return deco


MultiCommand = Group


def make(cls, name, f, attrs):
    params = []
    if isinstance(f, Pending):
        params = f.params
        f = f.callback
    return cls(name or f.__name__.lower().replace('_', '-'), f, params)


def command(name=None, cls=None, **attrs):
    if callable(name):
        return make(cls or Command, None, name, attrs)

    def deco(f):
        return make(cls or Command, name, f, attrs)
    return deco


def group(name=None, cls=None, **attrs):
    if callable(name):
        return make(cls or Group, None, name, attrs)

    def deco(f):
        return make(cls or Group, name, f, attrs)
    return deco


def option(*decls, **attrs):
    def deco(f):
        p = Param(decls, attrs)
        if isinstance(f, (Pending, Command)):
            f.params.append(p)
            return f
        return Pending(f, [p])
    return deco


def argument(*decls, **attrs):
    return option(*decls, **attrs)


class Type:
    def __init__(self, *args, **kw):
        self.args = args

    def convert(self, value):
        return value


class Text(Type):
    def convert(self, value):
        return str(value)


class Whole(Type):
    def convert(self, value):
        return int(value)


class Real(Type):
    def convert(self, value):
        return float(value)


class Logical(Type):
    def convert(self, value):
        if isinstance(value, str):
            if value.lower() in ('true', '1', 'yes', 'on', 't', 'y'):
                return True
            if value.lower() in ('false', '0', 'no', 'off', 'f', 'n'):
                return False
            raise BadParameter('no logical value')
        return bool(value)


class Choice(Type):
    def __init__(self, choices, case_sensitive=True):
        self.choices = choices
        self.case_sensitive = case_sensitive

    def convert(self, value):
        for c in self.choices:
            if value == c or not self.case_sensitive and value.lower() == c.lower():
                return c
        raise BadParameter('not offered')


class Tuple(Type):
    def __init__(self, types):
        self.types = [kind_of(t) for t in types]

    def convert(self, value):
        return tuple([t.convert(x) for t, x in zip(self.types, value)])


class IntRange(Whole):
    pass


class FloatRange(Real):
    pass


class Path(Text):
    pass


INT = Whole()
FLOAT = NUMBER = Real()
STRING = Text()
BOOL = Logical()


def echo(message=None, **kw):
    print(message)


def secho(message=None, **kw):
    print(message)
