"""Model of json: the text of a value is a function of the value."""


def flat(x):
    if isinstance(x, dict):
        return tuple([('entry', k, flat(x[k])) for k in x])
    if isinstance(x, (list, tuple)):
        return ('items', *[flat(v) for v in x])
    return x


def dumps(x, **kw):
    return term('json', flat(x), kind='str')


def dump(x, file, **kw):
    file.write(dumps(x))
