"""Model of module discovery over a fixed set of submodules."""


class ModuleInfo:
    def __init__(self, name):
        self.name = name
        self.module_finder = None
        self.ispkg = True

    def __iter__(self):
        return iter((self.module_finder, self.name, self.ispkg))


def iter_modules(path=None, prefix=''):
    return [ModuleInfo(prefix + n) for n in ('alpha', 'broken', 'beta', 'nothing', 'delta_x2', 'wrong', 'gamma', 'Eps')]
