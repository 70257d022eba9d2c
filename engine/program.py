"""Source model: modules, classes and functions read from the working tree."""
import ast
import os


class Unloadable(Exception):
    """a module of the package raises while it is imported"""
    def __init__(self, text, locs):
        Exception.__init__(self, text)
        self.locs = locs


class AnchorError(Exception):
    """a construct a rule is anchored at does not exist any more"""


class ModuleInfo:
    def __init__(self, name, path, tree, is_pkg):
        self.name = name
        self.path = path
        self.tree = tree
        self.is_pkg = is_pkg

    def __repr__(self):
        return '<module %s>' % self.name


class FuncInfo:
    """a function definition (or lambda) together with its closure frame"""
    def __init__(self, node, module, qualname, cls=None, frame=None):
        self.node = node
        self.module = module
        self.qualname = qualname
        self.name = getattr(node, 'name', '<lambda>')
        self.cls = cls
        self.frame = frame
        self.defaults = []
        self.kw_defaults = []
        self.is_gen = False if isinstance(node, ast.Lambda) else has_yield(node)
        self.key = (module.name, qualname)

    def __repr__(self):
        return '<fn %s.%s>' % (self.module.name, self.qualname)


class ClassInfo:
    def __init__(self, name, module, node, bases):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases          # ClassInfo or str (external dotted name)
        self.members = []           # enum members, in order
        self.fields = []            # dataclass / pydantic: (name, annotation, has_default)
        self.is_enum = self._has('enum.')
        self.is_pydantic = self._has('pydantic.')
        self.is_dataclass = any(isinstance(b, ClassInfo) and b.is_dataclass for b in bases)
        self.is_namedtuple = self._has('typing.NamedTuple')
        self.frozen_dataclass = False
        self._assigned = None

    def _has(self, prefix):
        for b in self.bases:
            if isinstance(b, str) and b.startswith(prefix):
                return True
            if isinstance(b, ClassInfo) and b._has(prefix):
                return True
        return False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for x in b.mro():
                    if x in out:
                        out.remove(x)
                    out.append(x)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if isinstance(b, str)]
        return out

    def is_sub(self, other):
        return other in self.mro()

    def assigned(self):
        """attribute names assigned through self in the class's methods"""
        if self._assigned is None:
            r = set()
            for c in self.mro():
                for f in ast.walk(c.node):
                    if isinstance(f, (ast.FunctionDef,)) and f.args.args:
                        s = f.args.args[0].arg
                        for n in ast.walk(f):
                            if (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and
                                    isinstance(n.value, ast.Name) and n.value.id == s):
                                r.add(n.attr)
            self._assigned = r
        return self._assigned

    def __repr__(self):
        return '<class %s>' % self.name


def has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Program:
    def __init__(self, root, package='pysim'):
        self.root = root
        self.package = package
        self.modules = {}
        self._attrs = None
        self.index = {}
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '__pycache__')))
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)[:-3].split(os.sep)
                    is_pkg = rel[-1] == '__init__'
                    if is_pkg:
                        rel = rel[:-1]
                    self.index['.'.join(rel)] = (p, is_pkg)
        # namespace packages
        for name in list(self.index):
            parts = name.split('.')
            for i in range(1, len(parts)):
                self.index.setdefault('.'.join(parts[:i]), (None, True))

    def has(self, name):
        return name in self.index

    def names_attr(self, name):
        """does any class of the package give its objects or itself an attribute of the name?"""
        if self._attrs is None:
            r = set()
            for n, (p, _) in self.index.items():
                if p and n.split('.')[0] == self.package:
                    for c in ast.walk(self.module(n).tree):
                        if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Store):
                            r.add(c.attr)
                        elif isinstance(c, ast.ClassDef):
                            for x in c.body:
                                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                                    r.add(x.name)
                                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                                    r.add(x.target.id)
                                elif isinstance(x, ast.Assign):
                                    r |= {t.id for t in x.targets if isinstance(t, ast.Name)}
            self._attrs = r
        return name in self._attrs

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            if name not in self.index:
                raise AnchorError('module %s does not exist' % name)
            path, is_pkg = self.index[name]
            src = ''
            if path:
                with open(path, encoding='utf-8') as f:
                    src = f.read()
            m = ModuleInfo(name, path or name, ast.parse(src, path or name), is_pkg)
            self.modules[name] = m
        return m

    def add_module(self, name, path):
        with open(path, encoding='utf-8') as f:
            src = f.read()
        m = ModuleInfo(name, path, ast.parse(src, path), False)
        self.modules[name] = m
        self.index[name] = (path, False)
        return m

    def submodules(self, pkg):
        pre = pkg + '.'
        return sorted({n[len(pre):].split('.')[0] for n in self.index if n.startswith(pre)})
