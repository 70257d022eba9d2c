"""S07, whole package: nothing that outlives a run is written by running a model.

1. Write effects: all rules of all properties are interpreted again with a monitor on the abstract heap; a write to a class,
   a module or an object made while a package module was imported (class attribute values, default arguments, enumeration
   members, singletons) is a violation.
2. Syntax-tree rule over every function of the package, also those no rule reaches: `global` writes, writes to or mutation
   of module-level or class-level values, mutated default arguments, enumeration members that change themselves.
Functions called at import time only (model discovery) are exempt."""
import ast
import os
import time

from engine.cases import Finding, Runner

MUTATORS = {'append', 'add', 'update', 'pop', 'clear', 'extend', 'insert', 'remove', 'setdefault', 'popitem', 'discard',
            'sort', 'reverse', 'appendleft', 'popleft', 'extendleft', '__setitem__', '__delitem__', 'push', 'rotate',
            'intersection_update', 'difference_update', 'symmetric_difference_update', 'fill', 'put'}
MAKERS = {'list', 'dict', 'set', 'bytearray', 'deque', 'defaultdict', 'OrderedDict', 'Counter', 'count', 'cycle', 'iter',
          'array', 'zeros', 'ones', 'asarray', 'SimpleNamespace', 'Queue'}


def mutable(e):
    """kind of a value that can change, or None"""
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
        return 'display'
    if isinstance(e, ast.Call):
        f = e.func
        n = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        if n in MAKERS:
            return 'call'
    return None


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.values = {}       # module-level name -> value expression
        self.classes = {}      # name -> ClassDef
        self.imports = {}      # local name -> (module, name or None)
        self.functions = {}    # name -> FunctionDef
        for s in self.flat(tree.body):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.values[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.values[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[s.name] = s
        pkg = name.split('.')
        for s in ast.walk(tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ''
                if s.level:
                    up = pkg if path.endswith('__init__.py') else pkg[:-1]
                    up = up[:len(up) - (s.level - 1)]
                    base = '.'.join(up + ([base] if base else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = (base, a.name)

    def flat(self, body):
        for s in body:
            if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from self.flat(getattr(s, f, []))
                for h in getattr(s, 'handlers', []):
                    yield from self.flat(h.body)
            else:
                yield s


class Lint:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.findings = []
        self.functions = 0
        self.sites = 0
        for d, dirs, files in os.walk(os.path.join(root, 'pysim')):
            dirs[:] = [x for x in dirs if not x.startswith(('.', '__'))]
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    parts = os.path.relpath(p, root)[:-3].split(os.sep)
                    if parts[-1] == '__init__':
                        parts = parts[:-1]
                    n = '.'.join(parts)
                    self.mods[n] = Module(n, p, ast.parse(open(p, encoding='utf-8').read(), p))

    # -- resolution --------------------------------------------------------
    def resolve(self, mod, e, local, alias, depth=0):
        """('class', module, ClassDef) | ('module', module) | ('value', module, name, expr) | ('classvalue', ...) | None"""
        if depth > 5:
            return None
        if isinstance(e, ast.Name):
            if e.id in alias:
                return self.resolve(mod, alias[e.id], local - {e.id}, {k: v for k, v in alias.items() if k != e.id}, depth + 1)
            if e.id in local:
                return None
            return self.top(mod, e.id, depth)
        if isinstance(e, ast.Attribute):
            if (isinstance(e.value, ast.Name) and e.value.id == 'self' and e.attr == '__class__'):
                return ('cls',)
            b = self.resolve(mod, e.value, local, alias, depth + 1)
            if b is None:
                return None
            if b[0] == 'module':
                return self.top(b[1], e.attr, depth + 1)
            if b[0] == 'class':
                v = self.class_value(b[1], b[2], e.attr)
                return v
        if isinstance(e, ast.Subscript):
            b = self.resolve(mod, e.value, local, alias, depth + 1)
            return b if b and b[0] in ('value', 'classvalue') else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
            return ('cls',)
        return None

    def top(self, mod, name, depth=0):
        if depth > 5 or mod is None:
            return None
        if name in mod.values:
            return ('value', mod, name, mod.values[name])
        if name in mod.classes:
            return ('class', mod, mod.classes[name])
        if name in mod.imports:
            m, n = mod.imports[name]
            if n is None:
                return ('module', self.mods[m]) if m in self.mods else None
            if m + '.' + n in self.mods:
                return ('module', self.mods[m + '.' + n])
            if m in self.mods:
                return self.top(self.mods[m], n, depth + 1)
        return None

    def bases(self, mod, c):
        out = [(mod, c)]
        for b in c.bases:
            r = self.resolve(mod, b, set(), {})
            if r and r[0] == 'class' and r[2] is not c:
                out += self.bases(r[1], r[2])
        return out

    def class_value(self, mod, c, name):
        for m, k in self.bases(mod, c):
            for s in k.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return ('classvalue', m, k.name + '.' + name, s.value)
                if (isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name) and
                        s.target.id == name):
                    return ('classvalue', m, k.name + '.' + name, s.value)
        return None

    def own_attrs(self, mod, c):
        """attributes given to instances"""
        r = set()
        for m, k in self.bases(mod, c):
            dataclass = any('dataclass' in ast.dump(d) for d in k.decorator_list)
            pyd = any('BaseModel' in ast.dump(b) or 'NamedTuple' in ast.dump(b) for b in k.bases)
            for s in k.body:
                if (dataclass or pyd) and isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    r.add(s.target.id)
                if isinstance(s, ast.FunctionDef) and s.args.args:
                    me = s.args.args[0].arg
                    if any(getattr(d, 'id', '') in ('classmethod', 'staticmethod') for d in s.decorator_list):
                        continue
                    for n in ast.walk(s):
                        if (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)
                                and n.value.id == me):
                            r.add(n.attr)
        return r

    # -- functions called while importing ----------------------------------
    def import_only(self):
        called_top, called_run = set(), set()
        for mod in self.mods.values():
            runtime = []
            for n in ast.walk(mod.tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    runtime.append(n)
            top = []
            todo = list(mod.tree.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, ast.If) and '__name__' in ast.unparse(n.test):
                    continue
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    top.append(n.func.id)
                todo.extend(ast.iter_child_nodes(n))
            for t in top:
                if t in mod.functions:
                    called_top.add((mod.name, t))
            for f in runtime:
                for n in ast.walk(f):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in mod.functions and \
                            mod.functions[n.id] is not f:
                        called_run.add((mod.name, n.id))
            for k, (m, n) in mod.imports.items():
                if n and m in self.mods and n in self.mods[m].functions:
                    called_run.add((m, n))
        out = called_top - called_run
        # helpers called only from those
        again = True
        while again:
            again = False
            for mod in self.mods.values():
                for n, f in mod.functions.items():
                    if (mod.name, n) in out:
                        continue
                    users = [g for g in ast.walk(mod.tree) if isinstance(g, ast.FunctionDef) and g is not f and any(
                        isinstance(x, ast.Name) and x.id == n for x in ast.walk(g))]
                    imported = any((m, k) == (mod.name, n) for o in self.mods.values() for m, k in o.imports.values())
                    if users and not imported and all((mod.name, u.name) in out for u in users):
                        out.add((mod.name, n))
                        again = True
        return out

    # -- the rule ----------------------------------------------------------
    def report(self, mod, node, fn, text):
        self.findings.append((os.path.relpath(mod.path, self.root), node.lineno, fn, text))

    def run(self):
        skip = self.import_only()
        for mod in self.mods.values():
            self.body(mod, mod.tree.body, None, '', skip)

    def body(self, mod, stmts, cls, prefix, skip):
        for s in stmts:
            if isinstance(s, ast.ClassDef):
                self.singletons(mod, s, prefix + s.name)
                self.body(mod, s.body, s, prefix + s.name + '.', skip)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if cls is None and not prefix and (mod.name, s.name) in skip:
                    continue
                self.function(mod, s, cls, prefix + s.name)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for f in ('body', 'orelse', 'finalbody'):
                    self.body(mod, getattr(s, f, []), cls, prefix, skip)

    def singletons(self, mod, c, qual):
        """members of enumerations, and objects their members hold, never change"""
        if not any('Enum' in ast.unparse(b) or 'Flag' in ast.unparse(b) for b in c.bases):
            return
        todo = [(mod, c)]
        for s in c.body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call):
                r = self.resolve(mod, s.value.func, set(), {})
                if r and r[0] == 'class':
                    todo += self.bases(r[1], r[2])
        for m, k in todo:
            for f in k.body:
                if not isinstance(f, ast.FunctionDef) or f.name in ('__init__', '__new__') or not f.args.args:
                    continue
                me = f.args.args[0].arg
                for n in ast.walk(f):
                    t = None
                    if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        t = n.value
                        if isinstance(n, ast.Subscript) and isinstance(t, ast.Attribute):
                            t = t.value
                    elif (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and
                          isinstance(n.func.value, ast.Attribute)):
                        t = n.func.value.value
                    if isinstance(t, ast.Name) and t.id == me:
                        self.report(m, n, k.name + '.' + f.name,
                                    'changes itself, but is shared by all runs as a member of %s' % qual)

    def function(self, mod, fn, cls, qual):
        self.functions += 1
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        globs = set()
        local = set(names)
        single = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Global):
                globs |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                local.add(n.id)
                single[n.id] = single.get(n.id, 0) + 1
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
                local.add(n.name)
            elif isinstance(n, ast.arg):
                local.add(n.arg)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                pass
        local -= globs
        alias = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = n.targets[0].id
                if single.get(t) == 1 and t not in names and isinstance(n.value, (ast.Name, ast.Attribute)):
                    alias[t] = n.value
        classm = any(getattr(d, 'id', '') == 'classmethod' for d in fn.decorator_list)
        me = a.args[0].arg if cls is not None and a.args and not any(
            getattr(d, 'id', '') == 'staticmethod' for d in fn.decorator_list) else None
        own = self.own_attrs(mod, cls) if cls is not None else set()
        only_class = fn.name == '__init_subclass__'

        def target(e):
            """what shared thing an expression denotes, or None"""
            r = self.resolve(mod, e, local, alias)
            if r is not None and r[0] in ('value', 'classvalue'):
                if mutable(r[3]) or (isinstance(r[3], ast.Call)):
                    return '%s of %s' % (r[2], r[1].name)
                return None
            if isinstance(e, ast.Name) and e.id in alias:
                e = alias[e.id]
            if isinstance(e, ast.Subscript):
                return target(e.value)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == me and cls is not None:
                if classm or e.attr not in own:
                    v = self.class_value(mod, cls, e.attr)
                    if v is not None and mutable(v[3]):
                        return 'class attribute %s' % v[2]
            if isinstance(e, ast.Attribute):
                b = self.resolve(mod, e.value, local, alias)
                if b is not None and b[0] == 'cls' and cls is not None:
                    v = self.class_value(mod, cls, e.attr)
                    if v is not None and mutable(v[3]):
                        return 'class attribute %s' % v[2]
            return None

        def owner(e):
            """class, module or shared object whose attribute is written"""
            if isinstance(e, ast.Name) and classm and e.id == me:
                return 'class %s' % cls.name
            r = self.resolve(mod, e, local, alias)
            if r is None:
                return None
            if r[0] == 'cls':
                return 'class of self'
            if r[0] == 'class':
                return 'class %s' % r[2].name
            if r[0] == 'module':
                return 'module %s' % r[1].name
            if r[0] in ('value', 'classvalue') and isinstance(r[3], ast.Call):
                return '%s of %s' % (r[2], r[1].name)
            return None

        defaults = {}
        for x, d in list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None and (mutable(d) or self.shared_default(mod, d)):
                defaults[x.arg] = d
        for p in list(defaults):
            if single.get(p):
                del defaults[p]
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in globs:
                self.sites += 1
                self.report(mod, n, qual, 'rebinds the module-level name %s' % n.id)
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.sites += 1
                if isinstance(n, ast.Attribute):
                    w = owner(n.value)
                else:
                    w = target(n.value)
                if w:
                    self.report(mod, n, qual, 'writes to %s (shared by all runs)' % w)
                root = n.value
                if isinstance(root, ast.Name) and root.id in defaults:
                    self.report(mod, n, qual, 'writes to the default argument %s' % root.id)
            elif isinstance(n, ast.AugAssign):
                w = target(n.target) if isinstance(n.target, (ast.Attribute,)) and not (
                    isinstance(n.target.value, ast.Name) and n.target.value.id == me and not mutable_attr(self, mod, cls, n.target.attr, own)) else None
                if w:
                    self.report(mod, n, qual, 'changes %s in place (shared by all runs)' % w)
                if isinstance(n.target, ast.Name) and n.target.id in defaults:
                    self.report(mod, n, qual, 'changes the default argument %s' % n.target.id)
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    self.sites += 1
                    w = target(f.value)
                    if w:
                        self.report(mod, n, qual, '%s() changes %s (shared by all runs)' % (f.attr, w))
                    if isinstance(f.value, ast.Name) and f.value.id in defaults:
                        self.report(mod, n, qual, '%s() changes the default argument %s' % (f.attr, f.value.id))
                elif isinstance(f, ast.Name) and f.id == 'next' and n.args:
                    w = target(n.args[0])
                    if w:
                        self.report(mod, n, qual, 'next() advances %s (shared by all runs)' % w)
                    if isinstance(n.args[0], ast.Name) and n.args[0].id in defaults:
                        self.report(mod, n, qual, 'next() advances the default argument %s' % n.args[0].id)
                elif isinstance(f, ast.Name) and f.id in ('setattr', 'delattr') and n.args:
                    w = owner(n.args[0])
                    if w:
                        self.report(mod, n, qual, '%s() writes to %s (shared by all runs)' % (f.id, w))
                elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'heapq' and n.args:
                    w = target(n.args[0])
                    if w:
                        self.report(mod, n, qual, '%s() changes %s (shared by all runs)' % (f.attr, w))
        # a default argument stored in an object whose attribute is changed somewhere
        if cls is not None and defaults:
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in defaults:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                            if self.changed_attr(mod, cls, t.attr):
                                self.report(mod, n, qual, 'keeps the default argument %s, which is changed later' % n.value.id)

    def shared_default(self, mod, d):
        if isinstance(d, ast.Call):
            r = self.resolve(mod, d.func, set(), {})
            return bool(r and r[0] == 'class')
        return False

    def changed_attr(self, mod, cls, attr):
        for m, k in self.bases(mod, cls):
            for n in ast.walk(k):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    t = n.func.value
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    t = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args:
                    t = n.args[0]
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute):
                    t = n.value
                else:
                    continue
                if isinstance(t, ast.Attribute) and t.attr == attr:
                    return True
        return False


def mutable_attr(lint, mod, cls, attr, own):
    if cls is None:
        return False
    v = lint.class_value(mod, cls, attr)
    # self.x += [..] changes a class-level list in place before binding it
    return v is not None and isinstance(v[3], (ast.List, ast.Set, ast.Dict))


def check(r):
    lint = Lint(r.root)
    lint.run()
    for path, line, fn, text in lint.findings:
        r.findings.append(Finding('shared_state', '%s_%s' % (fn, text.split(' (')[0].replace(' ', '_')),
                                  ['%s:%d %s' % (path, line, fn)], 'any run', '%s %s' % (fn, text),
                                  'running a model writes to objects of its own run only'))
    # write effects over all rules
    done, writes = [], {}
    specs = sorted(f[:-3] for f in os.listdir(os.path.join(r.here, 'spec')) if f.endswith('.py'))
    for i in specs:
        if i in ('base', 'refsim', 'S07', 'ping', 'worlds', 'tagchain', 'epcref', 'rfid'):
            continue
        if time.time() > r.deadline:
            r.undecided.append(('write effects', 'time is up before the rules of ' + i))
            continue
        q = Runner(r.root, r.here)
        q.monitor = True
        q.tier = r.tier
        q.deadline = r.deadline
        try:
            q.run(i)
        except Exception as e:
            r.undecided.append(('write effects', 'rules of %s: %s' % (i, e)))
            continue
        for k, n in q.m.visited_fns.items():
            r.m.visited_fns[k] = r.m.visited_fns.get(k, 0) + n
        done.append((i, len(q.cases)))
        for k, (locs, rules) in q.shared.items():
            writes.setdefault(k, (set(), []))
            writes[k][0].update(locs)
            writes[k][1].extend('%s %s' % (i, x) for x in rules)
    for (who, attr), (locs, rules) in sorted(writes.items(), key=lambda t: str(t[0])):
        r.findings.append(Finding('write_effects', '%s_%s' % (who.replace(' ', '_'), attr),
                                  [str(l) for l in sorted(locs, key=str)], 'in rule ' + rules[0],
                                  '%s: %s is written while a model runs' % (who, attr),
                                  'running a model writes to objects of its own run only'))
    r.extra_coverage['lint'] = {'functions': lint.functions, 'write_sites': lint.sites, 'modules': len(lint.mods),
                                'findings': len(lint.findings)}
    r.extra_coverage['write_effects'] = {'rules_interpreted': dict(done), 'writes_to_shared_state': len(writes)}
