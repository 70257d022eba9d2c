"""Abstract interpreter over the Python syntax tree.

Both branches of every conditional are evaluated once and joined with gated
values (no path enumeration, no solver); repository calls are followed through
the call graph; library calls are uninterpreted terms or models (ext.py).
"""
import ast
import builtins
from .values import *
from .state import *
from .program import *
from .gens import resumable

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
          ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&',
          ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
          '@': 'matmul', '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift'}
CMPD = {'<': ('lt', 'gt'), '<=': ('le', 'ge'), '>': ('gt', 'lt'), '>=': ('ge', 'le')}

MAXDEPTH = 60
UNROLL = 400


def is_exc_name(n):
    c = getattr(builtins, n, None)
    return isinstance(c, type) and issubclass(c, BaseException)


class WithRest(ast.stmt):
    """the body of a with statement after its first manager"""
    _fields = ()

    def __init__(self, stmt, rest):
        super().__init__()
        self.stmt, self.rest = stmt, rest


class WithExit(ast.stmt):
    """leaving a with statement"""
    _fields = ()

    def __init__(self, manager, stmt):
        super().__init__()
        self.manager, self.stmt = manager, stmt


class Interp:
    def __init__(self, program):
        self.steps = 0
        self.prog = program
        self.world = State()
        self.modstate = {}
        self.import_time = []      # (first, last, module) of objects made while importing
        self.raises = [[]]
        self.loops = []
        self.depth = 0
        self.loopdepth = 0
        self.diverged = []         # states of loops that never end
        self.speculative = 0
        self.stack = []
        self.notes = []            # constructs that were not understood
        self.visited_fns = {}      # FuncInfo.key -> number of evaluations
        self.fn_lines = {}         # FuncInfo.key -> FuncInfo
        self.class_kinds = {}      # (class name, attr) -> kind / callable
        self.attr_kinds = {}       # attr -> kind / callable (for opaque objects)
        self.intrinsics = {}
        self.model_modules = set()   # library models, see lib/
        self.call_hook = None
        self.counter = 0
        self.cur = ('?', 0, '?')
        self.sites = set()
        self.fork_mark = None

    # -- notes ------------------------------------------------------------
    def note(self, what, node=None):
        self.notes.append((what, self.loc(node)))

    def loc(self, node=None):
        f = self.stack[-1] if self.stack else None
        ln = getattr(node, 'lineno', None) or self.cur[1]
        if f is None:
            return self.cur
        return (f.module.path, ln, getattr(f.fn, 'qualname', '<module>'))

    def stands_in(self, module):
        """is it a module of the analysis, in place of a library or of the program?"""
        n = getattr(module, 'name', None)
        return n is not None and (n in self.model_modules or n.split('.')[0] == 'spec')

    def unknown(self, why, node=None, kind='any'):
        """an opaque value for a construct that is not understood"""
        self.note(why, node)
        self.counter += 1
        return leaf(app_p('?unknown', (why, self.counter), kind))

    # -- heap -------------------------------------------------------------
    def fallback(self, key):
        r = self.world.heap.get(key)
        if r is not None:
            return r
        owner, name = key
        if isinstance(owner, Frame):
            return UNDEF
        if isinstance(owner, ObjInfo):
            if owner.symbolic and not name.startswith('@'):
                return self.initial(owner, name)
            if owner.symbolic:
                return self.initial(owner, name)
            return None
        if isinstance(owner, Payload):
            return self.opaque_attr(owner, name)
        if owner == 'cnt':
            return N(0)
        if isinstance(owner, ClassInfo) or (isinstance(owner, tuple) and owner[0] == 'm'):
            return None
        return None

    def get(self, st, owner, name):
        key = (owner, name)
        r = st.heap.get(key)
        if r is None:
            r = self.fallback(key)
        return r

    def put(self, st, owner, name, v, node=None):
        key = (owner, name)
        st.heap[key] = v
        if not isinstance(owner, Frame):
            st.prov[key] = (self.loc(node),)

    def initial(self, info, name):
        r = info.init.get(name)
        if r is None:
            kind = info.kinds.get(name)
            if kind is None and isinstance(info.cls, ClassInfo):
                for c in info.cls.mro():
                    kind = self.class_kinds.get((c.name, name))
                    if kind is not None:
                        break
            if kind is None:
                kind = self.attr_kinds.get(name, 'any')
            if callable(kind):
                r = kind(self, '%s.%s' % (info.name, name))
            elif name == '@':
                r = leaf(tup_p([('s', leaf(sym_p(info.name, 'nn')))], info.cls))
            else:
                r = sym('%s.%s' % (info.name, name), kind)
            info.init[name] = r
        return r

    def opaque_attr(self, payload, name):
        kind = self.attr_kinds.get(name, 'any')
        if callable(kind):
            k = ('oa', payload, name)
            r = self.modstate.get(k)
            if r is None:
                r = self.modstate[k] = kind(self, '%s.%s' % (show_payload(payload), name))
            return r
        if kind == 'bool':
            return var(atom('b', app_p('attr', (payload, name), 'any')))
        return leaf(app_p('attr', (payload, name), kind))

    def merge(self, a, b):
        return merge2(a, b, self.fallback)

    def join(self, st, outs):
        live = [(s, v) for s, v in outs if s.pc is not FALSE]
        if not live:
            st.pc = FALSE
            return UNDEF
        s, v = live[0]
        for s2, v2 in live[1:]:
            pc = OR(s.pc, s2.pc)
            c = restrict(s.pc, pc)
            v = ite(c, v, v2)
            s = self.merge(s, s2)
        st.assign(s)
        return v

    def by_cases(self, st, node, f):
        if node.leaf is not None:
            return f(st, node.leaf)
        cs = cases(node, st.pc)
        if not cs:
            st.pc = FALSE
            return UNDEF
        if len(cs) == 1:
            return f(st, cs[0][0])
        outs = []
        for p, g in cs:
            s = st.copy()
            s.pc = g
            v = f(s, p)
            outs.append((s, v))
        return self.join(st, outs)

    # -- exceptions -------------------------------------------------------
    def do_raise(self, st, exc, guard=None):
        g = st.pc if guard is None else AND(st.pc, guard)
        if g is FALSE or not feasible(g):
            if guard is None:
                st.pc = FALSE
            return
        s = st.copy()
        s.pc = g
        self.raises[-1].append((s, exc))
        st.pc = FALSE if guard is None else AND(st.pc, NOT(guard))

    def raise_builtin(self, st, name, msg='', guard=None, node=None, gap=False):
        """gap: the error comes from a stand-in of the analysis, which knows less than what it stands for"""
        info = ObjInfo('%s#' % name, 'exc:' + name)
        st2 = st
        key = (info, 'args')
        st2.heap[key] = tup([N(msg)])
        st2.heap[(info, '@loc')] = leaf(const(repr(self.loc(node))))
        if gap:
            st2.heap[(info, '@gap')] = leaf(const(True))
        self.do_raise(st, leaf(new_obj_p(info)), guard)
        return UNDEF

    # -- modules ----------------------------------------------------------
    def ensure_module(self, name):
        if name in self.modstate:
            return
        if '.' in name:
            parent = name.rsplit('.', 1)[0]
            if self.prog.has(parent):
                self.ensure_module(parent)
                if name in self.modstate:
                    return
        m = self.prog.module(name)
        self.modstate[name] = True
        first = ObjInfo.count
        saved = (self.raises, self.loops, self.stack, self.depth, self.loopdepth)
        self.raises, self.loops, self.depth, self.loopdepth = [[]], [], 0, 0
        st = State()
        fr = Frame(None, m)
        self.stack = [fr]
        owner = ('m', name)
        st.heap[(owner, '__name__')] = N(name)
        st.heap[(owner, '__file__')] = N(m.path)
        for stmt in m.tree.body:
            if st.pc is FALSE:
                break
            try:
                self.exec_stmt(st, stmt)
            except RecursionError:
                raise
            # publish progressively, so that circular imports see names
            self.world.heap.update(st.heap)
        self.modstate[name + ':state'] = st
        self.modstate[name + ':raises'] = self.raises[0]
        self.world.heap.update(st.heap)
        self.world.prov.update(st.prov)
        self.import_time.append((first, ObjInfo.count, name))
        (self.raises, self.loops, self.stack, self.depth, self.loopdepth) = saved

    def lookup(self, modname, qual):
        """node of a module level name or Class.method (anchor)"""
        self.ensure_module(modname)
        parts = qual.split('.')
        r = self.world.heap.get((('m', modname), parts[0]))
        if r is None:
            raise AnchorError('%s.%s does not exist' % (modname, parts[0]))
        for p in parts[1:]:
            c = r.leaf
            if not isinstance(c, Cls):
                raise AnchorError('%s.%s is not a class' % (modname, qual))
            r = self.class_attr(self.world, c.cls, p)
            if r is None:
                raise AnchorError('%s.%s does not exist' % (modname, qual))
        return r

    def cls(self, modname, name):
        p = self.lookup(modname, name).leaf
        if not isinstance(p, Cls):
            raise AnchorError('%s.%s is not a class' % (modname, name))
        return p.cls

    # -- names ------------------------------------------------------------
    def frame(self):
        return self.stack[-1]

    def load_name(self, st, name, node):
        fr = self.frame()
        if isinstance(fr.fn, ClassInfo):
            v = st.heap.get((fr.fn, name))
            if v is not None:
                return v
        f = fr
        while f is not None:
            if name in f.names and name not in f.globals:
                v = st.heap.get((f, name))
                if v is None:
                    v = self.world.heap.get((f, name))
                if v is None:
                    if f is fr:
                        self.raise_builtin(st, 'UnboundLocalError', name, node=node)
                        return UNDEF
                    v = UNDEF
                if v.leaf is None:
                    u = where(v, UNDEF_P)
                    if u is not FALSE and feasible(AND(st.pc, u)):
                        self.raise_builtin(st, 'UnboundLocalError', name, guard=u, node=node)
                        v = restrict(v, NOT(u))
                elif v is UNDEF:
                    self.raise_builtin(st, 'UnboundLocalError', name, node=node)
                return v
            f = f.parent
        m = ('m', fr.module.name)
        v = st.heap.get((m, name))
        if v is None:
            v = self.world.heap.get((m, name))
        if v is not None:
            return v
        if name in self.intrinsics and (fr.module.name.startswith('spec') or fr.module.name in self.model_modules):
            return leaf(ext_p('spec.' + name))
        if hasattr(builtins, name):
            return leaf(ext_p('builtins.' + name))
        if name in ('__file__', '__name__'):
            return N(name)
        self.raise_builtin(st, 'NameError', name, node=node)
        return UNDEF

    def store_name(self, st, name, v, node=None):
        f = self.frame()
        if f.fn is None and f.parent is None and not f.names:     # module level
            st.heap[(('m', f.module.name), name)] = v
            return
        if isinstance(f.fn, ClassInfo):
            st.heap[(f.fn, name)] = v
            return
        if name in f.globals:
            self.put(st, ('m', f.module.name), name, v, node)
            return
        if name in f.nonlocals:
            g = f.parent
            while g is not None:
                if name in g.names:
                    st.heap[(g, name)] = v
                    return
                g = g.parent
        st.heap[(f, name)] = v

    # -- classes ----------------------------------------------------------
    def class_attr(self, st, cls, name, after=None):
        mro = cls.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for c in mro:
            v = st.heap.get((c, name))
            if v is None:
                v = self.world.heap.get((c, name))
            if v is not None:
                return v
        return None

    def find_class(self, name):
        for k, v in self.world.heap.items():
            if isinstance(k[0], tuple) and k[0][0] == 'm' and isinstance(v.leaf, Cls) and v.leaf.cls.name == name:
                return v.leaf.cls
        return None

    def new_instance(self, cls, name=None, symbolic=False):
        info = ObjInfo(name or '%s#%d' % (getattr(cls, 'name', cls), ObjInfo.count + 1), cls, symbolic)
        return info

    def new_container(self, st, kind, content):
        info = ObjInfo('%s#%d' % (kind, ObjInfo.count + 1), kind)
        st.heap[(info, '@')] = content
        return leaf(new_obj_p(info))

    # -- functions --------------------------------------------------------
    def make_func(self, st, node, cls=None):
        fr = self.frame()
        names = [f.fn.name for f in self.stack if isinstance(f.fn, ClassInfo)]
        inner = fr
        parent = None
        qual = getattr(node, 'name', '<lambda>')
        if isinstance(fr.fn, ClassInfo):
            qual = fr.fn.name + '.' + qual
            cls = fr.fn
            parent = fr.parent
        elif fr.fn is not None or fr.names:
            parent = fr
            if fr.fn is not None:
                qual = fr.fn.qualname + '.<locals>.' + qual
        fn = FuncInfo(node, fr.module, qual, cls, parent)
        if isinstance(parent, Frame) and parent.fn is None and not parent.names:
            fn.frame = None
        a = node.args
        fn.defaults = [self.eval(st, d) for d in a.defaults]
        fn.kw_defaults = [None if d is None else self.eval(st, d) for d in a.kw_defaults]
        return fn

    def local_names(self, fn):
        r = getattr(fn.node, '_locals', None)
        if r is None:
            names, gl, nl = set(), set(), set()
            a = fn.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(x.arg)
            for x in (a.vararg, a.kwarg):
                if x:
                    names.add(x.arg)
            body = fn.node.body if isinstance(fn.node.body, list) else [fn.node.body]
            collect_names(body, names, gl, nl)
            r = fn.node._locals = (names - gl - nl, gl, nl)
        return r

    def bind(self, st, fn, args, kwargs, node):
        """args: list of (kind, node); returns dict name -> value or None"""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        star = kwargs.pop('**', None)
        i = 0
        rest = []
        for k, v in args:
            if k == 's':
                if v.leaf is not None and isinstance(v.leaf, Tup):
                    pass
                rest.append((k, v))
                continue
            if rest or i >= len(pos):
                rest.append((k, v))
            else:
                env[pos[i]] = v
                i += 1
        if rest and any(k == 's' for k, _ in rest) and not a.vararg:
            # unknown number of positional arguments for fixed parameters
            sp = [v for k, v in rest if k == 's'][0]
            j = 0
            while i < len(pos) - len([p for p in pos[i:] if p in kwargs]):
                env[pos[i]] = self.item_of(st, sp, j)
                i += 1
                j += 1
            rest = []
        if a.vararg:
            env[a.vararg.arg] = leaf(tup_p(rest, 'tuple'))
        elif rest:
            self.raise_builtin(st, 'TypeError', 'too many arguments for %s' % fn.name, node=node, gap=self.stands_in(fn.module))
            return None
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = []
        for k, v in kwargs.items():
            if k in names:
                if k in env:
                    self.raise_builtin(st, 'TypeError', 'multiple values for %s' % k, node=node)
                    return None
                env[k] = v
            elif a.kwarg:
                extra.append((N(k), v, TRUE))
            else:
                self.raise_builtin(st, 'TypeError', 'unexpected keyword %s of %s' % (k, fn.name), node=node, gap=self.stands_in(fn.module))
                return None
        if a.kwarg:
            base = None
            if star is not None and star.leaf is not None:
                base = star.leaf
            env[a.kwarg.arg] = self.new_container(st, 'dict', leaf(map_p(extra, base)))
        nd = len(fn.defaults)
        for j, p in enumerate(pos):
            if p not in env:
                dj = j - (len(pos) - nd)
                if star is not None and not a.kwarg:
                    env[p] = leaf(app_p('get', (star, const(p)), 'any'))
                elif dj >= 0:
                    env[p] = fn.defaults[dj]
                else:
                    self.raise_builtin(st, 'TypeError', 'missing argument %s of %s' % (p, fn.name), node=node)
                    return None
        for x, d in zip(a.kwonlyargs, fn.kw_defaults):
            if x.arg not in env:
                if d is None:
                    self.raise_builtin(st, 'TypeError', 'missing argument %s of %s' % (x.arg, fn.name), node=node)
                    return None
                env[x.arg] = d
        return env

    def call_function(self, st, fn, args, kwargs, node=None):
        hook = self.call_hook
        if hook is not None:
            r = hook(st, fn, args, kwargs, node)
            if r is not None:
                return r
        if self.depth > MAXDEPTH or sum(1 for f in self.stack if f.fn is fn) > 8:
            return self.unknown('recursion limit in %s' % fn.qualname, node)
        self.visited_fns[fn.key] = self.visited_fns.get(fn.key, 0) + 1
        self.fn_lines.setdefault(fn.key, fn)
        for j, (k, v) in enumerate(args):
            if k == 's' and v.leaf is None:
                # spliced arguments of several possible lengths
                def split(s, p, j=j):
                    mid = list(p.parts) if isinstance(p, Tup) else [('s', leaf(p))]
                    return self.call_function(s, fn, list(args[:j]) + mid + list(args[j + 1:]), kwargs, node)
                return self.by_cases(st, v, split)
        env = self.bind(st, fn, args, kwargs, node)
        if env is None:
            return UNDEF
        names, gl, nl = self.local_names(fn)
        fr = Frame(fn, fn.module, fn.frame, names)
        fr.globals, fr.nonlocals = gl, nl
        for k, v in env.items():
            st.heap[(fr, k)] = v
        a = fn.node.args
        first = (a.posonlyargs + a.args)
        if first:
            fr.args0 = first[0].arg
        if fn.is_gen and resumable(fn):
            return self.make_gen(st, fn, fr)
        self.stack.append(fr)
        self.depth += 1
        saved_loops, self.loops = self.loops, []
        saved_ld = self.loopdepth
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.eval(st, fn.node.body)
                return v
            if fn.is_gen:
                ylist = self.new_container(st, 'list', leaf(tup_p([], 'list')))
                fr.ylist = ylist.leaf.oid
            self.exec_block(st, fn.node.body)
            outs = list(fr.returns)
            if st.pc is not FALSE:
                outs.append((st.copy(), NONE))
            if fn.is_gen:
                v = self.join(st, outs)
                content = st.heap[(fr.ylist, '@')]
                info = ObjInfo('gen:%s#%d' % (fn.name, ObjInfo.count), 'gen')
                st.heap[(info, '@')] = content
                st.heap[(info, 'pos')] = N(0)
                return leaf(new_obj_p(info))
            return self.join(st, outs)
        finally:
            self.stack.pop()
            self.depth -= 1
            self.loops = saved_loops
            self.loopdepth = saved_ld
            for k in [k for k in st.heap if k[0] is fr] if not fr_escapes(fn) else []:
                del st.heap[k]

    def call(self, st, f, args, kwargs=None, node=None):
        """call a node with list of nodes or (kind, node) parts"""
        args = [a if isinstance(a, tuple) else ('e', a) for a in args]
        args = flatten_args(args)
        kwargs = kwargs or {}
        return self.by_cases(st, f, lambda s, p: self.call_payload(s, p, args, kwargs, node))

    def call_payload(self, st, p, args, kwargs, node=None):
        if st.pc is FALSE:
            return UNDEF
        if isinstance(p, Func):
            return self.call_function(st, p.fn, args, kwargs, node)
        if isinstance(p, Bound):
            if isinstance(p.fn, FuncInfo):
                return self.call_function(st, p.fn, [('e', p.self)] + list(args), kwargs, node)
            return self.method(st, p.self, p.fn, args, kwargs, node)
        if isinstance(p, Cls):
            return self.instantiate(st, p.cls, args, kwargs, node)
        if isinstance(p, Ext):
            return self.ext_call(st, p.name, args, kwargs, node)
        if isinstance(p, Meth):
            return self.method(st, p.self, p.name, args, kwargs, node)
        if isinstance(p, Obj):
            info = p.oid
            if isinstance(info.cls, ClassInfo):
                m = self.class_attr(st, info.cls, '__call__')
                if m is not None and isinstance(m.leaf, Func):
                    return self.call_function(st, m.leaf.fn, [('e', leaf(p))] + list(args), kwargs, node)
            if info.cls == 'partial':
                f = self.get(st, info, 'func')
                a0 = self.get(st, info, 'args').leaf.parts
                kw = {k.leaf.value: v for k, v, g in self.get(st, info, 'kw').leaf.entries}
                kw.update(kwargs)
                return self.call(st, f, list(a0) + list(args), kw, node)
        if isinstance(p, Const) or numconst(p) is not None:
            return self.raise_builtin(st, 'TypeError', 'not callable', node=node)
        if isinstance(p, Undef):
            return UNDEF
        return self.opaque_call(st, p, args, kwargs, node)

    def opaque_call(self, st, p, args, kwargs, node=None, kind='any'):
        """call of an unknown function: recorded as effect, result is the
        n-th answer of that function"""
        if isinstance(p, App) and p.op == 'attr' and isinstance(p.args[0], Sym) and p.args[0].name == 'LOGGER':
            return NONE
        payload = leaf(p)
        data = [payload, leaf(tup_p(args, 'tuple'))]
        kwn = tup([tup([N(k), v]) for k, v in sorted(kwargs.items())])
        if kwargs:
            data.append(kwn)
        cnt = self.get(st, 'cnt', p)
        st.heap[('cnt', p)] = map1(lambda q: leaf(padd(q, num(1))), cnt)
        self.effect(st, 'log' if is_logging(p) else 'call', data, node)
        return app('ret', [payload, cnt], kind)

    def effect(self, st, kind, data, node=None):
        st.fx = st.fx + (Effect(st.pc, kind, tuple(data), self.loc(node)),)

    def instantiate(self, st, cls, args, kwargs, node=None):
        if cls.is_enum:
            v = args[0][1]
            r = None
            bad = TRUE
            for m in cls.members:
                val = self.get(st, m, 'value')
                c = map2(pl_eq, v, val)
                c = OR(c, map1(lambda q: TRUE if isinstance(q, Obj) and q.oid is m else FALSE, v))
                mm = leaf(new_obj_p(m))
                r = mm if r is None else ite(c, mm, r)
                bad = AND(bad, NOT(c))
            if bad is not FALSE:
                self.raise_builtin(st, 'ValueError', 'not a valid %s' % cls.name, guard=bad, node=node)
            return r if r is not None else UNDEF
        info = self.new_instance(cls)
        me = leaf(new_obj_p(info))
        st.heap[(info, '@new')] = leaf(const(repr(self.loc(node))))
        exc = [b for b in cls.ext_bases() if is_exc_name(b.rsplit('.', 1)[-1])]
        new = self.class_attr(st, cls, '__new__')
        init = self.class_attr(st, cls, '__init__')
        if init is not None and isinstance(init.leaf, Func) and not (cls.is_pydantic and init is None):
            if exc:
                st.heap[(info, 'args')] = leaf(tup_p(args, 'tuple'))
            self.call_function(st, init.leaf.fn, [('e', me)] + list(args), kwargs, node)
            return me
        if cls.is_dataclass or cls.is_pydantic or cls.is_namedtuple:
            self.init_fields(st, cls, info, args, kwargs, node)
            post = self.class_attr(st, cls, '__post_init__')
            if post is not None and isinstance(post.leaf, Func) and st.pc is not FALSE:
                self.call_function(st, post.leaf.fn, [('e', me)], {}, node)
            return me
        if exc:
            st.heap[(info, 'args')] = leaf(tup_p(args, 'tuple'))
            return me
        if cls.ext_bases():
            st.heap[(info, '@args')] = leaf(tup_p(args, 'tuple'))
            return me
        if args or kwargs:
            self.raise_builtin(st, 'TypeError', '%s() takes no arguments' % cls.name, node=node)
        return me

    def all_fields(self, cls):
        out = {}
        for c in reversed(cls.mro()):
            for f in c.fields:
                out[f] = c
        return out

    def init_fields(self, st, cls, info, args, kwargs, node):
        fields = self.all_fields(cls)
        names = list(fields)
        vals = {}
        star = kwargs.get('**')
        for (k, v), n in zip(args, names):
            vals[n] = v
        for k, v in kwargs.items():
            if k == '**':
                continue
            if k not in fields:
                if cls.is_pydantic:
                    continue
                self.raise_builtin(st, 'TypeError', 'unexpected field %s' % k, node=node)
                return
            vals[k] = v
        for n in names:
            if n in vals:
                st.heap[(info, n)] = vals[n]
                continue
            if star is not None:
                st.heap[(info, n)] = leaf(app_p('get', (star, const(n)), 'any'))
                continue
            d = self.class_attr(st, cls, n)
            dp = d.leaf if d is not None else None
            if isinstance(dp, App) and dp.op == '@field':
                d0, fac = dp.args
                if fac is not NONE_P:
                    v = self.call_payload(st, fac, [], {}, node)
                    st.heap[(info, n)] = v
                    continue
                if isinstance(d0, Undef):
                    d = None
                else:
                    d = leaf(d0)
            if d is None:
                self.raise_builtin(st, 'TypeError', 'missing field %s' % n, node=node)
                return
            st.heap[(info, n)] = d

    # -- statements -------------------------------------------------------
    def exec_block(self, st, stmts):
        for s in stmts:
            if st.pc is FALSE:
                return
            self.exec_stmt(st, s)

    def exec_stmt(self, st, s):
        self.cur = (self.frame().module.path, s.lineno, '')
        self.steps += 1
        if not self.steps & 255:
            Budget.check()
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.unknown('statement %s' % type(s).__name__, s)
            return
        m(st, s)

    def x_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(st, s.value)

    def x_Pass(self, st, s):
        pass

    def x_Assign(self, st, s):
        v = self.eval(st, s.value)
        for t in s.targets:
            self.assign(st, t, v)

    def x_AnnAssign(self, st, s):
        fr = self.frame()
        if isinstance(fr.fn, ClassInfo) and isinstance(s.target, ast.Name):
            if s.target.id not in fr.fn.fields and 'ClassVar' not in ast.dump(s.annotation):
                fr.fn.fields.append(s.target.id)
        if s.value is not None:
            self.assign(st, s.target, self.eval(st, s.value))

    def x_AugAssign(self, st, s):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(st, t.id, t)
            v = self.augop(st, op, old, self.eval(st, s.value), s)
            self.store_name(st, t.id, v, s)
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, t.value)
            old = self.getattr(st, o, t.attr, t)
            v = self.augop(st, op, old, self.eval(st, s.value), s)
            self.setattr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, t.value)
            i = self.eval(st, t.slice)
            old = self.getitem(st, o, i, t)
            v = self.augop(st, op, old, self.eval(st, s.value), s)
            self.setitem(st, o, i, v, t)

    def augop(self, st, op, old, v, node):
        if any(isinstance(p, Obj) and p.oid.array for p in leaves(old)):
            # an array is changed in place
            def f(s, p):
                r = self.binop(s, op, leaf(p), v, node)
                if isinstance(p, Obj) and p.oid.array and r.leaf is not None and isinstance(r.leaf, Tup):
                    self.put(s, p.oid, '@', leaf(tup_p(r.leaf.parts, 'list')), node)
                    return leaf(p)
                return r
            return self.by_cases(st, old, f)
        if op == '+' and old.leaf is not None and isinstance(old.leaf, Obj) and old.leaf.oid.cls == 'list':
            self.method(st, old, 'extend', [('e', v)], {}, node)
            return old
        return self.binop(st, op, old, v, node)

    def assign(self, st, t, v):
        if st.pc is FALSE:
            return
        if isinstance(t, ast.Name):
            self.store_name(st, t.id, v, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(st, t.value)
            self.setattr(st, o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(st, t.value)
            i = self.eval(st, t.slice)
            self.setitem(st, o, i, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)][0]
                for i, e in enumerate(t.elts):
                    if i < k:
                        self.assign(st, e, self.item_of(st, v, i))
                    elif i > k:
                        self.assign(st, e, self.item_of(st, v, i - n))
                    else:
                        hi = None if k == n - 1 else k - n + 1
                        tail = self.slice_of(st, v, N(k), NONE if hi is None else N(hi), NONE, t)
                        tail = self.new_container(st, 'list', self.as_seq(st, tail, 'list'))
                        self.assign(st, e.value, tail)
                return
            seq = self.of_length(st, v, n, t)
            for i, e in enumerate(t.elts):
                if st.pc is FALSE:
                    return
                self.assign(st, e, self.item_of(st, seq, i, t))
        elif isinstance(t, ast.Starred):
            self.assign(st, t.value, v)

    def of_length(self, st, v, n, node):
        """the value, unless it is known to have another number of items"""
        def f(s, p):
            q = p
            if isinstance(p, Obj) and p.oid.cls == 'gen':
                q = self.as_seq(s, leaf(p), 'list').leaf
                if s.pc is FALSE or q is None:
                    return UNDEF if s.pc is FALSE else leaf(p)
                p = q
            elif isinstance(p, Obj) and p.oid.cls == 'list':
                c = self.get(s, p.oid, '@')
                if c.leaf is None:
                    return self.by_cases(s, c, f)
                q = c.leaf
            if isinstance(q, Tup):
                k = len(q.parts)
                if k != n if all(x == 'e' for x, _ in q.parts) else sum(x == 'e' for x, _ in q.parts) > n:
                    return self.raise_builtin(s, 'ValueError', 'expected %d values to unpack' % n, node=node)
            return leaf(p)
        return self.by_cases(st, v, f)

    def x_Delete(self, st, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(st, t.value)
                i = self.eval(st, t.slice)
                self.delitem(st, o, i, s)
            elif isinstance(t, ast.Name):
                self.store_name(st, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                o = self.eval(st, t.value)
                self.setattr(st, o, t.attr, UNDEF, s)

    def x_Return(self, st, s):
        v = NONE if s.value is None else self.eval(st, s.value)
        if st.pc is FALSE:
            return
        fr = self.frame()
        fr.returns.append((st.copy(), v))
        st.pc = FALSE

    def x_If(self, st, s):
        c = self.truth(st, self.eval(st, s.test))
        if st.pc is FALSE:
            return
        d = implied(st.pc, c)
        if d is TRUE:
            self.exec_block(st, s.body)
            return
        if d is FALSE:
            self.exec_block(st, s.orelse)
            return
        a = st.copy()
        a.pc = AND(st.pc, c)
        b = st.copy()
        b.pc = AND(st.pc, NOT(c))
        self.exec_block(a, s.body)
        self.exec_block(b, s.orelse)
        self.join(st, [(a, NONE), (b, NONE)])

    def x_Raise(self, st, s):
        if s.exc is None:
            e = getattr(self.frame(), 'cur_exc', None) or (self.excstack[-1] if getattr(self, 'excstack', None) else None)
            self.do_raise(st, e if e is not None else self.unknown('re-raise', s))
            return
        v = self.eval(st, s.exc)
        if s.cause is not None:
            self.eval(st, s.cause)
        if st.pc is FALSE:
            return

        def f(s2, p):
            if isinstance(p, Cls):
                v2 = self.instantiate(s2, p.cls, [], {}, s)
            elif isinstance(p, Ext):
                n = p.name.rsplit('.', 1)[-1]
                info = ObjInfo(n + '#', 'exc:' + n)
                s2.heap[(info, 'args')] = tup([])
                v2 = leaf(new_obj_p(info))
            else:
                if isinstance(p, Const) or isinstance(p, Cat):
                    self.raise_builtin(s2, 'TypeError', 'exceptions must derive from BaseException', node=s)
                    return UNDEF
                v2 = leaf(p)
            if isinstance(v2.leaf, Obj):
                s2.heap[(v2.leaf.oid, '@loc')] = leaf(const(repr(self.loc(s))))
            self.do_raise(s2, v2)
            return UNDEF
        self.by_cases(st, v, f)

    def x_Assert(self, st, s):
        c = self.truth(st, self.eval(st, s.test))
        if implied(st.pc, c) is TRUE:
            return
        self.raise_builtin(st, 'AssertionError', '', guard=NOT(c), node=s)

    def x_Global(self, st, s):
        self.frame().globals |= set(s.names)

    def x_Nonlocal(self, st, s):
        pass

    def x_Import(self, st, s):
        for a in s.names:
            if a.asname:
                self.store_name(st, a.asname, self.import_(a.name))
            else:
                top = a.name.split('.')[0]
                self.import_(a.name)
                self.store_name(st, top, self.import_(top))

    def import_(self, name):
        if self.prog.has(name):
            self.ensure_module(name)
            return leaf(mod_p(name))
        return leaf(ext_p(canon_ext(name)))

    def x_ImportFrom(self, st, s):
        mod = s.module or ''
        if s.level:
            m = self.frame().module
            base = m.name.split('.')
            if not m.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            if a.name == '*':
                if self.prog.has(mod):
                    self.ensure_module(mod)
                    for (o, n), v in list(self.world.heap.items()):
                        if o == ('m', mod) and not n.startswith('_'):
                            self.store_name(st, n, v)
                continue
            v = None
            if self.prog.has(mod):
                self.ensure_module(mod)
                v = self.world.heap.get((('m', mod), a.name))
                if v is None and self.prog.has(mod + '.' + a.name):
                    v = self.import_(mod + '.' + a.name)
                if v is None:
                    self.raise_builtin(st, 'ImportError', 'cannot import %s from %s' % (a.name, mod), node=s, gap=mod in self.model_modules)
                    continue
            else:
                v = leaf(ext_p(canon_ext(mod + '.' + a.name)))
            self.store_name(st, a.asname or a.name, v)

    def x_FunctionDef(self, st, s):
        fn = self.make_func(st, s)
        v = leaf(func_p(fn))
        fn.decorators = []
        for d in reversed(s.decorator_list):
            v = self.decorate(st, fn, v, d)
        self.store_name(st, s.name, v, s)

    def decorate(self, st, fn, v, d):
        if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
            op = {'property': '@prop', 'staticmethod': '@static', 'classmethod': '@classm'}[d.id]
            if op == '@prop':
                return leaf(app_p('@prop', (v.leaf, NONE_P)))
            return leaf(app_p(op, (v.leaf,)))
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter') and isinstance(d.value, ast.Name):
            old = self.get(st, self.frame().fn, d.value.id)
            if old is not None and isinstance(old.leaf, App) and old.leaf.op == '@prop':
                if d.attr == 'setter':
                    return leaf(app_p('@prop', (old.leaf.args[0], v.leaf)))
                return old
        dn = self.eval(st, d)
        fn.decorators.append(dn)
        p = dn.leaf
        if isinstance(p, Func) or isinstance(p, Bound):
            return self.call(st, dn, [v], {}, d)
        if isinstance(p, Ext) and p.name in ('functools.cached_property', 'builtins.property'):
            return leaf(app_p('@prop', (v.leaf, NONE_P)))
        return v

    def x_ClassDef(self, st, s):
        bases = []
        for b in s.bases:
            p = self.eval(st, b).leaf
            if isinstance(p, Cls):
                bases.append(p.cls)
            elif isinstance(p, Ext):
                bases.append(p.name)
            else:
                bases.append('?')
        fr = self.frame()
        cls = ClassInfo(s.name, fr.module, s, bases)
        for d in s.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            p = self.eval(st, t).leaf
            if isinstance(p, Ext) and p.name == 'dataclasses.dataclass':
                cls.is_dataclass = True
        parent = fr if (fr.fn is not None and not isinstance(fr.fn, ClassInfo)) else fr.parent
        cf = Frame(cls, fr.module, parent, ())
        cf.names = ClassNames(self, cls, cf)
        self.stack.append(cf)
        before = set()
        try:
            if cls.is_enum:
                self.exec_enum_body(st, cls, s)
            else:
                self.exec_block(st, s.body)
        finally:
            self.stack.pop()
        v = leaf(cls_p(cls))
        self.store_name(st, s.name, v, s)
        if cls.is_enum:
            # members are created after the methods are known
            init = self.class_attr(st, cls, '__init__')
            for name, val in cls._raw:
                info = ObjInfo('%s.%s' % (cls.name, name), cls)
                info.enum_name = name
                me = leaf(new_obj_p(info))
                st.heap[(info, 'name')] = N(name)
                st.heap[(info, 'value')] = val
                st.heap[(info, '_value_')] = val
                if init is not None and isinstance(init.leaf, Func):
                    a = [('e', x) for k, x in val.leaf.parts] if isinstance(val.leaf, Tup) else [('e', val)]
                    self.call_function(st, init.leaf.fn, [('e', me)] + a, {}, s)
                alias = None
                for m in cls.members:
                    if self.get(st, m, 'value') is val:
                        alias = m
                if alias is None:
                    cls.members.append(info)
                    st.heap[(cls, name)] = me
                else:
                    st.heap[(cls, name)] = leaf(new_obj_p(alias))
            # publish early
            self.world.heap.update({k: v2 for k, v2 in st.heap.items() if isinstance(k[0], (ClassInfo, ObjInfo))})

    def exec_enum_body(self, st, cls, s):
        cls._raw = []
        auto = 0
        for b in s.body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                n = b.targets[0].id
                v = self.eval(st, b.value)
                if isinstance(v.leaf, App) and v.leaf.op == '@auto':
                    auto += 1
                    v = N(auto)
                if n.startswith('_') and not isinstance(v.leaf, Tup):
                    st.heap[(cls, n)] = v
                    continue
                k = numconst(v.leaf) if v.leaf is not None else None
                if k is not None and k.denominator == 1:
                    auto = int(k)
                cls._raw.append((n, v))
                st.heap[(cls, n)] = v
            else:
                self.exec_stmt(st, b)

    # -- try / with -------------------------------------------------------
    def x_Try(self, st, s):
        coll = []
        self.raises.append(coll)
        fr = self.frame()
        fr.handler_types.append([h.type for h in s.handlers])
        nret = len(fr.returns)
        nloop = [len(x) for l in self.loops for x in l]
        base = st.copy()
        try:
            self.exec_block(st, s.body)
        finally:
            self.raises.pop()
            fr.handler_types.pop()
        if st.pc is not FALSE and s.orelse:
            self.exec_block(st, s.orelse)
        finals = [(st.copy(), NONE)]
        for es, exc in coll:
            remaining = [(es, exc)]
            for h in s.handlers:
                nxt = []
                for s1, e1 in remaining:
                    if s1.pc is FALSE:
                        continue
                    c = self.exc_matches(s1, e1, h)
                    hit = s1.copy()
                    hit.pc = AND(s1.pc, c)
                    if hit.pc is not FALSE and feasible(hit.pc):
                        if h.name:
                            self.stack_store(hit, h.name, e1)
                        if not hasattr(self, 'excstack'):
                            self.excstack = []
                        self.excstack.append(e1)
                        self.exec_block(hit, h.body)
                        self.excstack.pop()
                        finals.append((hit, NONE))
                    s1.pc = AND(s1.pc, NOT(c))
                    if s1.pc is not FALSE and feasible(s1.pc):
                        nxt.append((s1, e1))
                remaining = nxt
            for s1, e1 in remaining:
                if s.finalbody:
                    self.exec_block(s1, s.finalbody)
                if s1.pc is not FALSE:
                    self.raises[-1].append((s1, e1))
        self.join(st, finals)
        if s.finalbody:
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            for s1, v1 in rets:
                self.exec_block(s1, s.finalbody)
                if s1.pc is not FALSE:
                    fr.returns.append((s1, v1))
            if st.pc is not FALSE:
                self.exec_block(st, s.finalbody)
            for x, n in zip([x for l in self.loops for x in l], nloop):
                for s1 in x[n:]:
                    self.exec_block(s1, s.finalbody)

    x_TryStar = x_Try

    def stack_store(self, st, name, v):
        self.store_name(st, name, v)

    def exc_matches(self, st, exc, h):
        if h.type is None:
            return TRUE
        types = self.eval(st, h.type)
        tl = []
        for p in leaves(types):
            if isinstance(p, Tup):
                tl += [n.leaf for k, n in p.parts]
            else:
                tl.append(p)
        r = FALSE
        for p, g in cases(exc, st.pc):
            m = FALSE
            for t in tl:
                m = OR(m, self.exc_is(p, t))
            r = ite(where(exc, p), m, r)
        return r

    def exc_is(self, p, t):
        if isinstance(p, Obj):
            info = p.oid
            tn = t.name.rsplit('.', 1)[-1] if isinstance(t, Ext) else None
            if isinstance(info.cls, ClassInfo):
                if isinstance(t, Cls):
                    return N(info.cls.is_sub(t.cls))
                for b in info.cls.ext_bases():
                    if tn and exc_sub(b.rsplit('.', 1)[-1], tn):
                        return TRUE
                return FALSE
            if isinstance(info.cls, str) and info.cls.startswith('exc:'):
                return N(bool(tn and exc_sub(info.cls[4:], tn)))
        tn = show_payload(t)
        if tn in ('builtins.Exception', 'builtins.BaseException'):
            return TRUE
        return var(atom('exc-is', p, t))

    def x_With(self, st, s):
        self.with_items(st, s, list(s.items))

    x_AsyncWith = x_With

    def with_items(self, st, s, items):
        if not items:
            self.exec_block(st, s.body)
            return
        it, rest = items[0], items[1:]
        c = it.context_expr
        if isinstance(c, ast.Call) and not it.optional_vars:
            f = self.eval(st, c.func)
            if f.leaf is not None and isinstance(f.leaf, Ext) and f.leaf.name == 'contextlib.suppress':
                types = ast.Tuple(elts=list(c.args), ctx=ast.Load())
                h = ast.ExceptHandler(type=types, name=None, body=[ast.Pass()])
                t = ast.Try(body=[WithRest(s, rest)], handlers=[h], orelse=[], finalbody=[])
                for n in (types, h, t, h.body[0], t.body[0]):
                    ast.copy_location(n, s)
                self.exec_stmt(st, t)
                return
        v = self.eval(st, c)
        own = v.leaf is not None and isinstance(v.leaf, Obj) and isinstance(v.leaf.oid.cls, ClassInfo)
        x = v
        if own:
            m = self.getattr(st, v, '__enter__', s)
            x = self.call(st, m, [], {}, s)
        elif v.leaf is None or isinstance(v.leaf, (Func, Bound)) or (
                isinstance(v.leaf, App) and not v.leaf.op.startswith('file')) and 'contextlib' in show_payload(v.leaf):
            self.unknown('context manager', c)
        if it.optional_vars is not None:
            self.assign(st, it.optional_vars, x)
        if not own:
            self.with_items(st, s, rest)
            return
        t = ast.Try(body=[WithRest(s, rest)], handlers=[], orelse=[], finalbody=[WithExit(v, s)])
        for n in (t, t.body[0], t.finalbody[0]):
            ast.copy_location(n, s)
        self.exec_stmt(st, t)

    def x_WithRest(self, st, s):
        self.with_items(st, s.stmt, s.rest)

    def x_WithExit(self, st, s):
        m = self.getattr(st, s.manager, '__exit__', s)
        self.call(st, m, [NONE, NONE, NONE], {}, s)

    def x_Break(self, st, s):
        if self.loops:
            self.loops[-1][0].append(st.copy())
        st.pc = FALSE

    def x_Continue(self, st, s):
        if self.loops:
            self.loops[-1][1].append(st.copy())
        st.pc = FALSE

    def x_Match(self, st, s):
        v = self.eval(st, s.subject)
        self.match_cases(st, v, s.cases, s)

    def match_cases(self, st, v, cs, node):
        if not cs or st.pc is FALSE:
            return
        c, binds = self.match_pattern(st, v, cs[0].pattern)
        d = implied(st.pc, c)
        a = st.copy()
        a.pc = AND(st.pc, c)
        b = st.copy()
        b.pc = AND(st.pc, NOT(c))
        if a.pc is not FALSE and d is not FALSE:
            for n, x in binds:
                self.store_name(a, n, x)
            if cs[0].guard is not None:
                g = self.truth(a, self.eval(a, cs[0].guard))
                b2 = a.copy()
                b2.pc = AND(a.pc, NOT(g))
                a.pc = AND(a.pc, g)
                self.join(b, [(b, NONE), (b2, NONE)]) if b2.pc is not FALSE else None
            self.exec_block(a, cs[0].body)
        else:
            a.pc = FALSE
        if b.pc is not FALSE and d is not TRUE or b.pc is not FALSE and cs[0].guard is not None:
            self.match_cases(b, v, cs[1:], node)
        self.join(st, [(a, NONE), (b.copy(), NONE)])

    def match_pattern(self, st, v, p):
        if isinstance(p, ast.MatchValue):
            return self.equal(st, v, self.eval(st, p.value)), []
        if isinstance(p, ast.MatchSingleton):
            return map2(pl_eq, v, N(p.value)), []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return TRUE, ([(p.name, v)] if p.name else [])
            c, b = self.match_pattern(st, v, p.pattern)
            return c, b + ([(p.name, v)] if p.name else [])
        if isinstance(p, ast.MatchOr):
            c = FALSE
            for q in p.patterns:
                x, _ = self.match_pattern(st, v, q)
                c = OR(c, x)
            return c, []
        if isinstance(p, ast.MatchClass):
            c = self.isinstance_(st, v, self.eval(st, p.cls))
            return c, []
        if isinstance(p, ast.MatchSequence):
            c, b = TRUE, []
            for i, q in enumerate(p.patterns):
                x, y = self.match_pattern(st, self.item_of(st, v, i), q)
                c = AND(c, x)
                b += y
            return c, b
        self.unknown('pattern', p)
        return FALSE, []


class ClassNames:
    """names visible inside a class body: whatever has been stored so far"""
    def __init__(self, interp, cls, frame):
        self.i, self.cls = interp, cls

    def __contains__(self, name):
        return False

    def __bool__(self):
        return True


def fr_escapes(fn):
    """does the function create closures (whose frames must survive)?"""
    r = getattr(fn.node, '_esc', None)
    if r is None:
        r = False
        body = fn.node.body if isinstance(fn.node.body, list) else [fn.node.body]
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.GeneratorExp)):
                    r = True
        fn.node._esc = r
    return r


def collect_names(body, names, gl, nl):
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            continue
        if isinstance(n, ast.Global):
            gl |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        todo.extend(ast.iter_child_nodes(n))


def is_logging(p):
    while isinstance(p, App) and p.args and isinstance(p.args[0], Payload):
        if p.op.startswith('ret:logging.'):
            return True
        p = p.args[0]
    return (isinstance(p, App) and p.op.startswith('ret:logging.')) or (isinstance(p, Ext) and p.name.startswith('logging.'))


def exc_sub(a, b):
    x, y = getattr(builtins, a, None), getattr(builtins, b, None)
    if x is not None and y is not None:
        return issubclass(x, y)
    if a == 'ModuleNotFoundError' and b == 'ImportError':
        return True
    return a == b or b in ('Exception', 'BaseException')


ALIAS = {'np': 'numpy'}


def canon_ext(name):
    return name


def flatten_args(args):
    out = []
    for k, v in args:
        if k == 's' and v.leaf is not None and isinstance(v.leaf, Tup):
            out.extend(v.leaf.parts)
        else:
            out.append((k, v))
    return out
