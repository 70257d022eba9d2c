"""Models of builtins, the standard library and methods of containers."""
import ast
import builtins
import math
from fractions import Fraction
from .values import *
from . import sample
from .state import *
from .program import *
from .exprs import (is_strlike, is_boolnode, arith, pow_p, fn_p, fdiv_p, mod_p_, abs_node, as_numeric, complex_part)
from .objs import elem_kind
from .interp import is_exc_name, exc_sub

LOGM = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'fatal', 'warn'}

# library functions whose every call gives a new value
FRESH = {
    'random.random', 'random.randint', 'random.uniform', 'random.expovariate', 'random.choice', 'random.gauss',
    'random.randrange', 'random.normalvariate', 'random.sample', 'random.shuffle',
    'numpy.random.random', 'numpy.random.rand', 'numpy.random.randint', 'numpy.random.uniform',
    'numpy.random.exponential', 'numpy.random.normal', 'numpy.random.choice', 'numpy.random.random_sample',
    'numpy.random.binomial', 'time.time', 'time.time_ns', 'time.perf_counter', 'time.monotonic', 'time.perf_counter_ns', 'time.monotonic_ns',
    'uuid.uuid4', 'os.urandom', 'secrets.token_hex',
}
FRESHKIND = {'random.randint': 'int', 'random.randrange': 'int', 'numpy.random.randint': 'int'}
FRESH_ANY = {'random.choice', 'numpy.random.choice', 'uuid.uuid4', 'random.sample'}

EFFECT_PREFIX = ('os.', 'click.', 'matplotlib.', 'tabulate.', 'json.dump', 'multiprocessing.', 'logging.',
                 'heapq.', 'sys.', 'pathlib.', 'shutil.', 'signal.')
EFFECTS = {'builtins.print', 'builtins.open', 'builtins.input', 'builtins.exit', 'tabulate.tabulate'}
UNIFORM = ('random.random', 'numpy.random.random', 'numpy.random.rand', 'numpy.random.random_sample', 'numpy.random.uniform')
PURE_OS = ('os.path.', 'os.getcwd')
MAYRAISE = {'importlib.import_module': ['ModuleNotFoundError'], 'importlib.util.find_spec': []}

SAME = {'math.log10': 'log10', 'numpy.log10': 'log10', 'math.log': 'log', 'numpy.log': 'log', 'math.exp': 'exp',
        'numpy.exp': 'exp', 'math.sin': 'sin', 'numpy.sin': 'sin', 'math.cos': 'cos', 'numpy.cos': 'cos',
        'math.tan': 'tan', 'numpy.tan': 'tan', 'math.acos': 'acos', 'numpy.arccos': 'acos', 'math.asin': 'asin',
        'numpy.arcsin': 'asin', 'math.atan': 'atan', 'numpy.arctan': 'atan', 'math.erfc': 'erfc',
        'scipy.special.erfc': 'erfc', 'math.erf': 'erf', 'scipy.special.erf': 'erf', 'math.log2': 'log2',
        'numpy.log2': 'log2', 'scipy.special.jn': 'jn', 'scipy.special.jv': 'jn',
        'math.hypot': 'hypot', 'numpy.hypot': 'hypot', 'math.atan2': 'atan2', 'numpy.arctan2': 'atan2'}

AT_ZERO = {'sin': 0, 'cos': 1, 'tan': 0, 'asin': 0, 'atan': 0, 'erf': 0, 'erfc': 1}


class Ext_:
    # -- library calls ----------------------------------------------------
    def ext_call(self, st, name, args, kwargs, node=None):
        if name.startswith('spec.'):
            f = self.intrinsics.get(name[5:])
            if f is not None:
                return f(self, st, args, kwargs, node)
        if name in UNIFORM and self.stubs and not args and not kwargs and ('ext', 'uniform') in self.stubs:
            return self.call_payload(st, self.stubs[('ext', 'uniform')], [], {}, node)
        short = name[9:] if name.startswith('builtins.') else None
        if short is not None:
            m = getattr(self, 'b_' + short, None)
            if m is not None:
                return m(st, args, kwargs, node)
            if is_exc_name(short):
                info = ObjInfo(short + '#', 'exc:' + short)
                st.heap[(info, 'args')] = leaf(tup_p(args, 'tuple'))
                return leaf(new_obj_p(info))
        m = getattr(self, 'l_' + name.replace('.', '_'), None)
        if m is not None:
            return m(st, args, kwargs, node)
        plain = [v for k, v in args if k == 'e']
        if len(plain) != len(args):
            plain = [leaf(tup_p(args, 'tuple'))]
        if name in SAME and not kwargs:
            if SAME[name] in ('log10', 'log', 'exp') and len(plain) == 1:
                return map1(lambda q: leaf(fn_p(SAME[name], q)), plain[0])
            if len(plain) == 1 and SAME[name] in AT_ZERO:
                op = SAME[name]
                return map1(lambda q: N(AT_ZERO[op]) if numconst(q) == 0 else leaf(app_p(op, (q,), 'num')), plain[0])
            return self.pure(SAME[name], plain, 'num')
        if name in FRESH:
            return self.fresh(st, name, plain, kwargs, node)
        if name in MAYRAISE:
            for exc in MAYRAISE[name]:
                if self.handled(st, exc):
                    key = self.snapshot(st, plain[0]) if plain else NONE
                    g = map1(lambda q: var(atom('raises:' + exc, app_p(name, (q,)))), key)
                    self.raise_builtin(st, exc, name, guard=g, node=node)
                    if st.pc is FALSE:
                        return UNDEF
        if name in EFFECTS or (name.startswith(EFFECT_PREFIX) and not name.startswith(PURE_OS)):
            kn = [app('kw', [N(k), v]) for k, v in sorted(kwargs.items())]
            snap = [self.snapshot(st, v) for v in plain + kn]
            self.effect(st, 'log' if name.startswith('logging.') else 'ext', [leaf(ext_p(name))] + snap, node)
            kind = 'any'
            key = ext_p(name)
            cnt = self.get(st, 'cnt', key)
            st.heap[('cnt', key)] = map1(lambda q: leaf(padd(q, num(1))), cnt)
            return self.pure('ret:' + name, snap, 'nn' if not name.startswith('json') else 'any')
        snap = [self.snapshot(st, v) for v in plain]
        for k, v in sorted(kwargs.items()):
            snap.append(self.pure('kw:' + k, [self.snapshot(st, v)], 'any'))
        kind = 'num' if name.startswith(('math.', 'statistics.', 'scipy.')) else 'any'
        return self.pure(name, snap, kind)

    def pure(self, op, nodes, kind='any'):
        return app(op, nodes, kind)

    def fresh(self, st, name, plain, kwargs, node=None):
        if getattr(self, 'clock', None) and name in ('time.time', 'time.perf_counter', 'time.monotonic'):
            return self.get(st, 'cnt', 'clock')
        if getattr(self, 'clock', None) and name in ('time.time_ns', 'time.perf_counter_ns', 'time.monotonic_ns'):
            return map1(lambda q: leaf(pmul(q, num(10 ** 9))), self.get(st, 'cnt', 'clock'))
        key = ext_p(name)
        cnt = self.get(st, 'cnt', key)
        st.heap[('cnt', key)] = map1(lambda q: leaf(padd(q, num(1))), cnt)
        snap = [self.snapshot(st, v) for v in plain]
        for k, v in sorted(kwargs.items()):
            snap.append(self.pure('kw:' + k, [self.snapshot(st, v)], 'any'))
        kind = FRESHKIND.get(name, 'any' if name in FRESH_ANY else 'num')
        if name == 'random.randint':
            # positional / keyword forms
            a = plain[0] if plain else kwargs.get('a')
            b = plain[1] if len(plain) > 1 else kwargs.get('b')
            if a is None or b is None or len(plain) + len(kwargs) != 2:
                self.raise_builtin(st, 'TypeError', 'randint takes two arguments', node=node)
                return UNDEF
            snap = [a, b]
            if self.stubs and ('ext', 'randint') in self.stubs:
                return self.call_payload(st, self.stubs[('ext', 'randint')], [('e', a), ('e', b)], {}, node)
        st.fx = st.fx + (Effect(st.pc, 'draw', (leaf(key), tup(snap)), self.loc(node)),)
        return self.pure('new:' + name, [cnt] + snap, kind)

    def snapshot(self, st, v, depth=0):
        """replace containers by their contents"""
        def f(p):
            if isinstance(p, Obj) and p.oid.cls in ('list', 'set', 'dict', 'gen') and depth < 6:
                if self.is_lazy(st, p.oid):
                    return N('generator')
                c = self.get(st, p.oid, '@')
                return map1(g, c)
            return g(p)

        def g(q):
            if isinstance(q, Tup):
                return leaf(tup_p([(k, self.snapshot(st, n, depth + 1)) for k, n in q.parts], q.kind))
            if isinstance(q, Map):
                return leaf(map_p([(self.snapshot(st, k, depth + 1), self.snapshot(st, x, depth + 1), TRUE) for k, x, _ in q.entries], q.base))
            return leaf(q)
        return map1(f, v)

    # -- builtins ---------------------------------------------------------
    def b_print(self, st, args, kwargs, node):
        cat = lambda x, y: map2(lambda p, q: leaf(cat_p([p, q])), x, y)
        if any(k != 'e' for k, v in args):
            self.effect(st, 'print', [self.snapshot(st, v) for k, v in args], node)
            return NONE
        sep = kwargs.get('sep', N(' '))
        text = N('')
        for i, (k, v) in enumerate(args):
            if i:
                text = cat(text, N(' ') if sep is NONE else sep)
            text = cat(text, self.fmt(st, self.snapshot(st, v)))
        end = kwargs.get('end', NONE)
        text = cat(text, N('\n') if end is NONE else end)
        self.effect(st, 'print', [text] + [kwargs[k] for k in ('file',) if k in kwargs], node)
        return NONE

    def b_len(self, st, args, kwargs, node):
        def f(s, p):
            if isinstance(p, Obj):
                i = p.oid
                if i.cls in ('gen', 'count'):
                    return self.raise_builtin(s, 'TypeError', 'an iterator has no len()', node=node)
                if i.cls in ('list', 'set', 'dict'):
                    return map1(len_p, self.get(s, i, '@'))
                if isinstance(i.cls, ClassInfo):
                    m = self.class_attr(s, i.cls, '__len__')
                    if m is not None and isinstance(m.leaf, Func):
                        return self.call_function(s, m.leaf.fn, [('e', leaf(p))], {}, node)
                return leaf(app_p('len', (p,), 'nat'))
            if isinstance(p, Cls) and p.cls.is_enum:
                return N(len(p.cls.members))
            if isinstance(p, Const) and p.value is None or isinstance(p, Poly):
                return self.raise_builtin(s, 'TypeError', 'no len()', node=node)
            return len_p(p)
        return self.by_cases(st, args[0][1], f)

    def b_range(self, st, args, kwargs, node):
        a = [v for k, v in args]
        if len(a) == 1:
            a = [N(0), a[0], N(1)]
        elif len(a) == 2:
            a = a + [N(1)]
        return mapn(lambda ps: leaf(app_p('range', tuple(ps), 'nn')), a)

    def b_abs(self, st, args, kwargs, node):
        def f(p):
            k = numconst(p)
            if k is not None:
                return N(abs(k))
            if p is J:
                return N(1)
            if isinstance(p, Poly) and p.terms and all(any(b is J for b, e in m) for m, _ in p.terms):
                # a turn by a right angle
                q = pmul(p, num(-1j))
                if not sample.complex_like(q):
                    return f(q)
            if isinstance(p, Poly) and all(m == () or m == ((J, 1),) for m, _ in p.terms):
                return leaf(pow_p(num(sum(c * c for m, c in p.terms)), num(Fraction(1, 2))))
            if sample.complex_like(p) or not numlike(p):
                return leaf(app_p('cabs', (p,), 'num'))
            return abs_node(p)
        return map1(f, args[0][1])

    l_numpy_abs = l_numpy_absolute = b_abs

    def l_numpy_real(self, st, args, kwargs, node, op='real'):
        return map1(lambda p: leaf(complex_part(op, p)), args[0][1])

    def l_numpy_imag(self, st, args, kwargs, node):
        return self.l_numpy_real(st, args, kwargs, node, 'imag')

    def l_numpy_conj(self, st, args, kwargs, node):
        return self.l_numpy_real(st, args, kwargs, node, 'conj')

    l_numpy_conjugate = l_numpy_conj
    l_math_fabs = b_abs

    def b_int(self, st, args, kwargs, node):
        if not args:
            return N(0)
        if len(args) > 1 or kwargs:
            base = args[1][1] if len(args) > 1 else kwargs.get('base')
            def g(p, b):
                k = numconst(b)
                if isinstance(p, Const) and isinstance(p.value, str) and k is not None:
                    try:
                        return N(int(p.value, int(k)))
                    except ValueError:
                        return UNDEF
                return leaf(app_p('parseint', (p, b), 'int'))
            r = map2(g, args[0][1], base)
            u = where(r, UNDEF_P)
            if u is not FALSE:
                self.raise_builtin(st, 'ValueError', 'int()', guard=u, node=node)
                r = restrict(r, NOT(u)) if NOT(u) is not FALSE else UNDEF
            return r

        def f(p):
            k = numconst(p)
            if k is not None:
                return N(math.trunc(k))
            if isinstance(p, Const):
                if isinstance(p.value, bool):
                    return N(int(p.value))
                if isinstance(p.value, str):
                    try:
                        return N(int(p.value))
                    except ValueError:
                        return UNDEF
                return UNDEF
            if is_int(p):
                return leaf(p)
            if isinstance(p, Obj) and isinstance(p.oid.cls, ClassInfo) and p.oid.cls.is_enum:
                return self.get(st, p.oid, 'value')
            if isinstance(p, App) and p.op in ('floor', 'ceil'):
                return leaf(p)
            return leaf(app_p('trunc', (p,), 'int'))
        r = map1(f, args[0][1])
        u = where(r, UNDEF_P)
        if u is not FALSE:
            self.raise_builtin(st, 'ValueError', 'int()', guard=u, node=node)
            r = restrict(r, NOT(u)) if NOT(u) is not FALSE else UNDEF
        return r

    def b_float(self, st, args, kwargs, node):
        if not args:
            return N(0)

        def f(p):
            if isinstance(p, Const) and isinstance(p.value, bool):
                return N(int(p.value))
            if isinstance(p, Const) and isinstance(p.value, str):
                if p.value in ('inf', '+inf', 'infinity'):
                    return sym('inf', 'num')
                if p.value == '-inf':
                    return map1(lambda q: leaf(pmul(num(-1), q)), sym('inf', 'num'))
                try:
                    return N(float(p.value))
                except ValueError:
                    return UNDEF
            if isinstance(p, Const):
                return UNDEF
            if is_strlike(p):
                return leaf(app_p('parsefloat', (p,), 'num'))
            return leaf(p)
        r = map1(f, args[0][1])
        u = where(r, UNDEF_P)
        if u is not FALSE:
            self.raise_builtin(st, 'TypeError', 'float()', guard=u, node=node)
            r = restrict(r, NOT(u)) if NOT(u) is not FALSE else UNDEF
        return r

    def b_complex(self, st, args, kwargs, node):
        a = args[0][1]
        b = args[1][1] if len(args) > 1 else N(0)
        return self.binop(st, '+', a, self.binop(st, '*', b, leaf(J)))

    def b_bool(self, st, args, kwargs, node):
        return self.truth(st, args[0][1]) if args else FALSE

    def b_str(self, st, args, kwargs, node):
        if not args:
            return N('')
        if len(args) > 1:
            return self.pure('decode', [v for k, v in args], 'str')
        return self.fmt(st, args[0][1])

    def b_repr(self, st, args, kwargs, node):
        return self.fmt(st, args[0][1], '', 'r')

    def b_format(self, st, args, kwargs, node):
        spec = args[1][1] if len(args) > 1 else N('')
        if spec.leaf is not None and isinstance(spec.leaf, Const):
            return self.fmt(st, args[0][1], spec.leaf.value)
        return self.map_app(st, 'fmtd', [args[0][1], spec], (), 'str')

    def b_round(self, st, args, kwargs, node):
        nd = args[1][1] if len(args) > 1 else kwargs.get('ndigits')

        def f(p):
            k = numconst(p)
            if nd is None or nd is NONE:
                if k is not None:
                    return N(round(k))
                if is_int(p):
                    return leaf(p)
                k = near_int(p, st.pc)
                if k is not None:
                    return N(k)
                return leaf(app_p('round', (p,), 'int'))
            if k is not None and nd.leaf is not None and numconst(nd.leaf) is not None:
                return N(round(k, int(numconst(nd.leaf))))
            return map1(lambda q: leaf(app_p('roundn', (p, q), 'num')), nd)
        return map1(f, args[0][1])

    def l_math_floor(self, st, args, kwargs, node):
        def f(p):
            k = numconst(p)
            if k is not None:
                return N(math.floor(k))
            return leaf(p) if is_int(p) else leaf(app_p('floor', (p,), 'int'))
        return map1(f, args[0][1])

    l_numpy_floor = l_math_floor

    def l_os_path_join(self, st, args, kwargs, node):
        import posixpath

        def f(ps):
            if all(isinstance(p, Const) and isinstance(p.value, str) for p in ps):
                return N(posixpath.join(*[p.value for p in ps]))
            return leaf(app_p('os.path.join', tuple(ps), 'str'))
        if not args or kwargs or any(k != 'e' for k, v in args):
            return self.pure('os.path.join', [leaf(tup_p(args, 'tuple'))], 'str')
        return mapn(f, [v for k, v in args])

    def l_builtins_bytes_fromhex(self, st, args, kwargs, node):
        def f(s, p):
            if isinstance(p, Const) and isinstance(p.value, str):
                try:
                    return N(bytes.fromhex(p.value))
                except ValueError:
                    return self.raise_builtin(s, 'ValueError', 'non-hexadecimal number', node=node)
            return self.pure('fromhex', [leaf(p)], 'any')
        return self.by_cases(st, args[0][1], f)

    l_builtins_bytearray_fromhex = l_binascii_unhexlify = l_builtins_bytes_fromhex

    def l_math_ceil(self, st, args, kwargs, node):
        def f(p):
            k = numconst(p)
            if k is not None:
                return N(math.ceil(k))
            return leaf(p) if is_int(p) else leaf(app_p('ceil', (p,), 'int'))
        return map1(f, args[0][1])

    l_numpy_ceil = l_math_ceil

    def l_math_sqrt(self, st, args, kwargs, node):
        return map1(lambda p: leaf(pow_p(p, num(Fraction(1, 2)))) if maybe_num(p) else leaf(app_p('sqrt', (p,), 'num')), args[0][1])

    l_numpy_sqrt = l_math_sqrt

    def l_math_pow(self, st, args, kwargs, node):
        return self.binop(st, '**', args[0][1], args[1][1], node)

    l_numpy_power = l_math_pow
    b_pow = l_math_pow

    def b_divmod(self, st, args, kwargs, node):
        return tup([self.binop(st, '//', args[0][1], args[1][1], node), self.binop(st, '%', args[0][1], args[1][1], node)])

    def l_operator_add(self, st, args, kwargs, node):
        return self.binop(st, '+', args[0][1], args[1][1], node)

    def minmax_(self, st, args, kwargs, op, node):
        key = kwargs.get('key')
        if len(args) == 1 and args[0][0] == 'e':
            seq = self.as_seq(st, args[0][1])
        else:
            seq = leaf(tup_p(args, 'tuple'))

        def f(s, p):
            if any(k == 's' for k, _ in p.parts) or key is not None:
                extra = [N('key')] if key is not None else []
                dflt = [kwargs['default']] if 'default' in kwargs else []
                return self.pure(op + 'of', [self.snapshot(s, leaf(p))] + ([key] if key is not None else []) + dflt, 'any' if key is not None else 'num')
            if not p.parts:
                if 'default' in kwargs:
                    return kwargs['default']
                return self.raise_builtin(s, 'ValueError', 'empty sequence', node=node)
            items = [v for _, v in p.parts]
            r = items[0]
            for v in items[1:]:
                c = self.compare(s, '<', v, r, node) if op == 'min' else self.compare(s, '<', r, v, node)
                r = ite(c, v, r)
            return r
        return self.by_cases(st, seq, f)

    def b_min(self, st, args, kwargs, node):
        return self.minmax_(st, args, kwargs, 'min', node)

    def b_max(self, st, args, kwargs, node):
        return self.minmax_(st, args, kwargs, 'max', node)

    l_numpy_minimum = b_min
    l_numpy_maximum = b_max

    def np_extreme(self, st, args, kwargs, op, node):
        plain = [v for k, v in args if k == 'e']
        if len(args) == 1 and len(plain) == 1 and not kwargs:
            v = plain[0]
            if all(isinstance(p, Tup) or isinstance(p, Obj) and p.oid.cls == 'list' for p in leaves(v)):
                seq = self.as_seq(st, v)
                if not any(k != 'e' or isinstance(q, (Tup, Obj)) for p in leaves(seq) if isinstance(p, Tup)
                           for k, n in p.parts for q in leaves(n)):
                    return self.minmax_(st, args, {}, op, node)
        return self.pure('numpy.' + op, [self.snapshot(st, v) for v in plain], 'num')

    def l_numpy_max(self, st, args, kwargs, node):
        return self.np_extreme(st, args, kwargs, 'max', node)

    def l_numpy_min(self, st, args, kwargs, node):
        return self.np_extreme(st, args, kwargs, 'min', node)

    l_numpy_amax = l_numpy_max
    l_numpy_amin = l_numpy_min

    def l_numpy_clip(self, st, args, kwargs, node):
        x = self.minmax_(st, [args[0], args[1]], {}, 'max', node)
        return self.minmax_(st, [('e', x), args[2]], {}, 'min', node)

    def b_sum(self, st, args, kwargs, node):
        init = args[1][1] if len(args) > 1 else kwargs.get('start', N(0))
        seq = self.as_seq(st, args[0][1])

        def f(s, p):
            r = init
            for k, v in p.parts:
                if k == 'e':
                    r = self.binop(s, '+', r, v, node)
                else:
                    t = self.by_cases(s, v, lambda s2, q: self.sum_seq(s2, q))
                    r = self.binop(s, '+', r, t, node)
            return r
        return self.by_cases(st, seq, f)

    l_numpy_sum = b_sum
    l_math_fsum = b_sum

    def sum_seq(self, st, q):
        if isinstance(q, App) and q.op == 'collect':
            dom, b, body = q.args
            k = sym_p('i%d' % self.loopdepth, 'nat')
            body = subst(body, {b: leaf(k)})

            def tot(t):
                r = num(0)
                out = N(0)
                for kk, v in t.parts:
                    if kk != 'e':
                        return leaf(app_p('sumseq', (t,), 'num'))
                    out = map2(lambda a, c: leaf(padd(a, c)), out, map1(lambda z: leaf(as_numeric(z) or app_p('tonum', (z,), 'num')), v))
                return out
            d = map1(tot, body)
            return self.sum_over(dom, k, d)
        dom = self.domain(q)
        if dom.leaf is None:
            return leaf(app_p('sumseq', (q,), 'num'))
        k = sym_p('i%d' % self.loopdepth, 'nat')
        e = self.item_p(st, q, k)
        d = map1(lambda z: leaf(as_numeric(z) or app_p('tonum', (z,), 'num')), e)
        return self.sum_over(dom.leaf, k, d)

    def b_any(self, st, args, kwargs, node):
        return self.anyall(st, args, True)

    def b_all(self, st, args, kwargs, node):
        return self.anyall(st, args, False)

    l_numpy_any = b_any
    l_numpy_all = b_all

    def anyall(self, st, args, is_any):
        seq = self.as_seq(st, args[0][1])

        def f(s, p):
            r = N(not is_any)
            for k, v in p.parts:
                if k == 'e':
                    c = self.truth(s, v)
                else:
                    c = self.by_cases(s, v, lambda s2, q: self.anyall_seq(s2, q, is_any))
                r = OR(r, c) if is_any else AND(r, c)
            return r
        return self.by_cases(st, seq, f)

    def anyall_seq(self, st, q, is_any):
        k = sym_p('i%d' % self.loopdepth, 'nat')
        if isinstance(q, App) and q.op == 'collect':
            dom, b, body = q.args
            body = subst(body, {b: leaf(k)})

            def f(t):
                r = N(not is_any)
                for kk, v in t.parts:
                    c = self.truth(st, v) if kk == 'e' else var(atom('truth', app_p('any', (t,))))
                    r = OR(r, c) if is_any else AND(r, c)
                return r
            c = map1(f, body)
            return self.exists(dom, k, c) if is_any else NOT(self.exists(dom, k, NOT(c)))
        dom = self.domain(q)
        if dom.leaf is None:
            return var(atom('truth', app_p('any' if is_any else 'all', (q,))))
        c = self.truth(st, self.item_p(st, q, k))
        return self.exists(dom.leaf, k, c) if is_any else NOT(self.exists(dom.leaf, k, NOT(c)))

    def b_sorted(self, st, args, kwargs, node):
        seq = self.as_seq(st, args[0][1], 'list')
        rev = kwargs.get('reverse')
        key = kwargs.get('key')

        def f(p):
            if key is None and all(k == 'e' and v.leaf is not None and (numconst(v.leaf) is not None) for k, v in p.parts):
                ps = sorted(p.parts, key=lambda t: numconst(t[1].leaf), reverse=rev is TRUE)
                return leaf(tup_p(ps, 'list'))
            if key is None and all(k == 'e' and isinstance(v.leaf, Const) and isinstance(v.leaf.value, str) for k, v in p.parts):
                ps = sorted(p.parts, key=lambda t: t[1].leaf.value, reverse=rev is TRUE)
                return leaf(tup_p(ps, 'list'))
            if len(p.parts) == 1 and p.parts[0][0] == 's':
                src = p.parts[0][1]
            else:
                src = leaf(p)
            extra = []
            if key is not None and key is not NONE:
                extra.append(key)
            if rev is not None and rev is not FALSE:
                extra.append(N('reverse'))
                extra.append(rev)
            t = mapn(lambda ps: leaf(app_p('sorted', tuple(ps), 'nn')), [src] + extra)
            return leaf(tup_p([('s', t)], 'list'))
        return self.new_container(st, 'list', map1(f, seq))

    def b_reversed(self, st, args, kwargs, node):
        seq = self.as_seq(st, args[0][1])

        def f(p):
            if all(k == 'e' for k, _ in p.parts):
                return leaf(tup_p(p.parts[::-1], 'tuple'))
            src = p.parts[0][1] if len(p.parts) == 1 else leaf(p)
            return leaf(tup_p([('s', map1(lambda q: leaf(app_p('reversed', (q,), 'nn')), src))], 'tuple'))
        return map1(f, seq)

    def seqs(self, st, args):
        """aligned sequence arguments: either lists of nodes or None"""
        out = []
        for k, v in args:
            s = self.as_seq(st, v)
            if s.leaf is None:
                return None
            out.append(s.leaf)
        return out

    def b_zip(self, st, args, kwargs, node):
        nodes = [self.as_seq(st, v) for k, v in args]

        def f(ps):
            if all(all(k == 'e' for k, _ in p.parts) for p in ps):
                n = min((len(p.parts) for p in ps), default=0)
                return tup([tup([p.parts[i][1] for p in ps]) for i in range(n)])
            srcs = []
            for p in ps:
                if len(p.parts) == 1 and p.parts[0][0] == 's' and p.parts[0][1].leaf is not None:
                    srcs.append(p.parts[0][1].leaf)
                else:
                    srcs.append(p)
            return leaf(tup_p([('s', leaf(app_p('zip', tuple(srcs), 'nn')))], 'tuple'))
        return mapn(f, nodes)

    def b_enumerate(self, st, args, kwargs, node):
        start = args[1][1] if len(args) > 1 else kwargs.get('start', N(0))
        seq = self.as_seq(st, args[0][1])

        def f(ps):
            p, s0 = ps
            if all(k == 'e' for k, _ in p.parts):
                return tup([tup([leaf(padd(num(i), s0)), v]) for i, (k, v) in enumerate(p.parts)])
            src = p.parts[0][1] if len(p.parts) == 1 else leaf(p)
            return leaf(tup_p([('s', map1(lambda q: leaf(app_p('enumerate', (q, s0), 'nn')), src))], 'tuple'))
        return mapn(f, [seq, start])

    def b_map(self, st, args, kwargs, node):
        fn = args[0][1]
        if len(args) == 2:
            return self.map_over(st, fn, args[1][1], node)
        z = self.b_zip(st, args[1:], {}, node)
        return self.map_over(st, fn, z, node, star=True)

    def map_over(self, st, fn, seq, node, star=False, cond=False):
        body_call = ast.Call(func=ast.Name(id='.f', ctx=ast.Load()),
                             args=[ast.Starred(value=ast.Name(id='.x', ctx=ast.Load()), ctx=ast.Load())] if star else [ast.Name(id='.x', ctx=ast.Load())], keywords=[])
        if cond:
            test = body_call
            comp = ast.GeneratorExp(elt=ast.Name(id='.x', ctx=ast.Load()), generators=[ast.comprehension(
                target=ast.Name(id='.x', ctx=ast.Store()), iter=ast.Name(id='.s', ctx=ast.Load()), ifs=[test], is_async=0)])
        else:
            comp = ast.GeneratorExp(elt=body_call, generators=[ast.comprehension(
                target=ast.Name(id='.x', ctx=ast.Store()), iter=ast.Name(id='.s', ctx=ast.Load()), ifs=[], is_async=0)])
        comp._direct = True
        e = ast.fix_missing_locations(ast.copy_location(comp, node) if node is not None else comp)
        fr0 = self.frame()
        fr = Frame(fr0.fn if not isinstance(fr0.fn, ClassInfo) else None, fr0.module, fr0, {'.f', '.s'})
        fr.handler_types = fr0.handler_types
        st.heap[(fr, '.f')] = fn
        st.heap[(fr, '.s')] = seq
        self.stack.append(fr)
        try:
            return self.eval(st, e)
        finally:
            self.stack.pop()

    def b_filter(self, st, args, kwargs, node):
        if args[0][1] is NONE:
            fn = leaf(ext_p('builtins.bool'))
        else:
            fn = args[0][1]
        return self.map_over(st, fn, args[1][1], node, cond=True)

    def b_list(self, st, args, kwargs, node):
        if not args:
            return self.new_container(st, 'list', leaf(tup_p([], 'list')))
        return self.new_container(st, 'list', self.as_seq(st, args[0][1], 'list'))

    def b_tuple(self, st, args, kwargs, node):
        if not args:
            return tup([])
        return self.as_seq(st, args[0][1], 'tuple')

    def b_set(self, st, args, kwargs, node):
        if not args:
            return self.new_container(st, 'set', leaf(tup_p([], 'set')))
        return self.make_set(st, self.as_seq(st, args[0][1], 'set'))

    b_frozenset = b_set

    def b_dict(self, st, args, kwargs, node):
        d = self.new_container(st, 'dict', leaf(map_p([], None)))
        for k, v in args:
            self.method(st, d, 'update', [(k, v)], {}, node)
        for k, v in kwargs.items():
            if k == '**':
                self.method(st, d, 'update', [('e', v)], {}, node)
            else:
                self.setitem(st, d, N(k), v, node)
        return d

    def l_builtins_dict_fromkeys(self, st, args, kwargs, node):
        d = self.new_container(st, 'dict', leaf(map_p([], None)))
        value = args[1][1] if len(args) > 1 else NONE
        seq = self.as_seq(st, args[0][1])
        if st.pc is FALSE:
            return UNDEF
        if seq.leaf is None or any(k != 'e' for k, _ in seq.leaf.parts):
            return self.unknown('dict.fromkeys over unknown keys', node)
        for _, k in seq.leaf.parts:
            self.setitem(st, d, k, value, node)
        return d

    def b_bytes(self, st, args, kwargs, node):
        def f(s, p):
            if isinstance(p, Const) and isinstance(p.value, bytes):
                return leaf(p)
            q = self.as_seq(s, leaf(p))
            if q.leaf is not None and isinstance(q.leaf, Tup) and all(k == 'e' and v.leaf is not None and numconst(v.leaf) is not None for k, v in q.leaf.parts):
                try:
                    return N(bytes(int(numconst(v.leaf)) for k, v in q.leaf.parts))
                except ValueError:
                    return self.raise_builtin(s, 'ValueError', 'bytes', node=node)
            return self.pure('bytes', [q], 'bytes')
        return self.by_cases(st, args[0][1], f) if args else N(b'')

    b_bytearray = b_bytes

    def b_hex(self, st, args, kwargs, node):
        return self.map_app(st, 'hex', [args[0][1]], (), 'str')

    def b_bin(self, st, args, kwargs, node):
        def f(p):
            k = numconst(p)
            if k is None and is_nat(p):
                return leaf(cat_p(['0b', app_p('fmt', (p, 'b'), 'str')]))
            return N(bin(int(k))) if k is not None else leaf(app_p('bin', (p,), 'str'))
        return map1(f, args[0][1])

    def b_ord(self, st, args, kwargs, node):
        def f(p):
            if isinstance(p, Const) and isinstance(p.value, str) and len(p.value) == 1:
                return N(ord(p.value))
            return leaf(app_p('ord', (p,), 'nat'))
        return map1(f, args[0][1])

    def b_chr(self, st, args, kwargs, node):
        return map1(lambda p: N(chr(int(numconst(p)))) if numconst(p) is not None else leaf(app_p('chr', (p,), 'str')), args[0][1])

    def b_id(self, st, args, kwargs, node):
        return map1(lambda p: leaf(app_p('id', (p,), 'int')), args[0][1])

    def b_hash(self, st, args, kwargs, node):
        return map1(lambda p: leaf(app_p('hash', (p,), 'int')), args[0][1])

    def b_callable(self, st, args, kwargs, node):
        def f(p):
            if isinstance(p, (Func, Bound, Cls, Ext, Meth)):
                return TRUE
            if isinstance(p, (Const, Poly, Tup, Cat)):
                return FALSE
            if isinstance(p, Obj):
                if isinstance(p.oid.cls, ClassInfo):
                    return N(self.class_attr(st, p.oid.cls, '__call__') is not None)
                return N(p.oid.cls == 'partial')
            if isinstance(p, (Sym, App)):
                if p.kind == 'cb':
                    return TRUE
                if p.kind in NUMKINDS or p.kind == 'str':
                    return FALSE
            return var(atom('callable', p))
        return map1(f, args[0][1])

    def b_type(self, st, args, kwargs, node):
        def f(p):
            if isinstance(p, Obj) and isinstance(p.oid.cls, ClassInfo):
                return leaf(cls_p(p.oid.cls))
            if isinstance(p, Obj) and p.oid.cls in ('list', 'dict', 'set'):
                return leaf(ext_p('builtins.' + p.oid.cls))
            if isinstance(p, Const):
                return leaf(ext_p('builtins.' + type(p.value).__name__))
            if isinstance(p, Cat):
                return leaf(ext_p('builtins.str'))
            if isinstance(p, Tup):
                return leaf(ext_p('builtins.tuple'))
            return leaf(app_p('type', (p,), 'any'))
        return map1(f, args[0][1])

    def b_isinstance(self, st, args, kwargs, node):
        return self.isinstance_(st, args[0][1], args[1][1])

    def isinstance_(self, st, v, cls):
        return map2(lambda p, c: self.inst_p(st, p, c), v, cls)

    def inst_p(self, st, p, c):
        if isinstance(c, Tup):
            r = FALSE
            for k, n in c.parts:
                r = OR(r, map1(lambda q: self.inst_p(st, p, q), n))
            return r
        if isinstance(c, App) and c.op == 'op|':
            return OR(self.inst_p(st, p, c.args[0]), self.inst_p(st, p, c.args[1]))
        if isinstance(c, Cls):
            if isinstance(p, Obj) and isinstance(p.oid.cls, ClassInfo):
                return N(p.oid.cls.is_sub(c.cls))
            if isinstance(p, (Const, Poly, Tup, Func, Cls, Bound, Cat, Ext)) or isinstance(p, Obj):
                return FALSE
            if isinstance(p, (Sym, App)) and p.kind in NUMKINDS + ('str', 'cb'):
                return FALSE
            return var(atom('isinstance', p, c))
        if isinstance(c, (Ext, Const)):
            n = c.name.rsplit('.', 1)[-1] if isinstance(c, Ext) else 'NoneType'
            t = self.type_names(p)
            if t is not None:
                return N(n in t)
            return var(atom('isinstance', p, c if not isinstance(c, Ext) else ext_p(n)))
        return var(atom('isinstance', p, c))

    def type_names(self, p):
        seq = {'Iterable', 'Sequence', 'Collection', 'Sized', 'Container', 'Reversible'}
        if isinstance(p, Const):
            v = p.value
            if isinstance(v, bool):
                return {'bool', 'int', 'object', 'Number', 'Real', 'Integral', 'Hashable'}
            if isinstance(v, str):
                return {'str', 'object', 'Hashable'} | seq
            if isinstance(v, bytes):
                return {'bytes', 'object', 'Hashable', 'ByteString'} | seq
            return {'NoneType', 'object'}
        if isinstance(p, Ext) and p.name.startswith('builtins.') and isinstance(getattr(builtins, p.name[9:], None), type):
            return {'type', 'object', 'Hashable', 'Callable'}
        if isinstance(p, Cat):
            return {'str', 'object', 'Hashable'} | seq
        if isinstance(p, Tup):
            if p.kind == 'vec':
                return {'ndarray', 'object', 'Iterable'}
            return {'tuple', 'object', 'Hashable'} | seq
        if isinstance(p, Poly):
            k = numconst(p)
            if k is not None and k.denominator != 1:
                return {'float', 'object', 'Number', 'Real', 'Hashable'}
            return {'int', 'float', 'object', 'Number', 'Real', 'Hashable', 'Integral'}
        if isinstance(p, (Func, Bound)):
            return {'function', 'object', 'Callable', 'Hashable'} | ({'Command'} if isinstance(p, Func) and self.is_command(p) else set())
        if isinstance(p, Obj):
            i = p.oid
            if i.cls == 'list':
                return {'list', 'object', 'MutableSequence'} | seq
            if i.cls == 'dict':
                return {'dict', 'object', 'Mapping', 'MutableMapping', 'Iterable', 'Collection', 'Sized', 'Container'}
            if i.cls == 'set':
                return {'set', 'object', 'Set', 'MutableSet', 'Iterable', 'Collection', 'Sized', 'Container', 'frozenset'}
            if i.cls == 'gen':
                return {'Generator', 'Iterator', 'Iterable', 'object'}
            if isinstance(i.cls, ClassInfo):
                r = {'object'} | {b.rsplit('.', 1)[-1] for b in i.cls.ext_bases()}
                if self.class_attr(self.world, i.cls, '__iter__') is not None:
                    r.add('Iterable')
                if is_intlike(i.cls):
                    r.add('int')
                return r
            if isinstance(i.cls, str) and i.cls.startswith('exc:'):
                c = getattr(builtins, i.cls[4:], None)
                return {x.__name__ for x in c.__mro__} if c else {i.cls[4:]}
            if i.cls == 'record':
                return {'object', 'Hashable'}
            return None
        if isinstance(p, (Sym, App)):
            if p.kind in ('int', 'nat'):
                return {'int', 'object', 'Number', 'Real', 'Integral', 'Hashable'}
            if p.kind == 'num':
                return {'float', 'object', 'Number', 'Real', 'Hashable'}
            if p.kind == 'str':
                return {'str', 'object', 'Hashable'} | seq
            if p.kind == 'bytes':
                return {'bytes', 'object', 'Hashable', 'ByteString'} | seq
            if isinstance(p, Sym) and p.meta == '#list':
                return {'list', 'object', 'MutableSequence'} | seq
        return None

    def is_command(self, p):
        for d in getattr(p.fn, 'decorators', []):
            if 'click.command' in show(d) or 'click.group' in show(d):
                return True
        return False

    def b_issubclass(self, st, args, kwargs, node):
        def f(a, b):
            if isinstance(a, Cls) and isinstance(b, Cls):
                return N(a.cls.is_sub(b.cls))
            if isinstance(a, Cls):
                if isinstance(b, Ext):
                    n = b.name.rsplit('.', 1)[-1]
                    return N(any(exc_sub(e.rsplit('.', 1)[-1], n) for e in a.cls.ext_bases()) or n == 'object')
            if isinstance(a, Ext) and isinstance(b, Ext):
                na, nb = a.name.rsplit('.', 1)[-1], b.name.rsplit('.', 1)[-1]
                if is_exc_name(na) and is_exc_name(nb):
                    return N(exc_sub(na, nb))
            return var(atom('issubclass', a, b))
        return map2(f, args[0][1], args[1][1])

    def b_getattr(self, st, args, kwargs, node):
        name = args[1][1]
        o = args[0][1]

        def f(s, q):
            if isinstance(q, Const) and isinstance(q.value, str):
                if len(args) > 2 or self.handled(s, 'AttributeError'):
                    coll = []
                    self.raises.append(coll)
                    # opaque objects may lack the attribute
                    def g(s2, p):
                        if isinstance(p, (Sym, App)) and not (isinstance(p, App) and p.op == '@super'):
                            has = var(atom('hasattr', p, q.value))
                            self.raise_builtin(s2, 'AttributeError', q.value, guard=NOT(has), node=node)
                            if s2.pc is FALSE:
                                return UNDEF
                        return self.getattr(s2, leaf(p), q.value, node)
                    v = self.by_cases(s, o, g)
                    self.raises.pop()
                    if len(args) > 2:
                        outs = [(s.copy(), v)]
                        for es, exc in coll:
                            if isinstance(exc.leaf, Obj) and exc.leaf.oid.cls == 'exc:AttributeError':
                                outs.append((es, args[2][1]))
                            else:
                                self.raises[-1].append((es, exc))
                        return self.join(s, outs)
                    for es, exc in coll:
                        self.raises[-1].append((es, exc))
                    return v
                return self.getattr(s, o, q.value, node)
            return self.by_cases(s, o, lambda s2, p: leaf(app_p('getattr', (p, q), 'any')))
        return self.by_cases(st, name, f)

    def b_hasattr(self, st, args, kwargs, node):
        def f(s, p):
            n = args[1][1].leaf
            if isinstance(p, (Sym, App)):
                return var(atom('hasattr', p, n.value))
            probe = s.copy()
            self.raises.append([])
            self.getattr(probe, leaf(p), n.value, node)
            r = self.raises.pop()
            return N(not r)
        return self.by_cases(st, args[0][1], f)

    def b_setattr(self, st, args, kwargs, node):
        n = args[1][1]

        def f(s, q):
            if isinstance(q, Const):
                self.setattr(s, args[0][1], q.value, args[2][1], node)
            else:
                self.effect(s, 'setattr', [args[0][1], leaf(q), args[2][1]], node)
            return NONE
        return self.by_cases(st, n, f)

    def b_super(self, st, args, kwargs, node):
        c = args[0][1].leaf
        return map1(lambda p: leaf(app_p('@super', (c, p))), args[1][1])

    def b_object(self, st, args, kwargs, node):
        info = ObjInfo('object#%d' % ObjInfo.count, 'object')
        return leaf(new_obj_p(info))

    def b_iter(self, st, args, kwargs, node):
        v = args[0][1]
        if v.leaf is not None and isinstance(v.leaf, Obj) and v.leaf.oid.cls in ('gen', 'count'):
            return v
        seq = self.as_seq(st, v, 'list')
        info = ObjInfo('iter#%d' % ObjInfo.count, 'gen')
        st.heap[(info, '@')] = seq
        st.heap[(info, 'pos')] = N(0)
        return leaf(new_obj_p(info))

    def next_of_list(self, s, oid, args, node):
        c = self.get(s, oid, '@')
        pos = self.get(s, oid, 'pos')
        n = map1(len_p, c)
        more = self.compare(s, '<', pos, n)
        if len(args) > 1:
            a = s.copy()
            a.pc = AND(s.pc, more)
            b = s.copy()
            b.pc = AND(s.pc, NOT(more))
            if a.pc is not FALSE and feasible(a.pc):
                v = self.seq_get(a, c, pos, node)
                a.heap[(oid, 'pos')] = map1(lambda q: leaf(padd(q, num(1))), pos)
            else:
                a.pc = FALSE
                v = UNDEF
            return self.join(s, [(a, v), (b, args[1][1])])
        self.raise_builtin(s, 'StopIteration', '', guard=NOT(more), node=node)
        if s.pc is FALSE:
            return UNDEF
        v = self.seq_get(s, c, pos, node)
        s.heap[(oid, 'pos')] = map1(lambda q: leaf(padd(q, num(1))), pos)
        return v

    def b_next(self, st, args, kwargs, node):
        def f(s, p):
            if isinstance(p, Obj) and p.oid.cls == 'count':
                v = self.get(s, p.oid, 'n')
                step = self.get(s, p.oid, 'step')
                self.put(s, p.oid, 'n', map2(lambda a, b: leaf(padd(a, b)), v, step), node)
                return v
            if isinstance(p, Obj) and self.is_lazy(s, p.oid):
                return self.gen_next(s, p.oid, args, node)
            if isinstance(p, Obj) and p.oid.cls == 'gen':
                return self.next_of_list(s, p.oid, args, node)
            if isinstance(p, Tup):       # generator expression
                if len(p.parts) == 0:
                    if len(args) > 1:
                        return args[1][1]
                    return self.raise_builtin(s, 'StopIteration', '', node=node)
                if p.parts[0][0] == 'e':
                    return p.parts[0][1]
                return self.by_cases(s, p.parts[0][1], lambda s2, q: self.next_of(s2, q, args, node))
            # opaque iterator: the n-th element, may stop
            cnt = self.get(s, 'cnt', p)
            if self.handled(s, 'StopIteration'):
                g = map1(lambda q: var(atom('stops', p, q)), cnt)
                self.raise_builtin(s, 'StopIteration', '', guard=g, node=node)
                if s.pc is FALSE:
                    return UNDEF
            s.heap[('cnt', p)] = map1(lambda q: leaf(padd(q, num(1))), cnt)
            self.effect(s, 'next', [leaf(p)], node)
            return self.pure('next', [leaf(p), cnt], 'any')
        return self.by_cases(st, args[0][1], f)

    def next_of(self, st, q, args, node):
        """first element of an opaque sequence"""
        k = sym_p('i%d' % self.loopdepth, 'nat')
        if isinstance(q, App) and q.op == 'collect':
            dom, b, body = q.args
            body = subst(body, {b: leaf(k)})
            lv = leaves(body)
            if all(isinstance(t, Tup) and len(t.parts) <= 1 and all(kk == 'e' for kk, _ in t.parts) for t in lv):
                empty = [t for t in lv if not t.parts]
                cond = NOT(where(body, empty[0])) if empty else TRUE
                from .loops import bindk, resimp
                ex = self.exists(dom, k, cond)
                first = leaf(app_p('firstidx', (dom, bindk(k, cond)[1][0]), 'nat'))
                val = map1(lambda t: t.parts[0][1] if t.parts else UNDEF, body)
                val = restrict(val, cond)
                val = subst(val, {k: first}, resimp)
                if len(args) > 1:
                    return ite(ex, val, args[1][1])
                self.raise_builtin(st, 'StopIteration', '', guard=NOT(ex), node=node)
                return val
        n = self.domain(q)
        ne = map1(lambda d: NOT(num_eq(d)), n)
        v = self.item_p(st, q, 0)
        if len(args) > 1:
            return ite(ne, v, args[1][1])
        self.raise_builtin(st, 'StopIteration', '', guard=NOT(ne), node=node)
        return v

    def b_vars(self, st, args, kwargs, node):
        return self.getattr(st, args[0][1], '__dict__', node)

    def b_open(self, st, args, kwargs, node):
        f = self.stubs.get(('ext', 'open'))
        if f is not None:
            return self.call(st, leaf(f), [v for k, v in args], kwargs, node)
        self.effect(st, 'ext', [leaf(ext_p('builtins.open'))] + [v for k, v in args], node)
        return self.pure('file', [v for k, v in args], 'nn')

    # -- library ----------------------------------------------------------
    def l_itertools_count(self, st, args, kwargs, node):
        info = ObjInfo('count#%d' % ObjInfo.count, 'count')
        st.heap[(info, 'n')] = args[0][1] if args else kwargs.get('start', N(0))
        st.heap[(info, 'step')] = args[1][1] if len(args) > 1 else kwargs.get('step', N(1))
        return leaf(new_obj_p(info))

    def l_itertools_chain(self, st, args, kwargs, node):
        parts = []
        for k, v in args:
            s = self.as_seq(st, v)
            if s.leaf is not None:
                parts += list(s.leaf.parts)
            else:
                parts.append(('s', s))
        return leaf(tup_p(parts, 'tuple'))

    def l_functools_partial(self, st, args, kwargs, node):
        info = ObjInfo('partial#%d' % ObjInfo.count, 'partial')
        st.heap[(info, 'func')] = args[0][1]
        st.heap[(info, 'args')] = leaf(tup_p(args[1:], 'tuple'))
        st.heap[(info, 'kw')] = leaf(map_p([(N(k), v, TRUE) for k, v in kwargs.items()]))
        return leaf(new_obj_p(info))

    def l_functools_reduce(self, st, args, kwargs, node):
        fn, seqn = args[0][1], args[1][1]
        seq = self.as_seq(st, seqn)
        if seq.leaf is not None and all(k == 'e' for k, _ in seq.leaf.parts):
            items = [v for k, v in seq.leaf.parts]
            acc = args[2][1] if len(args) > 2 else None
            for v in items:
                acc = v if acc is None else self.call(st, fn, [acc, v], {}, node)
            return acc if acc is not None else UNDEF
        return self.pure('reduce', [fn, seq] + [v for k, v in args[2:]])

    def l_enum_auto(self, st, args, kwargs, node):
        return leaf(app_p('@auto', ()))

    def l_enum_unique(self, st, args, kwargs, node):
        return args[0][1]

    def l_dataclasses_dataclass(self, st, args, kwargs, node):
        return args[0][1] if args else leaf(ext_p('dataclasses.dataclass'))

    def field_(self, st, args, kwargs, node):
        d = args[0][1] if args else kwargs.get('default', UNDEF)
        f = kwargs.get('default_factory', NONE)
        if d.leaf is not None and isinstance(d.leaf, Const) and d.leaf.value is Ellipsis:
            d = UNDEF
        if d.leaf is None:
            return d
        return leaf(app_p('@field', (d.leaf, f.leaf)))

    l_dataclasses_field = field_
    l_pydantic_Field = field_

    def l_dataclasses_asdict(self, st, args, kwargs, node):
        return self.to_dict(st, args[0][1], node)

    def l_dataclasses_replace(self, st, args, kwargs, node):
        def f(s, p):
            info = self.new_instance(p.oid.cls)
            for n in self.all_fields(p.oid.cls):
                s.heap[(info, n)] = kwargs.get(n) or self.getattr_p(s, p, n, node)
            return leaf(new_obj_p(info))
        return self.by_cases(st, args[0][1], f)

    def to_dict(self, st, v, node):
        def f(s, p):
            if isinstance(p, Obj) and isinstance(p.oid.cls, ClassInfo):
                ent = [(N(n), self.getattr_p(s, p, n, node), TRUE) for n in self.all_fields(p.oid.cls)]
                return self.new_container(s, 'dict', leaf(map_p(ent)))
            return leaf(app_p('asdict', (p,)))
        return self.by_cases(st, v, f)

    def l_copy_copy(self, st, args, kwargs, node):
        def f(s, p):
            if isinstance(p, Obj):
                i = p.oid
                if i.cls in ('list', 'dict', 'set'):
                    return self.new_container(s, i.cls, self.get(s, i, '@'))
                if isinstance(i.cls, ClassInfo) and not i.cls.is_enum:
                    n = self.new_instance(i.cls)
                    for (o, k), v in list(s.heap.items()):
                        if o is i:
                            s.heap[(n, k)] = v
                    if i.symbolic:
                        n.symbolic = True
                        n.name = i.name
                    return leaf(new_obj_p(n))
            return leaf(p)
        return self.by_cases(st, args[0][1], f)

    l_copy_deepcopy = l_copy_copy

    def l_collections_namedtuple(self, st, args, kwargs, node):
        name = args[0][1].leaf.value
        f = args[1][1]
        if isinstance(f.leaf, Const):
            names = f.leaf.value.replace(',', ' ').split()
        else:
            names = [v.leaf.value for k, v in self.as_seq(st, f).leaf.parts]
        n = ast.ClassDef(name=name, bases=[], keywords=[], body=[], decorator_list=[], lineno=getattr(node, 'lineno', 0))
        c = ClassInfo(name, self.frame().module, n, ['typing.NamedTuple'])
        c.fields = names
        return leaf(cls_p(c))

    def l_collections_defaultdict(self, st, args, kwargs, node):
        d = self.new_container(st, 'dict', leaf(map_p([], None)))
        st.heap[(d.leaf.oid, 'factory')] = args[0][1] if args else NONE
        return d

    def l_collections_OrderedDict(self, st, args, kwargs, node):
        return self.b_dict(st, args, kwargs, node)

    def l_collections_deque(self, st, args, kwargs, node):
        return self.b_list(st, args[:1], {}, node)

    def l_numpy_array(self, st, args, kwargs, node):
        copy = kwargs.get('copy')
        if copy is not None and copy.leaf is not TRUE_P:
            return self.l_numpy_asarray(st, args, kwargs, node)
        return map1(lambda p: self.boxed(st, leaf(p)), self.as_vec(st, args[0][1]))

    def boxed(self, st, v):
        p = v.leaf
        if isinstance(p, Tup) and all(k == 'e' for k, _ in p.parts):
            return self.array(st, [map1(lambda q: self.boxed(st, leaf(q)), n) for _, n in p.parts])
        return v

    def l_numpy_asarray(self, st, args, kwargs, node):
        # an array stays the same
        return map1(lambda p: leaf(p) if isinstance(p, Obj) and p.oid.array else self.boxed(st, self.as_vec(st, leaf(p))), args[0][1])

    def l_numpy_copy(self, st, args, kwargs, node):
        return self.l_numpy_array(st, args[:1], {}, node)

    def as_vec(self, st, v):
        v = self.snapshot(st, v)

        def f(p):
            if isinstance(p, Tup):
                def conv(n):
                    return map1(lambda q: leaf(tup_p([(k, conv(x)) for k, x in q.parts], 'vec')) if isinstance(q, Tup) else leaf(q), n)
                if len(p.parts) == 1 and p.parts[0][0] == 's':
                    return p.parts[0][1]
                return leaf(tup_p([(k, conv(n)) for k, n in p.parts], 'vec'))
            return leaf(p)
        return map1(f, v)

    l_numpy_float64 = b_float
    l_numpy_int64 = b_int

    def array(self, st, content):
        """a changeable numpy array of known shape"""
        r = self.new_container(st, 'list', leaf(tup_p([('e', x) for x in content], 'list')))
        r.leaf.oid.array = True
        return r

    def shaped(self, st, args, kwargs, value, name):
        shape = args[0][1] if args else kwargs.get('shape', UNDEF)
        p = shape.leaf
        if isinstance(p, Obj) and p.oid.cls == 'list':
            p = self.get(st, p.oid, '@').leaf
        dims = [n.leaf for _, n in p.parts] if isinstance(p, Tup) else [p]
        ks = [numconst(d) if d is not None and maybe_num(d) else None for d in dims]
        if None in ks or not 1 <= len(ks) <= 2:
            return self.pure(name, [v for k, v in args], 'any')
        if len(ks) == 1:
            return self.array(st, [value] * int(ks[0]))
        return self.array(st, [self.array(st, [value] * int(ks[1])) for _ in range(int(ks[0]))])

    def l_numpy_zeros(self, st, args, kwargs, node):
        return self.shaped(st, args[:1], kwargs, N(0), 'numpy.zeros')

    def l_numpy_ones(self, st, args, kwargs, node):
        return self.shaped(st, args[:1], kwargs, N(1), 'numpy.ones')

    def l_numpy_full(self, st, args, kwargs, node):
        return self.shaped(st, args[:1], kwargs, args[1][1] if len(args) > 1 else kwargs['fill_value'], 'numpy.full')

    def l_numpy_eye(self, st, args, kwargs, node):
        k = numconst(args[0][1].leaf) if len(args) == 1 and not kwargs and args[0][1].leaf is not None else None
        if k is None:
            return self.pure('numpy.eye', [v for _, v in args], 'any')
        return self.array(st, [self.array(st, [N(int(i == j)) for j in range(int(k))]) for i in range(int(k))])

    l_numpy_identity = l_numpy_eye

    def l_numpy_cumsum(self, st, args, kwargs, node):
        v = self.as_vec(st, args[0][1])
        axis = args[1][1] if len(args) > 1 else kwargs.get('axis', NONE)

        def rows(p):
            if not isinstance(p, Tup) or not all(k == 'e' for k, _ in p.parts):
                return None
            return [n for _, n in p.parts]

        def run(items):
            out = [items[0]]
            for x in items[1:]:
                out.append(self.binop(st, '+', out[-1], x, node))
            return out

        def f(p):
            r = rows(p)
            ax = numconst(axis.leaf) if axis.leaf is not None and maybe_num(axis.leaf) else None
            if r and all(isinstance(x.leaf, Tup) and rows(x.leaf) for x in r):
                m = [rows(x.leaf) for x in r]
                if ax in (1, -1):
                    return tup([tup(run(x), 'vec') for x in m], 'vec')
                if ax == 0:
                    return tup(run(r), 'vec')
                return tup(run([x for y in m for x in y]), 'vec')
            if r and not any(isinstance(x.leaf, Tup) for x in r):
                return tup(run(r), 'vec')
            return self.pure('numpy.cumsum', [leaf(p), axis], 'any')
        return map1(f, v)

    def l_numpy_linalg_inv(self, st, args, kwargs, node):
        def f(p):
            if isinstance(p, Tup) and all(k == 'e' for k, _ in p.parts):
                return tup([leaf(app_p('invrow', (p, num(i)))) for i in range(len(p.parts))], 'vec')
            return leaf(app_p('numpy.linalg.inv', (p,)))
        return map1(f, self.as_vec(st, args[0][1]))

    def l_numpy_linalg_solve(self, st, args, kwargs, node):
        inv = self.l_numpy_linalg_inv(st, args[:1], {}, node)
        return self.l_numpy_dot(st, [('e', inv), args[1]], {}, node)

    def l_numpy_dot(self, st, args, kwargs, node):
        def f(a, b):
            # row i of the inverse of A times b: element i of the solution of A x = b
            if isinstance(a, App) and a.op == 'invrow':
                return leaf(app_p('solved', a.args + (b,), 'num'))
            if isinstance(a, Tup) and a.parts and all(k == 'e' and isinstance(n.leaf, App) and n.leaf.op == 'invrow'
                                                      for k, n in a.parts):
                return tup([leaf(app_p('solved', n.leaf.args + (b,), 'num')) for _, n in a.parts], 'vec')
            va = [n for k, n in a.parts] if isinstance(a, Tup) and all(k == 'e' for k, _ in a.parts) else None
            vb = [n for k, n in b.parts] if isinstance(b, Tup) and all(k == 'e' for k, _ in b.parts) else None
            if va is not None and vb is not None and len(va) == len(vb):
                r = N(0)
                for x, y in zip(va, vb):
                    r = map2(lambda p, q: leaf(padd(p, q)), r, map2(lambda p, q: leaf(pmul(p, q)), x, y))
                return r
            return dot_p(a, b)
        a, b = (self.as_vec(st, x[1]) for x in args[:2])
        return map2(f, a, b)

    l_numpy_inner = l_numpy_vdot = l_numpy_matmul = l_numpy_dot

    def l_numpy_linalg_norm(self, st, args, kwargs, node):
        v = self.as_vec(st, args[0][1])

        def f(p):
            if isinstance(p, Tup) and all(k == 'e' for k, _ in p.parts):
                r = N(0)
                for k, x in p.parts:
                    r = map2(lambda a, q: leaf(padd(a, pmul(q, q))), r, x)
                return map1(lambda q: leaf(pow_p(q, num(Fraction(1, 2)))), r)
            # |a - b| = |b - a|; |c*a| = |c|*|a| for numbers c
            if isinstance(p, Poly) and p.terms:
                lead = p.terms[0][1]
                from .values import _mkpoly
                p2 = _mkpoly({m: c / lead for m, c in p.terms})
                return leaf(pmul(num(abs(lead)), app_p('norm', (p2,), 'num')))
            return leaf(app_p('norm', (p,), 'num'))
        return map1(f, v)

    def l_numpy_linspace(self, st, args, kwargs, node):
        return self.pure('numpy.linspace', [v for k, v in args], 'any')

    def l_statistics_mean(self, st, args, kwargs, node):
        n = self.b_len(st, args[:1], {}, node)
        return self.binop(st, '/', self.b_sum(st, args[:1], {}, node), n, node)

    l_numpy_mean = l_numpy_average = l_statistics_fmean = l_statistics_mean

    def unwrap(self, s):
        def f(p):
            if isinstance(p, Tup):
                if len(p.parts) == 1 and p.parts[0][0] == 's':
                    return p.parts[0][1]
                return leaf(tup_p(p.parts, 'list'))
            return leaf(p)
        return map1(f, s)

    # heaps: sifted as heapq does when the order of the items is decided, otherwise kept sorted (a sorted list is a
    # heap too)
    def sift(self, st, items, mode, node):
        """push: the last item goes up; pop: the last item replaces the first one. None when the order is not known"""
        def lt(a, b):
            c = self.compare(st, '<', a, b, node)
            if c is TRUE or c is FALSE:
                return c is TRUE
            raise LookupError

        def up(h, start, pos):
            new = h[pos]
            while pos > start:
                parent = (pos - 1) >> 1
                if not lt(new, h[parent]):
                    break
                h[pos] = h[parent]
                pos = parent
            h[pos] = new

        def down(h, pos):
            start, end, new = pos, len(h), h[pos]
            child = 2 * pos + 1
            while child < end:
                if child + 1 < end and not lt(h[child], h[child + 1]):
                    child += 1
                h[pos] = h[child]
                pos = child
                child = 2 * pos + 1
            h[pos] = new
            up(h, start, pos)
        h = list(items)
        try:
            if mode == 'push':
                up(h, 0, len(h) - 1)
                return h
            if mode == 'heapify':
                for i in reversed(range(len(h) // 2)):
                    down(h, i)
                return h
            last = h.pop()
            if not h:
                return last, h
            first, h[0] = h[0], last
            down(h, 0)
            return first, h
        except LookupError:
            return None

    def ordered(self, st, q, node):
        """the known items in order"""
        acc = leaf(tup_p([], 'list'))
        for k, v in q.parts:
            acc = self.by_cases(st, acc, lambda s3, z: self.insort(s3, z, v, node))
        return acc

    def heap_insert(self, st, q, item, node):
        if isinstance(q, Tup) and all(k == 'e' for k, _ in q.parts):
            h = self.sift(st, [v for _, v in q.parts] + [item], 'push', node)
            if h is not None:
                return leaf(tup_p([('e', v) for v in h], 'list'))
            return self.by_cases(st, self.ordered(st, q, node), lambda s2, z: self.insort(s2, z, item, node))
        return self.insort(st, q, item, node)

    def l_bisect_insort(self, st, args, kwargs, node):
        h, item = args[0][1], args[1][1]

        def f(s, p):
            if isinstance(p, Obj) and p.oid.cls == 'list':
                c = self.get(s, p.oid, '@')
                self.put(s, p.oid, '@', self.by_cases(s, c, lambda s2, q: self.insort(s2, q, item, node)), node)
            return NONE
        return self.by_cases(st, h, f)

    l_bisect_insort_right = l_bisect_insort

    def l_heapq_heappush(self, st, args, kwargs, node):
        self.effect(st, 'heappush', [args[0][1], args[1][1]], node)
        h, item = args[0][1], args[1][1]

        def f(s, p):
            if isinstance(p, Obj) and p.oid.cls == 'list':
                c = self.get(s, p.oid, '@')
                self.put(s, p.oid, '@', self.by_cases(s, c, lambda s2, q: self.heap_insert(s2, q, item, node)), node)
            return NONE
        return self.by_cases(st, h, f)

    def insort(self, st, q, item, node):
        if not isinstance(q, Tup) or any(k != 'e' for k, _ in q.parts):
            return leaf(tup_p([('s', leaf(app_p('heap+', (q, item), 'nn')))], 'list'))
        parts = q.parts
        out = leaf(tup_p(parts + (('e', item),), 'list'))
        for j in range(len(parts) - 1, -1, -1):
            c = self.compare(st, '<', item, parts[j][1], node)
            out = ite(c, leaf(tup_p(parts[:j] + (('e', item),) + parts[j:], 'list')), out)
        return out

    def l_heapq_heapify(self, st, args, kwargs, node):
        def f(s, p):
            if isinstance(p, Obj) and p.oid.cls == 'list':
                c = self.get(s, p.oid, '@')

                def g(s2, q):
                    if not isinstance(q, Tup) or any(k != 'e' for k, _ in q.parts):
                        return leaf(tup_p([('s', leaf(app_p('heapify', (q,), 'nn')))], 'list'))
                    h = self.sift(s2, [v for _, v in q.parts], 'heapify', node)
                    if h is not None:
                        return leaf(tup_p([('e', v) for v in h], 'list'))
                    return self.ordered(s2, q, node)
                self.put(s, p.oid, '@', self.by_cases(s, c, g), node)
            return NONE
        return self.by_cases(st, args[0][1], f)

    def l_heapq_heappop(self, st, args, kwargs, node):
        self.effect(st, 'heappop', [args[0][1]], node)

        def f(s, p):
            if isinstance(p, Obj) and p.oid.cls == 'list':
                c = self.get(s, p.oid, '@')
                opaque = any(not isinstance(q, Tup) or any(k != 'e' for k, _ in q.parts) for q in leaves(c))
                if not opaque:
                    def take(s2, q):
                        if q.parts:
                            r = self.sift(s2, [v for _, v in q.parts], 'pop', node)
                            if r is not None:
                                self.put(s2, p.oid, '@', leaf(tup_p([('e', v) for v in r[1]], 'list')), node)
                                return r[0]
                            self.put(s2, p.oid, '@', self.ordered(s2, q, node), node)
                        return self.m_list_pop(s2, p.oid, [('e', N(0))], {}, node)
                    return self.by_cases(s, c, take)
                t = map1(lambda q: leaf(tup_p([('s', leaf(app_p('heap-', (q,), 'nn')))], 'list')), c)
                self.put(s, p.oid, '@', t, node)
                return map1(lambda q: leaf(app_p('heapmin', (q,), 'nn')), c)
            return self.pure('heapmin', [leaf(p)], 'nn')
        return self.by_cases(st, args[0][1], f)

    def l_heapq_heappushpop(self, st, args, kwargs, node):
        self.l_heapq_heappush(st, args, {}, node)
        return self.l_heapq_heappop(st, args[:1], {}, node)

    def l_heapq_heapreplace(self, st, args, kwargs, node):
        r = self.l_heapq_heappop(st, args[:1], {}, node)
        self.l_heapq_heappush(st, args, {}, node)
        return r

    def l_time_sleep(self, st, args, kwargs, node):
        return NONE

    def l_random_randrange(self, st, args, kwargs, node):
        a = [v for k, v in args]
        if len(a) == 1:
            a = [N(0)] + a
        if len(a) == 2:
            hi = self.binop(st, '-', a[1], N(1), node)
            return self.fresh(st, 'random.randint', [a[0], hi], {}, node)
        return self.fresh(st, 'random.randrange', a, kwargs, node)

    def l_numpy_random_randint(self, st, args, kwargs, node):
        a = [v for k, v in args]
        if 'high' in kwargs:
            a.append(kwargs['high'])
        if 'low' in kwargs:
            a.insert(0, kwargs['low'])
        if len(a) == 1:
            a = [N(0)] + a
        if len(a) == 2 and 'size' not in kwargs:
            hi = self.binop(st, '-', a[1], N(1), node)
            return self.fresh(st, 'random.randint', [a[0], hi], {}, node)
        return self.fresh(st, 'numpy.random.randint', a, kwargs, node)

    def l_numpy_random_random(self, st, args, kwargs, node):
        if args or kwargs:
            return self.fresh(st, 'numpy.random.random', [v for k, v in args], kwargs, node)
        return self.fresh(st, 'random.random', [], {}, node)

    l_numpy_random_rand = l_numpy_random_random_sample = l_numpy_random_random

    def l_numpy_random_uniform(self, st, args, kwargs, node):
        lo = args[0][1] if args else kwargs.get('low', kwargs.get('a', N(0)))
        hi = args[1][1] if len(args) > 1 else kwargs.get('high', kwargs.get('b', N(1)))
        if len(args) < 3 and 'size' not in kwargs:
            u = self.ext_call(st, 'random.random', [], {}, node)
            return self.binop(st, '+', lo, self.binop(st, '*', self.binop(st, '-', hi, lo, node), u, node), node)
        return self.fresh(st, 'random.uniform', [v for k, v in args], kwargs, node)

    l_random_uniform = l_numpy_random_uniform

    # -- methods ----------------------------------------------------------
    def method(self, st, me, name, args, kwargs, node=None):
        return self.by_cases(st, me, lambda s, p: self.method_p(s, p, name, args, kwargs, node))

    def method_p(self, st, p, name, args, kwargs, node):
        if isinstance(p, Obj):
            cls = p.oid.cls
            if cls in ('list', 'dict', 'set', 'gen', 'count'):
                m = getattr(self, 'm_%s_%s' % (cls, name), None)
                if m is not None:
                    return m(st, p.oid, args, kwargs, node)
                if cls == 'gen' and name in ('__next__', 'send'):
                    return self.b_next(st, [('e', leaf(p))], {}, node)
                if name == '__iter__':
                    return leaf(p)
                if name == '__len__':
                    return self.b_len(st, [('e', leaf(p))], {}, node)
                if name == '__contains__':
                    return self.contains(st, leaf(p), args[0][1], node)
                if name == '__getitem__':
                    return self.getitem(st, leaf(p), args[0][1], node)
                if name in ('index', 'count') and cls == 'list':
                    return self.pure(name + 'of', [self.snapshot(st, leaf(p)), args[0][1]], 'nat')
                if name == 'sort' and cls == 'list':
                    r = self.b_sorted(st, [('e', leaf(p))], kwargs, node)
                    self.put(st, p.oid, '@', self.get(st, r.leaf.oid, '@'), node)
                    return NONE
                if name == 'reverse' and cls == 'list':
                    r = self.b_reversed(st, [('e', leaf(p))], {}, node)
                    self.put(st, p.oid, '@', map1(lambda q: leaf(tup_p(q.parts, 'list')), r), node)
                    return NONE
                self.note('method %s.%s' % (cls, name), node)
                return self.opaque_call(st, app_p('attr', (p, name)), args, kwargs, node)
            if isinstance(cls, ClassInfo) and cls.is_pydantic:
                if name in ('dict', 'model_dump'):
                    return self.to_dict(st, leaf(p), node)
                if name in ('copy', 'model_copy'):
                    return self.l_copy_copy(st, [('e', leaf(p))], {}, node)
            return self.opaque_call(st, app_p('attr', (p, name)), args, kwargs, node)
        if isinstance(p, App) and p.op == '@super':
            mep = p.args[1]
            if name == '__init__':
                c = mep.oid.cls if isinstance(mep, Obj) else None
                if c is not None and isinstance(c, ClassInfo):
                    if c.is_pydantic:
                        self.init_fields(st, c, mep.oid, args, kwargs, node)
                    elif any(is_exc_name(b.rsplit('.', 1)[-1]) for b in c.ext_bases()):
                        st.heap[(mep.oid, 'args')] = leaf(tup_p(args, 'tuple'))
                    else:
                        st.heap[(mep.oid, '@super')] = leaf(tup_p(args, 'tuple'))
                        if any(b not in ('object', 'builtins.object', 'abc.ABC') for b in c.ext_bases()):
                            self.effect(st, 'superinit', [leaf(mep), leaf(tup_p(args, 'tuple')),
                                                          tup([tup([N(k), v]) for k, v in sorted(kwargs.items())])], node)
                return NONE
            if name == '__setattr__':
                q = args[0][1].leaf
                if isinstance(mep, Obj) and isinstance(q, Const):
                    self.put(st, mep.oid, q.value, args[1][1], node)
                return NONE
            if name == '__getattribute__':
                return self.getattr_p(st, mep, args[0][1].leaf.value, node)
            kn = [app('kw', [N(k), v]) for k, v in sorted(kwargs.items())]
            return self.opaque_call(st, app_p('attr', (p, name)), args, kwargs, node)
        if isinstance(p, Const) and isinstance(p.value, (str, bytes)) or isinstance(p, Cat) or (isinstance(p, (Sym, App)) and p.kind in ('str', 'bytes')):
            return self.str_method(st, p, name, args, kwargs, node)
        if isinstance(p, Tup):
            return self.tup_method(st, p, name, args, kwargs, node)
        if isinstance(p, Poly) or (isinstance(p, (Sym, App)) and p.kind in NUMKINDS):
            if name == 'conjugate':
                return leaf(complex_part('conj', p))
            if name == 'is_integer':
                return is_whole(p)
            plain = [v for k, v in args]
            if name == 'bit_length':
                k = numconst(p)
                return N(int(k).bit_length()) if k is not None else leaf(app_p('bitlen', (p,), 'nat'))
            if name == 'dot':
                return self.l_numpy_dot(st, [('e', leaf(p))] + list(args), {}, node)
            return self.pure('num.' + name, [leaf(p)] + plain, 'any')
        if isinstance(p, Undef):
            return UNDEF
        return self.opaque_call(st, app_p('attr', (p, name)), args, kwargs, node)

    def tup_method(self, st, p, name, args, kwargs, node):
        if name == 'index' or name == 'count':
            return self.pure(name + 'of', [leaf(p), args[0][1]], 'nat')
        if name == 'dot':
            return self.l_numpy_dot(st, [('e', leaf(p))] + list(args), {}, node)
        if name in ('tolist', 'copy'):
            return leaf(p)
        if name == 'sum':
            return self.b_sum(st, [('e', leaf(p))], {}, node)
        if name == 'cumsum':
            return self.l_numpy_cumsum(st, [('e', leaf(p))] + list(args), kwargs, node)
        return self.pure('tuple.' + name, [leaf(p)] + [v for k, v in args])

    # lists
    def upd(self, st, info, f, node):
        c = self.get(st, info, '@')
        self.put(st, info, '@', map1(f, c), node)

    @staticmethod
    def parts(q):
        return q.parts if isinstance(q, Tup) else (('s', leaf(q)),)

    def m_list_cumsum(self, st, i, args, kwargs, node):
        return self.l_numpy_cumsum(st, [('e', leaf(new_obj_p(i)))] + list(args), kwargs, node)

    def m_list_append(self, st, i, args, kwargs, node):
        v = args[0][1]
        self.upd(st, i, lambda q: leaf(tup_p(self.parts(q) + (('e', v),), 'list')), node)
        return NONE

    def m_list_extend(self, st, i, args, kwargs, node):
        s = self.as_seq(st, args[0][1], 'list')
        c = self.get(st, i, '@')
        self.put(st, i, '@', map2(lambda a, b: leaf(tup_p(self.parts(a) + b.parts, 'list')), c, s), node)
        return NONE

    def m_list_appendleft(self, st, i, args, kwargs, node):
        v = args[0][1]
        self.upd(st, i, lambda q: leaf(tup_p((('e', v),) + self.parts(q), 'list')), node)
        return NONE

    def m_list_insert(self, st, i, args, kwargs, node):
        k = numconst(args[0][1].leaf) if args[0][1].leaf is not None else None
        v = args[1][1]

        def f(q):
            ps = list(self.parts(q))
            if k is not None and all(x == 'e' for x, _ in ps[:int(k)]) and k >= 0:
                ps.insert(int(k), ('e', v))
                return leaf(tup_p(ps, 'list'))
            return leaf(tup_p([('s', leaf(app_p('insert', (q, args[0][1], v), 'nn')))], 'list'))
        self.upd(st, i, f, node)
        return NONE

    def m_list_pop(self, st, i, args, kwargs, node):
        k = -1
        if args:
            kk = numconst(args[0][1].leaf) if args[0][1].leaf is not None else None
            if kk is None:
                c = self.get(st, i, '@')
                idx = args[0][1]
                r = self.item_of(st, c, idx.leaf) if idx.leaf is not None else self.pure('item', [c, idx])
                self.upd(st, i, lambda q: leaf(tup_p([('s', leaf(app_p('popped', (q, idx), 'nn')))], 'list')), node)
                return r
            k = int(kk)
        c = self.get(st, i, '@')

        def f(s, q):
            ps = list(self.parts(q))
            if all(x == 'e' for x, _ in ps):
                if not -len(ps) <= k < len(ps):
                    return self.raise_builtin(s, 'IndexError', 'pop from empty list', node=node)
                v = ps.pop(k)[1]
                self.put(s, i, '@', leaf(tup_p(ps, 'list')), node)
                return v
            if (k == -1 and ps and ps[-1][0] == 'e') or (k == 0 and ps and ps[0][0] == 'e'):
                v = ps.pop(k)[1]
                self.put(s, i, '@', leaf(tup_p(ps, 'list')), node)
                return v
            n = seq_len(q)
            e = map1(num_eq, n)
            if self.handled(s, 'IndexError'):
                self.raise_builtin(s, 'IndexError', 'pop from empty list', guard=e, node=node)
                if s.pc is FALSE:
                    return UNDEF
            v = self.item_p(s, q, k)
            self.put(s, i, '@', leaf(tup_p([('s', leaf(app_p('popped', (q, num(k)), 'nn')))], 'list')), node)
            return v if v is not None else UNDEF
        return self.by_cases(st, c, f)

    def m_list_popleft(self, st, i, args, kwargs, node):
        return self.m_list_pop(st, i, [('e', N(0))], {}, node)

    def m_list_remove(self, st, i, args, kwargs, node):
        v = args[0][1]
        c = self.get(st, i, '@')

        def f(s, q):
            ps = list(self.parts(q))
            if all(x == 'e' for x, _ in ps):
                r = None
                missing = TRUE
                conds = []
                outs = []
                for j, (_, x) in enumerate(ps):
                    e = self.equal(s, x, v)
                    outs.append((AND(missing, e), leaf(tup_p(ps[:j] + ps[j + 1:], 'list'))))
                    missing = AND(missing, NOT(e))
                r = leaf(tup_p(ps, 'list'))
                for g, val in outs:
                    r = ite(g, val, r)
                self.raise_builtin(s, 'ValueError', 'list.remove', guard=missing, node=node)
                if s.pc is not FALSE:
                    self.put(s, i, '@', r, node)
                return NONE
            has = self.seq_has(s, q, v)
            if self.handled(s, 'ValueError'):
                self.raise_builtin(s, 'ValueError', 'list.remove', guard=NOT(has), node=node)
                if s.pc is FALSE:
                    return UNDEF
            if len(ps) == 1:
                src = ps[0][1]
            else:
                src = leaf(q)
            self.put(s, i, '@', map2(lambda a, b: leaf(tup_p([('s', leaf(app_p('without', (a, b), 'nn')))], 'list')), src, v), node)
            return NONE
        return self.by_cases(st, c, f)

    def m_list_clear(self, st, i, args, kwargs, node):
        self.put(st, i, '@', leaf(tup_p([], 'list')), node)
        return NONE

    def m_list_copy(self, st, i, args, kwargs, node):
        if i.array:
            return self.l_numpy_array(st, [('e', leaf(new_obj_p(i)))], {}, node)
        return self.new_container(st, 'list', self.get(st, i, '@'))

    # sets
    def m_set_add(self, st, i, args, kwargs, node):
        v = args[0][1]

        def f(q):
            h = self.seq_has(st, q, v)
            return ite(h, leaf(q), leaf(tup_p(self.parts(q) + (('e', v),), 'set')))
        self.upd(st, i, f, node)
        return NONE

    def m_set_discard(self, st, i, args, kwargs, node):
        v = args[0][1]

        def f(q):
            ps = list(self.parts(q))
            if all(x == 'e' for x, _ in ps):
                r = leaf(tup_p(ps, 'set'))
                for j, (_, x) in enumerate(ps):
                    e = self.equal(st, x, v)
                    r = ite(e, leaf(tup_p(ps[:j] + ps[j + 1:], 'set')), r)
                return r
            return map1(lambda b: leaf(tup_p([('s', leaf(app_p('without', (q, b), 'nn')))], 'set')), v)
        self.upd(st, i, f, node)
        return NONE

    def m_set_remove(self, st, i, args, kwargs, node):
        h = self.contains(st, leaf(new_obj_p(i)), args[0][1])
        self.raise_builtin(st, 'KeyError', 'set.remove', guard=NOT(h), node=node)
        if st.pc is not FALSE:
            self.m_set_discard(st, i, args, kwargs, node)
        return NONE

    def m_set_clear(self, st, i, args, kwargs, node):
        self.put(st, i, '@', leaf(tup_p([], 'set')), node)
        return NONE

    def m_set_update(self, st, i, args, kwargs, node):
        s = self.as_seq(st, args[0][1], 'set')
        c = self.get(st, i, '@')
        r = self.make_set(st, map2(lambda a, b: leaf(tup_p(self.parts(a) + b.parts, 'set')), c, s))
        self.put(st, i, '@', self.get(st, r.leaf.oid, '@'), node)
        return NONE

    def m_set_union(self, st, i, args, kwargs, node):
        c = self.get(st, i, '@')
        r = self.new_container(st, 'set', c)
        for a in args:
            self.m_set_update(st, r.leaf.oid, [a], {}, node)
        return r

    # dicts
    def m_dict_get(self, st, i, args, kwargs, node):
        d = args[1][1] if len(args) > 1 else kwargs.get('default', NONE)
        return self.map_get(st, self.get(st, i, '@'), args[0][1], d, node)

    def m_dict_pop(self, st, i, args, kwargs, node):
        c = self.get(st, i, '@')
        key = args[0][1]
        d = args[1][1] if len(args) > 1 else None
        if d is None:
            miss = NOT(self.map_has(c, key))
            if miss is not FALSE and feasible(AND(st.pc, miss)):
                self.raise_builtin(st, 'KeyError', 'pop', guard=miss, node=node)
                if st.pc is FALSE:
                    return UNDEF
        v = self.map_get(st, c, key, d if d is not None else UNDEF, node)
        if d is None:
            v = restrict(v, NOT(where(v, UNDEF_P))) if where(v, UNDEF_P) is not TRUE else v
        self.put(st, i, '@', map1(lambda q: self.map_del(q, key), c), node)
        return v

    def m_dict_setdefault(self, st, i, args, kwargs, node):
        c = self.get(st, i, '@')
        key = args[0][1]
        d = args[1][1] if len(args) > 1 else NONE
        has = self.map_has(c, key)
        v = self.map_get(st, c, key, d, node)
        new = map1(lambda q: self.map_set(q, key, d), c)
        self.put(st, i, '@', ite(has, c, new), node)
        return v

    def m_dict_update(self, st, i, args, kwargs, node):
        for k, v in args:
            def f(s, p):
                src = None
                if isinstance(p, Obj) and p.oid.cls == 'dict':
                    src = self.get(s, p.oid, '@')
                elif isinstance(p, Map):
                    src = leaf(p)
                if src is not None:
                    def g(s2, q):
                        if isinstance(q, Map) and q.base is None:
                            for kk, x, _ in q.entries:
                                self.setitem(s2, leaf(new_obj_p(i)), kk, x, node)
                        else:
                            c = self.get(s2, i, '@')
                            if c.leaf is not None and isinstance(c.leaf, Map) and not c.leaf.entries and c.leaf.base is None:
                                self.put(s2, i, '@', leaf(q), node)
                            else:
                                self.put(s2, i, '@', map1(lambda a: leaf(map_p([], app_p('dictupdate', (a, q), 'nn'))), c), node)
                        return NONE
                    return self.by_cases(s, src, g)
                seq = self.as_seq(s, leaf(p))
                if seq.leaf is not None and all(kk == 'e' for kk, _ in seq.leaf.parts):
                    for kk, pr in seq.leaf.parts:
                        self.setitem(s, leaf(new_obj_p(i)), self.item_of(s, pr, 0), self.item_of(s, pr, 1), node)
                    return NONE
                c = self.get(s, i, '@')
                pp = seq.leaf.parts[0][1].leaf if seq.leaf is not None and len(seq.leaf.parts) == 1 else None
                if pp is None:
                    pp = p
                if c.leaf is not None and isinstance(c.leaf, Map) and not c.leaf.entries and c.leaf.base is None:
                    self.put(s, i, '@', leaf(map_p([], pp if isinstance(p, Sym) else app_p('dictof', (pp,), 'nn'))), node)
                else:
                    self.put(s, i, '@', map1(lambda a: leaf(map_p([], app_p('dictupdate', (a, pp), 'nn'))), c), node)
                return NONE
            self.by_cases(st, v, f)
        for k, v in kwargs.items():
            self.setitem(st, leaf(new_obj_p(i)), N(k), v, node)
        return NONE

    def m_dict_keys(self, st, i, args, kwargs, node):
        return map1(lambda q: self.map_parts(q, 'keys', 'tuple'), self.get(st, i, '@'))

    def m_dict_values(self, st, i, args, kwargs, node):
        return map1(lambda q: self.map_parts(q, 'values', 'tuple'), self.get(st, i, '@'))

    def m_dict_items(self, st, i, args, kwargs, node):
        return map1(lambda q: self.map_parts(q, 'items', 'tuple'), self.get(st, i, '@'))

    def m_dict_clear(self, st, i, args, kwargs, node):
        self.put(st, i, '@', leaf(map_p([], None)), node)
        return NONE

    def m_dict_copy(self, st, i, args, kwargs, node):
        return self.new_container(st, 'dict', self.get(st, i, '@'))

    # strings
    def str_method(self, st, p, name, args, kwargs, node):
        plain = [v for k, v in args]
        if name == 'format':
            return self.str_format(st, p, plain, kwargs, node)
        if name == 'join':
            seq = self.as_seq(st, plain[0], 'list')

            def f(q):
                if all(k == 'e' for k, _ in q.parts):
                    out = N('')
                    for j, (k, v) in enumerate(q.parts):
                        if j:
                            out = map1(lambda a: leaf(cat_p([a, p])), out)
                        out = map2(lambda a, b: leaf(cat_p([a, b])), out, v)
                    return out
                return leaf(app_p('join', (p, tup_p(q.parts, 'list')), 'str'))
            return map1(f, seq)
        consts = []
        for v in plain:
            if v.leaf is not None and isinstance(v.leaf, Const):
                consts.append(v.leaf.value)
            elif v.leaf is not None and numconst(v.leaf) is not None:
                consts.append(int(numconst(v.leaf)))
            elif v.leaf is not None and isinstance(v.leaf, Tup) and all(k == 'e' and isinstance(n.leaf, Const) for k, n in v.leaf.parts):
                consts.append(tuple(n.leaf.value for k, n in v.leaf.parts))
            else:
                consts = None
                break
        if isinstance(p, Const) and consts is not None and not kwargs:
            try:
                r = getattr(p.value, name)(*consts)
            except Exception as e:
                return self.raise_builtin(st, type(e).__name__, str(e), node=node)
            if isinstance(r, list):
                return self.new_container(st, 'list', tup([N(x) for x in r], 'list'))
            if isinstance(r, tuple):
                return tup([N(x) for x in r])
            return N(r)
        if isinstance(p, App) and p.op == 'fmt' and p.args[1] == 'b' and consts and not kwargs:
            if name == 'zfill' or name == 'rjust' and consts[1:] == ['0']:
                t = bits_p(p.args[0], consts[0])
                if t is not None:
                    return leaf(t)
        if name in ('startswith', 'endswith') and consts is not None:
            pre = consts[0] if isinstance(consts[0], tuple) else (consts[0],)
            if isinstance(p, Cat):
                edge = p.parts[0] if name == 'startswith' else p.parts[-1]
                if isinstance(edge, str) and all(len(edge) >= len(x) for x in pre):
                    return N(getattr(edge, name)(tuple(pre)))
            r = FALSE
            for x in pre:
                r = OR(r, var(atom(name, p, const(x))))
            return r
        if name == 'endswith' or name == 'startswith':
            return self.mapb(name, [leaf(p)] + plain)
        if name in ('isdigit', 'isalpha', 'isnumeric', 'isspace', 'isupper', 'islower'):
            return var(atom(name, p))
        kind = 'str'
        if name in ('find', 'index', 'count', 'rfind', 'rindex'):
            kind = 'int'
        if name in ('split', 'rsplit', 'splitlines', 'encode', 'partition', 'rpartition'):
            kind = 'nn'
        r = self.pure('str.' + name, [leaf(p)] + plain + [self.pure('kw:' + k, [v]) for k, v in sorted(kwargs.items())], kind)
        return r

    def mapb(self, op, nodes):
        return mapn(lambda ps: var(atom(op, *ps)), nodes)

    def str_format(self, st, p, plain, kwargs, node):
        if not isinstance(p, Const):
            return self.pure('str.format', [leaf(p)] + plain, 'str')
        import string
        out = N('')
        auto = 0
        try:
            pieces = list(string.Formatter().parse(p.value))
        except ValueError:
            return self.pure('str.format', [leaf(p)] + plain, 'str')
        for lit, field, spec, conv in pieces:
            out = map1(lambda a: leaf(cat_p([a, lit])), out)
            if field is None:
                continue
            base, rest = field, ''
            for ch in '.[':
                if ch in base:
                    base, rest = base.split(ch, 1)[0], ch
            if base == '':
                v = plain[auto] if auto < len(plain) else None
                auto += 1
            elif base.isdigit():
                v = plain[int(base)] if int(base) < len(plain) else None
            else:
                v = kwargs.get(base)
            if v is None:
                return self.raise_builtin(st, 'IndexError', 'format', node=node)
            if '.' in field[len(base):] and '[' not in field:
                for a in field[len(base) + 1:].split('.'):
                    v = self.getattr(st, v, a, node)
            if spec and '{' in spec:
                # nested width
                sp = N('')
                for l2, f2, s2, c2 in string.Formatter().parse(spec):
                    sp = map1(lambda a: leaf(cat_p([a, l2])), sp)
                    if f2 is not None:
                        if f2 == '':
                            w = plain[auto]
                            auto += 1
                        elif f2.isdigit():
                            w = plain[int(f2)]
                        else:
                            w = kwargs[f2]
                        t2 = self.fmt(st, w)
                        sp = map2(lambda a, b: leaf(cat_p([a, b])), sp, t2)
                if sp.leaf is not None and isinstance(sp.leaf, Const):
                    t = self.fmt(st, v, sp.leaf.value)
                else:
                    t = self.map_app(st, 'fmtd', [v, sp], (), 'str')
            else:
                t = self.fmt(st, v, spec or '', 'r' if conv == 'r' else '')
            out = map2(lambda a, b: leaf(cat_p([a, b])), out, t)
        return out


def dot_p(a, b):
    """symmetric bilinear product of vector terms"""
    from .values import _mkpoly

    def split(p):
        """vector polynomial -> list of (scalar coefficient payload, vector base)"""
        out = []
        if isinstance(p, Tup):
            return [(num(1), p)]
        for m, c in terms_of(p):
            vec = [b for b, e in m if e == 1 and (not numlike(b))]
            if len(vec) != 1:
                return [(num(1), p)]
            rest = tuple((b, e) for b, e in m if b is not vec[0])
            out.append((_mkpoly({rest: c}), vec[0]))
        return out
    r = num(0)
    for ca, va in split(a):
        for cb, vb in split(b):
            x, y = sorted((va, vb), key=lambda q: q.uid)
            r = padd(r, pmul(pmul(ca, cb), app_p('dot', (x, y), 'num')))
    return leaf(r)


def is_intlike(cls):
    return any(b.rsplit('.', 1)[-1] in ('IntEnum', 'IntFlag', 'int') for b in cls.ext_bases())
