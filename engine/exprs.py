"""Expression evaluation (mixin)."""
import ast
import math
import builtins
from fractions import Fraction
from .values import *
from . import sample
from .values import _mkpoly
from .state import *
from .program import *
from .interp import BINOPS, DUNDER, CMPD, is_exc_name

CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


def P2N(p):
    return leaf(p)


def as_numeric(p):
    if isinstance(p, Const) and isinstance(p.value, bool):
        return num(int(p.value))
    if isinstance(p, Poly) or (isinstance(p, (Sym, App)) and p.kind in NUMKINDS + ('any', 'nn')):
        return p
    return None


def is_strlike(p):
    return (isinstance(p, Const) and isinstance(p.value, str)) or isinstance(p, Cat) or \
        (isinstance(p, (Sym, App)) and p.kind == 'str')


def fdiv_p(a, b):
    ka, kb = numconst(a), numconst(b)
    if ka is not None and kb is not None and kb != 0:
        return num(Fraction(ka // kb))
    if kb == 1 and is_int(a):
        return a
    intk = 'int' if is_int(a) and is_int(b) else 'num'
    if intk == 'int' and is_nat(a) and is_nat(b):
        intk = 'nat'
    if kb is not None and kb.denominator == 1 and kb > 0 and is_int(a):
        # take out the multiples of b
        q, r = {}, {}
        for m, c in terms_of(a):
            if c % kb == 0:
                q[m] = c / kb
            else:
                r[m] = c
        from .values import _mkpoly
        if q:
            rest = _mkpoly(r)
            if not r:
                return _mkpoly(q)
            return padd(_mkpoly(q), fdiv_p(rest, b))
        # floor(floor(x/m)/n) = floor(x/(mn))
        if isinstance(a, App) and a.op == 'fdiv' and numconst(a.args[1]) is not None and is_int(a.args[1]):
            return fdiv_p(a.args[0], num(numconst(a.args[1]) * kb))
    return app_p('fdiv', (a, b), intk)


def mod_p_(a, b):
    ka, kb = numconst(a), numconst(b)
    if ka is not None and kb is not None and kb != 0:
        return num(ka % kb)
    if kb is not None and kb.denominator == 1 and kb > 0 and is_int(a):
        from .values import _mkpoly
        r = _mkpoly({m: c % kb for m, c in terms_of(a)})
        if numconst(r) is not None:
            return num(numconst(r) % kb)
        if isinstance(r, App) and r.op == 'mod' and numconst(r.args[1]) is not None and numconst(r.args[1]) % kb == 0:
            return mod_p_(r.args[0], b)
        return app_p('mod', (r, b), 'nat')
    if isinstance(b, App) and b.op == 'pow' and is_int(a):
        return app_p('mod', (a, b), 'nat')
    return app_p('mod', (a, b), 'int' if is_int(a) and is_int(b) else 'num')


def bit_text(c, up, depth=0):
    """'1' if the number is odd else '0', as the text of a digit"""
    if c is TRUE or c is FALSE:
        return N('1' if (c is TRUE) == up else '0')
    if depth > 6:
        return None
    for a in c.atom.args:
        for b in _bases(a):
            if isinstance(b, App) and b.op == 'mod' and numconst(b.args[1]) == 2:
                zero, one = num_eq(b), num_eq(padd(b, num(1), -1))
                if c in ((NOT(zero), one) if up else (zero, NOT(one))):
                    return leaf(bits_p(b, 1))
    hi, lo = bit_text(c.hi, up, depth + 1), bit_text(c.lo, up, depth + 1)
    if hi is None or lo is None:
        return None
    return ite(var(c.atom), hi, lo)


def _bases(a):
    if isinstance(a, App):
        return [a]
    if isinstance(a, Poly):
        return [b for m, c in terms_of(a) for b, e in m]
    return []


def pow_p(a, b):
    ka, kb = numconst(a), numconst(b)
    if kb is not None and kb.denominator == 1 and abs(kb) <= 12:
        return ppow_int(a, int(kb))
    if ka is not None and kb is not None:
        if kb.denominator == 1 and (abs(kb) <= 200 or abs(kb) <= 1100 and abs(ka) <= 1 and ka.denominator < 1000):
            return num(ka ** int(kb))
        if kb == Fraction(1, 2) and ka > 0:
            n, d = math.isqrt(ka.numerator), math.isqrt(ka.denominator)
            if n * n == ka.numerator and d * d == ka.denominator:
                return num(Fraction(n, d))
    if ka is not None:
        if ka == 1:
            return num(1)
        if ka == 0 and kb is not None and kb > 0:
            return num(0)
        t = dict(terms_of(b))
        if ka == 10:
            for m, k in t.items():
                if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], App) and m[0][0].op == 'log10':
                    x = m[0][0].args[0]
                    return pmul(pow_p(x, num(k)), pow_p(a, padd(b, _mkpoly({m: k}), -1)))
        c = t.get((), Fraction(0))
        if c != 0 and c.denominator == 1 and len(t) > 1 and abs(c) < 64:
            return pmul(num(ka ** int(c)), pow_p(a, padd(b, num(c), -1)))
        tt = [x for m, x in terms_of(b)]
        if ka > 0 and tt and tt[0] < 0:
            return pinv(pow_p(a, pmul(num(-1), b)))
    kind = 'num'
    if is_int(a) and is_nat(b):
        kind = 'nat' if is_nat(a) else 'int'
    return app_p('pow', (a, b), kind)


POSITIVE = ('cabs', 'norm', 'exp')


def fn_p(op, p):
    """log10, log and exp in a form in which they undo each other"""
    k = numconst(p)
    if op == 'exp':
        if k == 0:
            return num(1)
        if isinstance(p, App) and p.op == 'log':
            return p.args[0]
        return app_p(op, (p,), 'num')
    if k is not None:
        if k == 1:
            return num(0)
        if op == 'log10' and k > 0:
            e = len(str(max(k.numerator, k.denominator))) - 1
            e = e if k > 1 else -e
            if k == Fraction(10) ** e:
                return num(e)
        return app_p(op, (p,), 'num')
    if not numlike(p):
        return app_p(op, (p,), 'num')
    t = terms_of(p)
    if len(t) != 1:
        return app_p(op, (p,), 'num')
    (m, c), = t
    if c <= 0:
        return app_p(op, (p,), 'num')
    out = fn_p(op, num(c)) if c != 1 else num(0)
    rest = []
    for b, e in m:
        if isinstance(b, App) and op == 'log10' and b.op == 'pow' and numconst(b.args[0]) == 10:
            out = padd(out, pmul(num(e), b.args[1]))
        elif isinstance(b, App) and op == 'log' and b.op == 'exp':
            out = padd(out, pmul(num(e), b.args[0]))
        elif len(m) == 1 and e != 1 and isinstance(b, App) and (b.op in POSITIVE or b.op == 'pow' and numconst(b.args[0]) is not None and numconst(b.args[0]) > 0):
            out = padd(out, pmul(num(e), fn_p(op, b)))
        else:
            rest.append((b, e))
    if rest:
        out = padd(out, app_p(op, (_mkpoly({tuple(rest): Fraction(1)}),), 'num'))
    return out


def complex_part(op, p):
    """the real part, the imaginary part or the conjugate of a number"""
    if not sample.complex_like(p):
        return num(0) if op == 'imag' else p
    return app_p(op, (p,), 'num')


def abs_node(p):
    ts = terms_of(p) if numlike(p) else ()
    if len(ts) == 1 and 1 < len(ts[0][0]) <= 4 and all(isinstance(e, int) or getattr(e, 'denominator', 0) == 1 for _, e in ts[0][0]):
        # the absolute value of a product, factor by factor
        m, c = ts[0]
        out = N(abs(c))
        for b, e in m:
            f = leaf(b) if e % 2 == 0 else ite(lt0(b), leaf(pmul(num(-1), b)), leaf(b))
            out = map2(lambda x, y, e=e: leaf(pmul(x, ppow_int(y, int(e)))), out, f)
        return out
    return ite(lt0(p), leaf(pmul(num(-1), p)), leaf(p))


def bits_const(k):
    return k is not None and k.denominator == 1


def arith(op, a, b):
    """payload arithmetic; None when not applicable"""
    if is_strlike(a) or is_strlike(b):
        if op == '+':
            if (is_strlike(a) or maybe_str(a)) and (is_strlike(b) or maybe_str(b)):
                return leaf(cat_p([a, b]))
            return None
        if op == '*':
            s, n = (a, b) if is_strlike(a) else (b, a)
            k = numconst(n)
            if isinstance(s, Const) and k is not None:
                return N(s.value * int(k))
            if numlike(n) or isinstance(n, (Sym, App)):
                return leaf(app_p('strmul', (s, n), 'str'))
            return None
        if op == '%':
            return None
        return None
    if isinstance(a, Const) and isinstance(a.value, bytes) and isinstance(b, Const) and isinstance(b.value, bytes) and op == '+':
        return N(a.value + b.value)
    if isinstance(a, Tup) or isinstance(b, Tup):
        ka = a.kind if isinstance(a, Tup) else None
        kb = b.kind if isinstance(b, Tup) else None
        if 'vec' in (ka, kb) or (op in '/-**' and op != '*'):
            return vec_arith(op, a, b)
        if op == '+' and ka == kb:
            return leaf(tup_p(a.parts + b.parts, ka))
        if op == '*':
            t, n = (a, b) if isinstance(a, Tup) else (b, a)
            k = numconst(n)
            if k is not None:
                return leaf(tup_p(t.parts * int(k), t.kind))
            if numlike(n) or isinstance(n, (Sym, App)):
                return leaf(tup_p([('s', leaf(app_p('repeat', (t, n), 'nn')))], t.kind))
        if op in ('|', '&', '-') and ka == kb == 'set':
            return leaf(app_p('set' + op, (a, b)))
        return None
    x, y = as_numeric(a), as_numeric(b)
    if x is None or y is None:
        if op == '|' and (isinstance(a, (Ext, Cls)) or isinstance(b, (Ext, Cls)) or
                          any(isinstance(z, App) and z.op == 'op|' for z in (a, b))):
            return leaf(app_p('op|', (a, b)))          # a union of types
        if isinstance(a, (Sym, App, Ext)) or isinstance(b, (Sym, App, Ext)):
            if isinstance(a, Const) and a.value is None or isinstance(b, Const) and b.value is None:
                return None
            return leaf(app_p('op' + op, (a, b)))
        return None
    if op == '+':
        return leaf(padd(x, y))
    if op == '-':
        return leaf(padd(x, y, -1))
    if op == '*':
        return leaf(pmul(x, y))
    if op == '/':
        if numconst(y) == 0:
            return 'ZeroDivisionError'
        return leaf(pmul(x, pinv(y)))
    if op == '//':
        if numconst(y) == 0:
            return 'ZeroDivisionError'
        return leaf(fdiv_p(x, y))
    if op == '%':
        if numconst(y) == 0:
            return 'ZeroDivisionError'
        return leaf(mod_p_(x, y))
    if op == '**':
        return leaf(pow_p(x, y))
    if op == '<<':
        return leaf(pmul(x, pow_p(num(2), y)))
    if op == '>>':
        return leaf(fdiv_p(x, pow_p(num(2), y)))
    if op in '&|^':
        if isinstance(a, Const) and isinstance(b, Const):
            r = {'&': a.value & b.value, '|': a.value | b.value, '^': a.value ^ b.value}[op]
            return N(r)
        kx, ky = numconst(x), numconst(y)
        if kx is not None and ky is not None:
            i, j = int(kx), int(ky)
            return N({'&': i & j, '|': i | j, '^': i ^ j}[op])
        if op == '&':
            for u, k in ((x, ky), (y, kx)):
                if k is not None and k.denominator == 1 and k >= 0:
                    k = int(k)
                    if k == 0:
                        return N(0)
                    if k & (k + 1) == 0:       # 2**n - 1
                        return leaf(mod_p_(u, num(k + 1)))
                    low = (k & -k)
                    if (k // low) & (k // low + 1) == 0:      # contiguous mask
                        return leaf(pmul(num(low), mod_p_(fdiv_p(u, num(low)), num(k // low + 1))))
            # mask 2**n - 1 with symbolic n
            for u, m in ((x, y), (y, x)):
                m1 = padd(m, num(1))
                if isinstance(m1, App) and m1.op == 'pow' and numconst(m1.args[0]) == 2:
                    return leaf(mod_p_(u, m1))
        s = sorted((x, y), key=lambda p: p.uid)
        kind = 'nat' if is_nat(x) and is_nat(y) else 'int' if is_int(x) and is_int(y) else 'any'
        return leaf(app_p('bit' + op, s, kind))
    if op == '@':
        return leaf(app_p('matmul', (x, y), 'any'))
    return None


def maybe_str(p):
    return isinstance(p, (Sym, App)) and p.kind in ('any', 'str') or isinstance(p, Ext)


def vec_arith(op, a, b):
    def items(t):
        if isinstance(t, Tup):
            return [n for k, n in t.parts] if all(k == 'e' for k, _ in t.parts) else None
        return t
    x, y = items(a), items(b)
    if x is None or y is None:
        return leaf(app_p('vec' + op, (a, b)))
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y):
            return None
        prs = list(zip(x, y))
    elif isinstance(x, list):
        if isinstance(y, (Const, Obj)):
            return None
        prs = [(n, leaf(y)) for n in x]
    else:
        if isinstance(x, (Const, Obj)):
            return None
        prs = [(leaf(x), n) for n in y]
    out = []
    for u, v in prs:
        r = map2(lambda p, q: _ar(op, p, q), u, v)
        out.append(r)
    return tup(out, 'vec')


def _ar(op, p, q):
    r = arith(op, p, q)
    if r is None or isinstance(r, str):
        return leaf(app_p('op' + op, (p, q)))
    return r


def order_p(op, a, b):
    """a op b for payloads -> boolean node or None"""
    x, y = as_numeric(a), as_numeric(b)
    if x is not None and y is not None:
        if op == '<':
            return lt0(padd(x, y, -1))
        if op == '<=':
            return le0(padd(x, y, -1))
        if op == '>':
            return lt0(padd(y, x, -1))
        return le0(padd(y, x, -1))
    if isinstance(a, Const) and isinstance(b, Const) and type(a.value) is type(b.value) and isinstance(a.value, (str, bytes)):
        return N({'<': a.value < b.value, '<=': a.value <= b.value, '>': a.value > b.value, '>=': a.value >= b.value}[op])
    if isinstance(a, Tup) and isinstance(b, Tup) and all(k == 'e' for k, _ in a.parts + b.parts) and len(a.parts) == len(b.parts) and a.parts:
        strict = op[0]
        r = N('=' in op)
        for (_, u), (_, v) in reversed(list(zip(a.parts, b.parts))):
            l = map2(lambda p, q: order_p(strict, p, q) or UNDEF, u, v)
            e = map2(pl_eq, u, v)
            if l is not UNDEF and is_boolnode(l) and is_boolnode(r):
                r = OR(l, AND(e, r))
            else:       # the first items that differ have no order
                r = ite(e, r, l)
        return r
    if isinstance(a, Const) or isinstance(b, Const):
        if (isinstance(a, Const) and a.value is None) or (isinstance(b, Const) and b.value is None):
            return None
    if isinstance(a, Obj) or isinstance(b, Obj):
        return None
    if op in ('>', '>='):
        a, b, op = b, a, '<' + op[1:]
    return var(atom('ord' + op, a, b))


class Exprs:
    def eval(self, st, e):
        if st.pc is FALSE:
            return UNDEF
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unknown('expression %s' % type(e).__name__, e)
        return m(st, e)

    def e_Constant(self, st, e):
        return N(e.value)

    def e_Name(self, st, e):
        return self.load_name(st, e.id, e)

    def e_Tuple(self, st, e):
        return leaf(tup_p(self.eval_args(st, e.elts), 'tuple'))

    def e_List(self, st, e):
        return self.new_container(st, 'list', leaf(tup_p(self.eval_args(st, e.elts), 'list')))

    def e_Set(self, st, e):
        return self.make_set(st, leaf(tup_p(self.eval_args(st, e.elts), 'set')))

    def e_Dict(self, st, e):
        d = self.new_container(st, 'dict', leaf(map_p([], None)))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.method(st, d, 'update', [('e', self.eval(st, v))], {}, e)
            else:
                kn = self.eval(st, k)
                self.setitem(st, d, kn, self.eval(st, v), e)
        return d

    def eval_args(self, st, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(st, x.value)
                s = self.as_seq(st, v, 'tuple')
                if s.leaf is not None and isinstance(s.leaf, Tup):
                    out.extend(s.leaf.parts)
                else:
                    out.append(('s', s))
            else:
                out.append(('e', self.eval(st, x)))
        return out

    def e_Attribute(self, st, e):
        o = self.eval(st, e.value)
        return self.getattr(st, o, e.attr, e)

    def e_Subscript(self, st, e):
        o = self.eval(st, e.value)
        if isinstance(e.slice, ast.Slice):
            lo = NONE if e.slice.lower is None else self.eval(st, e.slice.lower)
            hi = NONE if e.slice.upper is None else self.eval(st, e.slice.upper)
            step = NONE if e.slice.step is None else self.eval(st, e.slice.step)
            return self.slice_of(st, o, lo, hi, step, e)
        i = self.eval(st, e.slice)
        return self.getitem(st, o, i, e)

    def e_Slice(self, st, e):
        f = lambda x: NONE if x is None else self.eval(st, x)
        return app('slice', [f(e.lower), f(e.upper), f(e.step)])

    def e_UnaryOp(self, st, e):
        v = self.eval(st, e.operand)
        if isinstance(e.op, ast.Not):
            return NOT(self.truth(st, v))
        if isinstance(e.op, ast.USub):
            return self.binop(st, '*', N(-1), v, e)
        if isinstance(e.op, ast.UAdd):
            return v
        # ~x = -x - 1
        return self.binop(st, '-', self.binop(st, '*', N(-1), v, e), N(1), e)

    def e_BinOp(self, st, e):
        a = self.eval(st, e.left)
        b = self.eval(st, e.right)
        return self.binop(st, BINOPS[type(e.op)], a, b, e)

    def binop(self, st, op, a, b, node=None):
        if st.pc is FALSE:
            return UNDEF
        if op == '@':
            return self.l_numpy_dot(st, [('e', a), ('e', b)], {}, node)
        if any(isinstance(p, Obj) for p in leaves(a) + leaves(b)):
            return self.by_cases(st, a, lambda s, p: self.by_cases(
                s, b, lambda s2, q: self.binop_obj(s2, op, p, q, node)))
        bad = set()

        def f(p, q):
            if op == '%' and is_strlike(p):
                return self.percent(st, p, q)
            r = arith(op, p, q)
            if r is None or isinstance(r, str):
                bad.add(r or 'TypeError')
                return UNDEF
            return r
        r = map2(f, a, b)
        if bad:
            u = where(r, UNDEF_P)
            if u is not FALSE:
                self.raise_builtin(st, sorted(bad)[0], 'operator %s' % op, guard=u, node=node)
                r = restrict(r, NOT(u)) if NOT(u) is not FALSE else UNDEF
        return r

    def binop_obj(self, st, op, p, q, node):
        d = DUNDER[op]
        for x, y, name in ((p, q, '__%s__' % d), (q, p, '__r%s__' % d)):
            if isinstance(x, Obj) and isinstance(x.oid.cls, ClassInfo):
                m = self.class_attr(st, x.oid.cls, name)
                if m is not None and isinstance(m.leaf, Func):
                    return self.call_function(st, m.leaf.fn, [('e', leaf(x)), ('e', leaf(y))], {}, node)
                if x.oid.cls.is_enum and is_intenum(x.oid.cls):
                    v = self.get(st, x.oid, 'value')
                    o = leaf(y)
                    return self.binop(st, op, v if x is p else o, o if x is p else v, node)
        if (isinstance(p, Obj) and p.oid.array) or (isinstance(q, Obj) and q.oid.array):
            a, b = (self.as_vec(st, leaf(x)) if isinstance(x, Obj) else leaf(x) for x in (p, q))
            return self.binop(st, op, a, b, node)
        P, Q = leaf(p), leaf(q)
        cp = p.oid.cls if isinstance(p, Obj) else None
        cq = q.oid.cls if isinstance(q, Obj) else None
        if op == '%' and is_strlike(p):
            return self.percent(st, p, q)
        if cp in ('list', 'dict', 'set', 'gen') or cq in ('list', 'dict', 'set', 'gen'):
            a = self.get(st, p.oid, '@') if cp else P
            b = self.get(st, q.oid, '@') if cq else Q
            if op == '|' and cp == 'dict':
                d2 = self.new_container(st, 'dict', a)
                self.method(st, d2, 'update', [('e', Q)], {}, node)
                return d2
            r = map2(lambda u, v: arith(op, u, v) or UNDEF, a, b)
            if r is UNDEF:
                return self.raise_builtin(st, 'TypeError', op, node=node)
            if any(isinstance(x, Tup) and x.kind == 'vec' for x in leaves(r)):
                return r
            return self.new_container(st, cp or cq, r)
        return self.raise_builtin(st, 'TypeError', 'operator %s' % op, node=node)

    def percent(self, st, p, q):
        if not isinstance(p, Const):
            return leaf(app_p('str%', (p, q), 'str'))
        import re
        args = [n for k, n in q.parts] if isinstance(q, Tup) and q.kind == 'tuple' else [leaf(q)]
        out = N('')
        i = 0
        for part in re.split(r'(%[-+# 0-9.]*[a-zA-Z%])', p.value):
            if part.startswith('%') and len(part) > 1:
                if part == '%%':
                    t = N('%')
                elif i < len(args):
                    t = self.fmt(st, args[i], part[1:].replace('s', '').replace('d', '') if part in ('%s', '%d') else part[1:])
                    i += 1
                else:
                    t = N(part)
            else:
                t = N(part)
            out = map2(lambda x, y: leaf(cat_p([x, y])), out, t)
        return out

    def fmt(self, st, v, spec='', conv=''):
        def f(s, p):
            if isinstance(p, Const):
                x = p.value
                if conv == 'r':
                    x = repr(x)
                try:
                    return N(format(x, spec)) if not (x is None) else N('None')
                except (ValueError, TypeError):
                    return leaf(app_p('fmt', (p, spec), 'str'))
            k = numconst(p)
            if k is not None and k.denominator == 1:
                try:
                    return N(format(int(k), spec))
                except ValueError:
                    pass
            if is_strlike(p) and spec == '' and conv == '':
                return leaf(p)
            if spec in ('', 'd') and conv in ('', 's', 'r') and isinstance(p, App) and p.op == 'mod' and numconst(p.args[1]) == 2:
                return leaf(bits_p(p, 1))
            if spec[:1] == '0' and spec[-1:] == 'b' and spec[1:-1].isdigit() and conv == '':
                t = bits_p(p, int(spec[1:-1]))
                if t is not None:
                    return leaf(t)
            if isinstance(p, Obj) and isinstance(p.oid.cls, ClassInfo):
                for nm in (['__repr__'] if conv == 'r' else ['__str__', '__repr__']):
                    m = self.class_attr(s, p.oid.cls, nm)
                    if m is not None and isinstance(m.leaf, Func):
                        return self.call_function(s, m.leaf.fn, [('e', leaf(p))], {}, None)
            if isinstance(p, Obj) and p.oid.cls in ('list', 'dict', 'set'):
                return self.map_app(s, 'fmt', [self.get(s, p.oid, '@')], (spec,), 'str')
            if isinstance(p, Tup) and spec == '':
                return leaf(app_p('fmt', (p, spec), 'str'))
            return leaf(app_p('fmt', (p, spec + ('!' + conv if conv else '')), 'str'))
        return self.by_cases(st, v, f)

    def map_app(self, st, op, nodes, extra=(), kind='any'):
        return mapn(lambda ps: leaf(app_p(op, tuple(ps) + tuple(extra), kind)), nodes)

    def e_JoinedStr(self, st, e):
        out = N('')
        for v in e.values:
            if isinstance(v, ast.Constant):
                t = N(v.value)
            else:
                x = self.eval(st, v.value)
                spec = ''
                if v.format_spec is not None:
                    sp = self.eval(st, v.format_spec)
                    if sp.leaf is not None and isinstance(sp.leaf, Const):
                        spec = sp.leaf.value
                    else:
                        t = self.map_app(st, 'fmtd', [x, sp], (), 'str')
                        out = map2(lambda p, q: leaf(cat_p([p, q])), out, t)
                        continue
                conv = {114: 'r', 115: 's', 97: 'a'}.get(v.conversion, '')
                t = self.fmt(st, x, spec, 'r' if conv == 'r' else '')
            if st.pc is FALSE:
                return UNDEF
            out = map2(lambda p, q: leaf(cat_p([p, q])), out, t)
        return out

    def e_FormattedValue(self, st, e):
        return self.fmt(st, self.eval(st, e.value))

    def e_BoolOp(self, st, e):
        return self.boolop(st, isinstance(e.op, ast.And), e.values)

    def boolop(self, st, is_and, values):
        v = self.eval(st, values[0])
        if len(values) == 1 or st.pc is FALSE:
            return v
        c = self.truth(st, v)
        go = c if is_and else NOT(c)       # evaluate the rest under go
        d = implied(st.pc, go)
        if d is FALSE:
            return v
        if d is TRUE:
            return self.boolop(st, is_and, values[1:])
        a = st.copy()
        a.pc = AND(st.pc, NOT(go))
        b = st.copy()
        b.pc = AND(st.pc, go)
        r = self.boolop(b, is_and, values[1:])
        if b.pc is FALSE:
            self.join(st, [(a, v)])
            return v
        both_bool = is_boolnode(v) and is_boolnode(r)
        self.join(st, [(a, NONE), (b, NONE)])
        if both_bool:
            return AND(c, r) if is_and else OR(c, r)
        return ite(go, r, v)

    def e_IfExp(self, st, e):
        c = self.truth(st, self.eval(st, e.test))
        d = implied(st.pc, c)
        if d is TRUE:
            return self.eval(st, e.body)
        if d is FALSE:
            return self.eval(st, e.orelse)
        a = st.copy()
        a.pc = AND(st.pc, c)
        b = st.copy()
        b.pc = AND(st.pc, NOT(c))
        x = self.eval(a, e.body)
        y = self.eval(b, e.orelse)
        return self.join2(st, c, a, x, b, y)

    def join2(self, st, c, a, x, b, y):
        if a.pc is FALSE or b.pc is FALSE:
            return self.join(st, [(a, x), (b, y)])
        self.join(st, [(a, NONE), (b, NONE)])
        if isinstance(x.leaf, Const) and isinstance(y.leaf, Const) and (x.leaf.value, y.leaf.value) in (('1', '0'), ('0', '1')):
            t = bit_text(c, x.leaf.value == '1')
            if t is not None:
                return t
        return ite(c, x, y)

    def e_NamedExpr(self, st, e):
        v = self.eval(st, e.value)
        f = self.frame()
        self.store_name(st, e.target.id, v, e)
        return v

    def e_Lambda(self, st, e):
        fn = self.make_func(st, e)
        return leaf(func_p(fn))

    def e_Compare(self, st, e):
        left = self.eval(st, e.left)
        r = TRUE
        for op, right in zip(e.ops, e.comparators):
            rv = self.eval(st, right)
            c = self.compare(st, CMPOPS[type(op)], left, rv, e)
            if len(e.ops) == 1:
                return c
            r = AND(r, self.truth(st, c))
            left = rv
        return r

    def compare(self, st, op, a, b, node=None):
        if st.pc is FALSE:
            return FALSE
        if op in ('==', '!='):
            r = self.equal(st, a, b)
            return r if op == '==' else NOT(r)
        if op in ('is', 'is not'):
            r = map2(pl_eq, a, b)
            return r if op == 'is' else NOT(r)
        if op in ('in', 'not in'):
            r = self.contains(st, b, a, node)
            return r if op == 'in' else NOT(r)
        if any(isinstance(p, Obj) for p in leaves(a) + leaves(b)):
            def f(s, p):
                return self.by_cases(s, b, lambda s2, q: self.order_obj(s2, op, p, q, node))
            return self.by_cases(st, a, f)
        bad = []

        def g(p, q):
            r = order_p(op, p, q)
            if r is None:
                bad.append(1)
                return UNDEF
            return r
        r = map2(g, a, b)
        if bad or not is_boolnode(r):
            u = where(r, UNDEF_P)
            self.raise_builtin(st, 'TypeError', 'comparison', guard=u, node=node)
            r = restrict(r, NOT(u))
            if any(isinstance(p, Undef) for p in leaves(r)):
                r = map1(lambda p: FALSE if isinstance(p, Undef) else leaf(p), r)
        return r

    def order_obj(self, st, op, p, q, node):
        l, r = CMPD[op]
        if isinstance(p, Obj) and isinstance(p.oid.cls, ClassInfo):
            m = self.class_attr(st, p.oid.cls, '__%s__' % l)
            if m is not None and isinstance(m.leaf, Func):
                return self.truth(st, self.call_function(st, m.leaf.fn, [('e', leaf(p)), ('e', leaf(q))], {}, node))
        a = self.get(st, p.oid, '@') if isinstance(p, Obj) and p.oid.cls == 'list' else leaf(p)
        b = self.get(st, q.oid, '@') if isinstance(q, Obj) and q.oid.cls == 'list' else leaf(q)
        if isinstance(p, Obj) and isinstance(p.oid.cls, ClassInfo) and p.oid.cls.is_enum:
            a = self.get(st, p.oid, 'value')
        if isinstance(q, Obj) and isinstance(q.oid.cls, ClassInfo) and q.oid.cls.is_enum:
            b = self.get(st, q.oid, 'value')
        res = map2(lambda x, y: order_p(op, x, y) or UNDEF, a, b)
        if res is UNDEF:
            self.raise_builtin(st, 'TypeError', 'comparison', node=node)
            return FALSE
        if not is_boolnode(res):
            u = where(res, UNDEF_P)
            self.raise_builtin(st, 'TypeError', 'comparison', guard=u, node=node)
            res = map1(lambda p: FALSE if isinstance(p, Undef) else leaf(p), restrict(res, NOT(u)))
        return res

    def equal(self, st, a, b):
        def f(p, q):
            if p is q:
                return TRUE
            for x, y in ((p, q), (q, p)):
                if isinstance(x, Obj):
                    i = x.oid
                    if i.cls in ('list', 'dict', 'set'):
                        c = self.get(st, i, '@')
                        if isinstance(y, Obj):
                            if y.oid.cls != i.cls:
                                return FALSE
                            return self.equal_content(st, c, self.get(st, y.oid, '@'))
                        if isinstance(y, (Const, Poly, Tup)):
                            if isinstance(y, Tup) and y.kind == i.cls:
                                return self.equal_content(st, c, leaf(y))
                            return FALSE
                        return map1(lambda z: pl_eq(z, y), c)
                    if isinstance(i.cls, ClassInfo):
                        m = self.class_attr(st, i.cls, '__eq__')
                        if m is not None and isinstance(m.leaf, Func):
                            return self.truth(st, self.call_function(st, m.leaf.fn, [('e', leaf(x)), ('e', leaf(y))], {}, None))
                        if i.cls.is_enum and is_intenum(i.cls):
                            v = self.get(st, i, 'value')
                            return map1(lambda z: pl_eq(z, y), v)
                        if (i.cls.is_dataclass or i.cls.is_pydantic) and isinstance(y, Obj) and y.oid.cls is i.cls and x is p:
                            r = TRUE
                            for n in self.all_fields(i.cls):
                                r = AND(r, self.equal(st, self.get(st, i, n), self.get(st, y.oid, n)))
                            return r
            return pl_eq(p, q)
        return map2(f, a, b)

    def equal_content(self, st, a, b):
        def f(p, q):
            if isinstance(p, Tup) and isinstance(q, Tup):
                if all(k == 'e' for k, _ in p.parts + q.parts):
                    if len(p.parts) != len(q.parts):
                        return FALSE
                    r = TRUE
                    for (_, x), (_, y) in zip(p.parts, q.parts):
                        r = AND(r, self.equal(st, x, y))
                    return r
                if not p.parts or not q.parts:
                    n = seq_len(p if p.parts else q)
                    return map1(num_eq, n)
            return pl_eq(p, q)
        return map2(f, a, b)

    def truth(self, st, v):
        if is_boolnode(v):
            return v

        def f(p):
            if isinstance(p, Obj):
                i = p.oid
                if i.cls in ('gen', 'count'):
                    return TRUE
                if i.cls in ('list', 'dict', 'set'):
                    return map1(truth_p, self.get(st, i, '@'))
                if isinstance(i.cls, ClassInfo) and not i.cls.is_enum:
                    m = self.class_attr(st, i.cls, '__bool__')
                    if m is not None and isinstance(m.leaf, Func):
                        return self.truth(st, self.call_function(st, m.leaf.fn, [('e', leaf(p))], {}, None))
                    m = self.class_attr(st, i.cls, '__len__')
                    if m is not None and isinstance(m.leaf, Func):
                        n = self.call_function(st, m.leaf.fn, [('e', leaf(p))], {}, None)
                        return map1(truth_p, n)
                if isinstance(i.cls, ClassInfo) and i.cls.is_enum and is_intenum(i.cls):
                    return self.truth(st, self.get(st, i, 'value'))
                return TRUE
            return truth_p(p)
        if any(isinstance(p, Obj) and isinstance(p.oid.cls, ClassInfo) for p in leaves(v)) and v.leaf is None:
            return self.by_cases(st, v, lambda s, p: f(p))
        return map1(f, v)

    def e_Await(self, st, e):
        return self.eval(st, e.value)

    def e_Starred(self, st, e):
        return self.eval(st, e.value)

    def e_Yield(self, st, e):
        v = NONE if e.value is None else self.eval(st, e.value)
        for f in reversed(self.stack):
            if hasattr(f, 'ylist'):
                c = self.get(st, f.ylist, '@')
                st.heap[(f.ylist, '@')] = map1(lambda p: leaf(tup_p(p.parts + (('e', v),), 'list')), c)
                break
        return NONE

    def e_YieldFrom(self, st, e):
        v = self.eval(st, e.value)
        s = self.as_seq(st, v, 'list')
        for f in reversed(self.stack):
            if hasattr(f, 'ylist'):
                c = self.get(st, f.ylist, '@')
                st.heap[(f.ylist, '@')] = map2(lambda p, q: leaf(tup_p(p.parts + (q.parts if isinstance(q, Tup) else (('s', leaf(q)),)), 'list')), c, s)
                break
        return NONE

    # -- calls ------------------------------------------------------------
    def e_Call(self, st, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
            fr = self.frame()
            g = fr
            while g is not None and (not isinstance(g.fn, FuncInfo) or g.fn.cls is None):
                g = g.parent
            me = st.heap.get((g, g.args0))
            return map1(lambda p: leaf(app_p('@super', (cls_p(g.fn.cls), p))), me)
        if isinstance(f, ast.Name) and f.id in ('locals', 'vars', 'globals') and not e.args:
            fr = self.frame()
            ent = [(N(n), st.heap[(fr, n)], TRUE) for n in sorted(fr.names) if (fr, n) in st.heap]
            return self.new_container(st, 'dict', leaf(map_p(ent, None)))
        fv = self.eval(st, f)
        # an iterator given to a function of a library is used up at once
        own = fv.leaf is None or isinstance(fv.leaf, (Func, Cls, Obj)) or isinstance(fv.leaf, Bound) and isinstance(fv.leaf.fn, FuncInfo) \
            or isinstance(fv.leaf, Ext) and fv.leaf.name in ('builtins.len', 'builtins.bool')
        for x in e.args:
            if isinstance(x, (ast.GeneratorExp, ast.Call)):
                x._direct = not own
        args = self.eval_args(st, e.args)
        kwargs = {}
        for k in e.keywords:
            v = self.eval(st, k.value)
            if k.arg is None:
                self.expand_kwargs(st, v, kwargs)
            else:
                kwargs[k.arg] = v
        if st.pc is FALSE:
            return UNDEF
        self.cur = (self.frame().module.path, e.lineno, '')
        r = self.call(st, fv, args, kwargs, e)
        if isinstance(fv.leaf, Ext) and fv.leaf.name in ITERATORS and not getattr(e, '_direct', False) and st.pc is not FALSE:
            return self.b_iter(st, [('e', r)], {}, e)
        return r

    def expand_kwargs(self, st, v, kwargs):
        for p in leaves(v)[:1]:
            if isinstance(p, Obj) and p.oid.cls == 'dict':
                c = self.get(st, p.oid, '@')
                if c.leaf is not None and isinstance(c.leaf, Map):
                    for k, x, g in c.leaf.entries:
                        if x is UNDEF:
                            kwargs.pop(k.leaf.value, None)
                        elif k.leaf is not None and isinstance(k.leaf, Const):
                            kwargs[k.leaf.value] = x
                    if c.leaf.base is not None:
                        kwargs['**'] = leaf(c.leaf.base)
                    return
        kwargs['**'] = v

    # -- comprehensions ---------------------------------------------------
    def e_ListComp(self, st, e):
        return self.new_container(st, 'list', self.comprehension(st, e, 'list'))

    def e_GeneratorExp(self, st, e):
        fr = self.frame()
        if getattr(e, '_direct', False) or not isinstance(fr.fn, FuncInfo):
            return self.comprehension(st, e, 'tuple')
        # it runs when it is used, over what the first loop was given here
        it = self.eval(st, e.generators[0].iter)
        late = getattr(e, '_late', None)
        if late is None:
            first = e.generators[0]
            late = e._late = ast.copy_location(ast.GeneratorExp(elt=e.elt, generators=[ast.copy_location(ast.comprehension(
                target=first.target, iter=ast.copy_location(ast.Name(id='.it', ctx=ast.Load()), e), ifs=first.ifs, is_async=0), e)]
                + e.generators[1:]), e)
        info = ObjInfo('gen:<genexpr>#%d' % ObjInfo.count, 'gen')
        info.frame, info.late = fr, late
        st.heap[(info, 'at')] = N('start')
        st.heap[(info, '.it')] = it
        return leaf(new_obj_p(info))

    def run_late(self, st, info):
        fr = Frame(info.frame.fn, info.frame.module, info.frame, {'.it'})
        fr.args0 = None
        st.heap[(fr, '.it')] = st.heap[(info, '.it')]
        self.stack.append(fr)
        try:
            return self.comprehension(st, info.late, 'list')
        finally:
            self.stack.pop()

    def e_SetComp(self, st, e):
        return self.make_set(st, self.comprehension(st, e, 'set'))

    def e_DictComp(self, st, e):
        d = self.new_container(st, 'dict', leaf(map_p([], None)))
        body = [ast.copy_location(ast.Assign(
            targets=[ast.copy_location(ast.Subscript(value=ast.copy_location(ast.Name(id='.d', ctx=ast.Load()), e),
                                                     slice=e.key, ctx=ast.Store()), e)],
            value=e.value), e)]
        self.run_comp(st, e, body, d)
        return d

    def comprehension(self, st, e, kind):
        lst = self.new_container(st, 'list', leaf(tup_p([], 'list')))
        call = ast.Call(func=ast.Attribute(value=ast.Name(id='.d', ctx=ast.Load()), attr='append', ctx=ast.Load()),
                        args=[e.elt], keywords=[])
        body = [ast.fix_missing_locations(ast.copy_location(ast.Expr(value=call), e))]
        self.run_comp(st, e, body, lst)
        if st.pc is FALSE:
            return leaf(tup_p([], kind))
        c = self.get(st, lst.leaf.oid, '@')
        return map1(lambda p: leaf(tup_p(p.parts, kind)), c)

    def run_comp(self, st, e, body, target):
        key = '_comp'
        stmt = getattr(e, key, None)
        if stmt is None:
            cur = body
            for g in reversed(e.generators):
                for c in reversed(g.ifs):
                    cur = [ast.copy_location(ast.If(test=c, body=cur, orelse=[]), e)]
                cur = [ast.copy_location(ast.For(target=g.target, iter=g.iter, body=cur, orelse=[]), e)]
            stmt = cur[0]
            ast.fix_missing_locations(stmt)
            setattr(e, key, stmt)
        fr0 = self.frame()
        names, gl, nl = set(), set(), set()
        collect = __import__('engine.interp', fromlist=['collect_names']).collect_names
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        names.add('.d')
        class_owner = isinstance(fr0.fn, ClassInfo)
        fr = Frame(fr0.fn if not class_owner else None, fr0.module, fr0 if not class_owner else fr0.parent, names)
        fr.args0 = None
        fr.handler_types = fr0.handler_types
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                fr.nonlocals.add(x.target.id)
        st.heap[(fr, '.d')] = target
        self.stack.append(fr)
        try:
            self.x_For(st, stmt)
        finally:
            self.stack.pop()
        for n in names:
            st.heap.pop((fr, n), None)


ITERATORS = {'builtins.' + x for x in ('map', 'filter', 'zip', 'enumerate', 'reversed')}


def is_boolnode(n):
    """are all leaves TRUE/FALSE?"""
    if n is TRUE or n is FALSE:
        return True
    if n.leaf is not None:
        return False
    return is_boolnode_memo(n)


_bm = {}


def is_boolnode_memo(n):
    if n is TRUE or n is FALSE:
        return True
    if n.leaf is not None:
        return False
    r = _bm.get(n.id)
    if r is None:
        r = _bm[n.id] = is_boolnode_memo(n.hi) and is_boolnode_memo(n.lo)
    return r


def is_intenum(cls):
    return any(b.rsplit('.', 1)[-1] in ('IntEnum', 'IntFlag', 'int') for b in cls.ext_bases())
