"""Equality of terms with analytic functions, decided by values at sampled
points (random interpretation).  Two terms that look different count as equal
if they have the same values wherever both are defined; so a different way to
write a formula is no difference.  Terms without such functions are in normal
form and are never compared in this way."""
import cmath
import hashlib
import math
from fractions import Fraction
from .values import *
from .values import _mkpoly

ANALYTIC = {'pow', 'exp', 'log', 'log10', 'log2', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'cabs', 'erf', 'erfc',
            'norm', 'hypot', 'atan2', 'real', 'imag', 'conj', 'div0'}
POINTS = 14
# usual sizes of some quantities, so that what they do is seen in the values
SIZES = {'frequency': 1e9}


class NoValue(Exception):
    pass


_analytic = {}


def analytic(p):
    """does the term contain such functions, or quotients of sums?"""
    r = _analytic.get(p.uid)
    if r is None:
        r = False
        if isinstance(p, Poly):
            for m, _ in p.terms:
                for b, e in m:
                    if isinstance(b, Poly) or e < 0 or analytic(b):
                        r = True
        elif isinstance(p, App):
            r = p.op in ANALYTIC
        _analytic[p.uid] = r
    return r


_complex = {}


def complex_like(p):
    """may the number have an imaginary part?"""
    r = _complex.get(p.uid)
    if r is None:
        r = p is J
        if isinstance(p, Poly):
            r = any(complex_like(b) for m, _ in p.terms for b, e in m)
        elif isinstance(p, App) and p.op not in ('cabs', 'real', 'imag', 'norm'):
            for a in p.args:
                if isinstance(a, Payload) and isinstance(a, (Poly, App, Sym)) and complex_like(a):
                    r = True
            if p.op == 'pow' and len(p.args) == 2 and isinstance(p.args[0], Payload) and not _positive(p.args[0]):
                # roots of negative numbers are no numbers in numpy
                pass
        _complex[p.uid] = r
    return r


def _positive(p):
    return numconst(p) is not None and numconst(p) > 0


def _u(key):
    h = hashlib.blake2b(key.encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big') / 2.0 ** 64


class Point:
    """one assignment of values to symbols"""

    def __init__(self, k, bounds=None):
        self.k = k
        self.bounds = bounds or {}
        self.memo = {}

    def sym(self, p):
        name = '%s|%s|%s' % (p.name if isinstance(p, Sym) else 'app%d' % p.uid, p.kind, self.k)
        u = _u(name)
        lo, hi = self.bounds.get(p, (None, None))
        if p.kind in ('int', 'nat'):
            if lo is None and hi is None:
                lo, hi = (0, 60) if p.kind == 'nat' else (-40, 40)
            elif lo is None:
                lo = hi - 60
            elif hi is None:
                hi = lo + 60
            return complex(math.floor(lo + 1 + u * max(hi - lo - 1, 0)))
        size = SIZES.get(p.name) if isinstance(p, Sym) else None
        if size is not None and (lo is None or lo < size / 8) and (hi is None or hi > size * 8):
            return complex(size * math.exp((u - 0.5) * 4))
        if lo is None and hi is None:
            x = math.exp((u - 0.5) * 4)
            return complex(x if _u(name + 's') < 0.7 else -x)
        if lo is None:
            return complex(hi - math.exp((u - 0.5) * 4))
        if hi is None:
            return complex(lo + math.exp((u - 0.5) * 4))
        return complex(lo + u * (hi - lo))

    def value(self, p):
        v = self.memo.get(p.uid)
        if v is None:
            v = self.compute(p)
            if cmath.isnan(v) or cmath.isinf(v) or abs(v) > 1e100:
                raise NoValue
            self.memo[p.uid] = v
        return v

    def compute(self, p):
        if p is J:
            return 1j
        if isinstance(p, Sym):
            return self.sym(p)
        if isinstance(p, Poly):
            r = 0j
            big = 0.0
            for m, c in p.terms:
                x = complex(float(c))
                for b, e in m:
                    x = x * self.power(self.value(b), e)
                big = max(big, abs(x))
                r += x
            if abs(r) < 1e-9 * big:
                r = 0j if abs(r) < 1e-13 * big else r
            return r
        if isinstance(p, App):
            return self.app(p)
        raise NoValue

    def power(self, b, e):
        try:
            if b == 0 and not (e > 0):
                raise NoValue
            return b ** (int(e) if e == int(e) else float(e))
        except (OverflowError, ZeroDivisionError):
            raise NoValue

    def arg(self, a):
        if isinstance(a, Node):
            if a.leaf is None:
                raise NoValue
            a = a.leaf
        if isinstance(a, Payload):
            return self.value(a)
        raise NoValue

    def app(self, p):
        op = p.op
        if op in ANALYTIC and op != 'div0' and op != 'norm':
            a = [self.arg(x) for x in p.args]
            try:
                return complex(FUNCS[op](*a))
            except (OverflowError, ZeroDivisionError, ValueError):
                raise NoValue
        # any other function: the same value for the same arguments
        key = op
        for x in p.args:
            if isinstance(x, Node) and x.leaf is not None:
                x = x.leaf
            if isinstance(x, Node):
                key += '|n%d' % x.id
            elif isinstance(x, (Poly, Sym, App)) and x.kind != 'any' if isinstance(x, (Sym, App)) else isinstance(x, Poly):
                key += '|%.6g' % self.value(x).real + '%.6g' % self.value(x).imag
            elif isinstance(x, Payload):
                key += '|p%d' % x.uid
            else:
                key += '|%r' % (x,)
        u = _u('%s|%s|%s' % (key, p.kind, self.k))
        if p.kind in ('int', 'nat'):
            return complex(math.floor(u * 60))
        x = math.exp((u - 0.5) * 4)
        return complex(x if _u(key + 's%s' % self.k) < 0.7 else -x)


def _real(f):
    def g(*a):
        if any(abs(x.imag) > 1e-12 * (1 + abs(x)) for x in a):
            raise ValueError
        return f(*[x.real for x in a])
    return g


def _pow(a, b):
    if abs(b.imag) < 1e-12 and b.real == int(b.real):
        if a == 0 and b.real <= 0:
            raise ValueError
        return a ** int(b.real)
    return a ** b


FUNCS = {'pow': _pow, 'exp': cmath.exp, 'log': cmath.log, 'log10': cmath.log10, 'log2': lambda x: cmath.log(x) / math.log(2),
         'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan, 'asin': cmath.asin, 'acos': cmath.acos, 'atan': cmath.atan,
         'sqrt': cmath.sqrt, 'cabs': abs, 'erf': _real(math.erf), 'erfc': _real(math.erfc), 'hypot': _real(math.hypot),
         'atan2': _real(math.atan2), 'real': lambda x: x.real, 'imag': lambda x: x.imag, 'conj': lambda x: x.conjugate()}


def close(a, b, tol):
    return abs(a - b) <= tol * max(abs(a), abs(b))


_points = {}


def points(bounds=None):
    key = tuple(sorted((p.uid, b) for p, b in (bounds or {}).items()))
    r = _points.get(key)
    if r is None:
        if len(_points) > 200:
            _points.clear()
        r = _points[key] = [Point(k, bounds) for k in range(POINTS)]
    return r


def _bounds(lits):
    out = {}
    for q, b in lits.bounds.items():
        if isinstance(q, Sym):
            lo, hi = b[0], b[2]
            out[q] = (None if lo is None else float(lo), None if hi is None else float(hi))
    return out


def agree(p, q, lits):
    """have the two numbers the same values?"""
    if not (isinstance(p, (Poly, Sym, App)) and isinstance(q, (Poly, Sym, App))):
        return False
    if not analytic(p) and not analytic(q):
        return False
    seen = 0
    for pt in points(_bounds(lits)):
        try:
            a, b = pt.value(p), pt.value(q)
        except (NoValue, OverflowError, ValueError):
            continue
        seen += 1
        if not close(a, b, 1e-9):
            return False
    return seen >= 5


_table = {}
_known = {}


def canonical(q):
    """the first term seen that is a multiple of q, and the factor: q = f * term"""
    r = _known.get(q.uid)
    if r is not None:
        return r
    r = _known[q.uid] = (q, Fraction(1))
    vals = []
    for k, pt in enumerate(points()):
        try:
            vals.append((k, pt.value(q)))
        except (NoValue, OverflowError, ValueError):
            pass
    if len(vals) < 5 or any(v == 0 for _, v in vals):
        return r
    first = vals[0][1]
    key = tuple((k, '%.7g' % (v / first).real, '%.5g' % (abs((v / first).imag) > 1e-7)) for k, v in vals)
    for other, ovals in _table.get(key, ()):
        f = first / ovals[0][1]
        if all(close(v, f * o[1], 1e-11) for (_, v), o in zip(vals, ovals)):
            fr = Fraction(f.real).limit_denominator(100000)
            if abs(f.imag) < 1e-12 * abs(f) and fr != 0 and abs(float(fr) - f.real) < 1e-12 * abs(f):
                r = _known[q.uid] = (other, fr)
                return r
    _table.setdefault(key, []).append((q, vals))
    return r
