"""Canonical value domain of the analyser.

Every abstract value is a *gated value*: a node of a multi-terminal binary
decision diagram (MTBDD).  Inner nodes test interned boolean atoms, leaves are
interned payloads (constants, exact polynomials over symbols and uninterpreted
terms, object references, functions, ...).  Booleans are ordinary MTBDDs with
the leaves TRUE and FALSE.  Equal functions of the atoms are the same Python
object, so joins of the data-flow analysis stay canonical and no path is ever
enumerated while the program is being interpreted.
"""
from fractions import Fraction
from .poly import empty
import builtins
import math
import resource
import time

# --------------------------------------------------------------------------
# payloads


class Payload:
    __slots__ = ('uid', 'key')
    table = {}

    def __repr__(self):
        return show_payload(self)


def _intern(_kls, _key, /, **kw):
    k = (_kls, _key)
    p = Payload.table.get(k)
    if p is None:
        p = object.__new__(_kls)
        p.uid = len(Payload.table)
        p.key = _key
        for a, b in kw.items():
            setattr(p, a, b)
        Payload.table[k] = p
    return p


class Const(Payload):
    """None, True, False, str, bytes, Ellipsis, NotImplemented."""
    __slots__ = ('value',)


class Poly(Payload):
    """sum of coef * prod(base ** exp); bases are payloads or Polys."""
    __slots__ = ('terms',)


class Sym(Payload):
    __slots__ = ('name', 'kind', 'meta')


class App(Payload):
    __slots__ = ('op', 'args', 'kind')


class Tup(Payload):
    """Immutable sequence; parts are ('e', node) or ('s', node-of-sequence)."""
    __slots__ = ('parts', 'kind')


class Map(Payload):
    """Content of a dict: entries (key node, value node, guard node), base."""
    __slots__ = ('entries', 'base')


class Cat(Payload):
    """String concatenation; parts are const str or payloads."""
    __slots__ = ('parts',)


class Obj(Payload):
    __slots__ = ('oid',)


class Func(Payload):
    __slots__ = ('fn',)


class Bound(Payload):
    __slots__ = ('self', 'fn')


class Cls(Payload):
    __slots__ = ('cls',)


class Mod(Payload):
    __slots__ = ('name',)


class Ext(Payload):
    """name of an external (library) entity"""
    __slots__ = ('name',)


class Meth(Payload):
    """unresolved method of a non-repo value"""
    __slots__ = ('self', 'name')


class Undef(Payload):
    __slots__ = ()


def const(v):
    return _intern(Const, (type(v).__name__, v), value=v)


UNDEF_P = _intern(Undef, 'undef')
NONE_P = const(None)
TRUE_P = const(True)
FALSE_P = const(False)

NUMKINDS = ('num', 'int', 'nat')


def sym_p(name, kind='any', meta=None):
    return _intern(Sym, (name, kind), name=name, kind=kind, meta=meta)


# --------------------------------------------------------------------------
# polynomials

J = _intern(Sym, ('1j', 'num'), name='1j', kind='num', meta=None)


def _mkpoly(d):
    """d: {mono: Fraction} -> payload (unwraps single bases)"""
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and not isinstance(m[0][0], Poly):
            return m[0][0]
    terms = tuple(sorted(d.items(), key=lambda t: tuple((b.uid, e) for b, e in t[0])))
    return _intern(Poly, tuple((tuple((b.uid, e) for b, e in m), c) for m, c in terms),
                   terms=terms)


def num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            return app_p('const', (const(repr(v)),), 'num')
        v = Fraction(repr(v))
    if isinstance(v, complex):
        return padd(num(v.real), pmul(num(v.imag), J))
    return _mkpoly({(): Fraction(v)})


def terms_of(p):
    """payload -> tuple of (mono, coef)"""
    if isinstance(p, Poly):
        return p.terms
    return ((((p, 1),), Fraction(1)),)


def numconst(p):
    """Fraction value of constant payload, else None"""
    if isinstance(p, Poly):
        if not p.terms:
            return Fraction(0)
        if len(p.terms) == 1 and p.terms[0][0] == ():
            return p.terms[0][1]
    return None


def padd(a, b, sign=1):
    d = dict(terms_of(a))
    for m, c in terms_of(b):
        d[m] = d.get(m, 0) + sign * c
    return _mkpoly(d)


def _mulmono(m1, m2):
    d = {}
    for b, e in m1 + m2:
        d[b] = d.get(b, 0) + e
    return d


def pmul(a, b):
    d = {}
    for m1, c1 in terms_of(a):
        for m2, c2 in terms_of(b):
            dm = _mulmono(m1, m2)
            c = c1 * c2
            extra = None
            if J in dm:
                e = dm[J] % 4
                if e in (2, 3):
                    c = -c
                if e % 2:
                    dm[J] = 1
                else:
                    del dm[J]
            # a polynomial base with positive exponent must be expanded
            for bb in [x for x, e in dm.items() if isinstance(x, Poly) and isinstance(e, int) and e > 0]:
                e = dm.pop(bb)
                x = ppow_int(bb, e)
                extra = x if extra is None else pmul(extra, x)
            m = tuple(sorted(((x, e) for x, e in dm.items() if e != 0),
                             key=lambda t: t[0].uid))
            if extra is None:
                d[m] = d.get(m, 0) + c
            else:
                q = pmul(_mkpoly({m: c}), extra)
                for m3, c3 in terms_of(q):
                    d[m3] = d.get(m3, 0) + c3
    return _mkpoly(d)


def ppow_int(a, n):
    if n == 0:
        return num(1)
    if n < 0:
        return pinv(ppow_int(a, -n))
    r = a
    for _ in range(n - 1):
        r = pmul(r, a)
    return r


def pinv(a):
    t = terms_of(a)
    if len(t) == 0:
        return app_p('div0', (), 'num')
    if len(t) == 1:
        m, c = t[0]
        dm = {b: -e for b, e in m}
        if J in dm:
            dm[J] = 1
            c = -c
        return _mkpoly({tuple(sorted(dm.items(), key=lambda t: t[0].uid)): 1 / c})
    lead = t[0][1]
    norm = _mkpoly({m: c / lead for m, c in t})
    return _mkpoly({((norm, -1),): 1 / lead})


def kind_of(p):
    if isinstance(p, (Sym, App)):
        return p.kind
    if isinstance(p, Poly):
        return 'int' if is_int(p) else 'num'
    if isinstance(p, Const):
        return {str: 'str', bool: 'bool', type(None): 'none', bytes: 'bytes'}.get(type(p.value), 'other')
    if isinstance(p, Cat):
        return 'str'
    return type(p).__name__


def is_int(p):
    if isinstance(p, (Sym, App)):
        return p.kind in ('int', 'nat')
    if isinstance(p, Poly):
        return all(c.denominator == 1 and all(is_int(b) and e > 0 for b, e in m)
                   for m, c in p.terms)
    return False


def is_nat(p):
    if isinstance(p, (Sym, App)):
        return p.kind == 'nat'
    if isinstance(p, Poly):
        return all(c > 0 and all(is_nat(b) or e % 2 == 0 for b, e in m) for m, c in p.terms)
    return False


def numlike(p):
    if isinstance(p, Poly):
        return True
    if isinstance(p, (Sym, App)):
        return p.kind in NUMKINDS
    return False


def maybe_num(p):
    if isinstance(p, Poly):
        return True
    if isinstance(p, (Sym, App)):
        return p.kind in NUMKINDS or p.kind == 'any'
    return False


# --------------------------------------------------------------------------
# nodes

class Node:
    __slots__ = ('id', 'atom', 'hi', 'lo', 'leaf', '__weakref__')

    def __repr__(self):
        return show(self)


_leaves = {}
_nodes = {}
_count = 0


class OutOfBudget(BaseException):
    """time or memory of the analysis is used up: the rule stays undecided"""


class Budget:
    until = None         # end of the time of the current case
    base = 0
    memory = 10 << 20    # kilobytes

    @staticmethod
    def check():
        if Budget.until is not None:
            if time.time() > Budget.until:
                raise OutOfBudget('time')
            if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > Budget.memory:
                raise OutOfBudget('memory')


def leaf(p):
    global _count
    n = _leaves.get(p)
    if n is None:
        n = Node()
        n.id = _count
        _count += 1
        if not _count & 1023:
            Budget.check()
        n.atom = n.hi = n.lo = None
        n.leaf = p
        _leaves[p] = n
    return n


def _node(atom, hi, lo):
    global _count
    if hi is lo:
        return hi
    k = (atom.idx, hi.id, lo.id)
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.id = _count
        _count += 1
        if not _count & 1023:
            Budget.check()
        n.atom, n.hi, n.lo, n.leaf = atom, hi, lo, None
        _nodes[k] = n
    return n


class Atom:
    __slots__ = ('idx', 'kind', 'args')

    def __repr__(self):
        return show_atom(self)


_atoms = {}


def atom(kind, *args):
    k = (kind,) + tuple(args)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.idx = len(_atoms)
        a.kind = kind
        a.args = args
        _atoms[k] = a
    return a


TRUE = leaf(TRUE_P)
FALSE = leaf(FALSE_P)
NONE = leaf(NONE_P)
UNDEF = leaf(UNDEF_P)


def var(a):
    return _node(a, TRUE, FALSE)


_ite_memo = {}
INF = 1 << 60


def ite(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if t is TRUE and e is FALSE:
        return c
    k = (c.id, t.id, e.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c.leaf is not None:
        raise AnalysisError('condition is not boolean: %s' % show(c))
    i = c.atom.idx
    ti = t.atom.idx if t.leaf is None else INF
    ei = e.atom.idx if e.leaf is None else INF
    m = min(i, ti, ei)
    a = c.atom if i == m else t.atom if ti == m else e.atom
    ch, cl = (c.hi, c.lo) if i == m else (c, c)
    th, tl = (t.hi, t.lo) if ti == m else (t, t)
    eh, el = (e.hi, e.lo) if ei == m else (e, e)
    r = _node(a, ite(ch, th, eh), ite(cl, tl, el))
    _ite_memo[k] = r
    return r


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


class AnalysisError(Exception):
    pass


class Unsupported(AnalysisError):
    pass


def restrict(v, care):
    """simplify v where care is FALSE (Coudert-Madre restrict)"""
    memo = {}

    def go(v, c):
        if c is TRUE or v.leaf is not None:
            return v
        if c is FALSE:
            return v
        k = (v.id, c.id)
        r = memo.get(k)
        if r is not None:
            return r
        ci = c.atom.idx
        vi = v.atom.idx
        if ci < vi:
            r = go(v, OR(c.hi, c.lo))
        elif ci == vi:
            if c.hi is FALSE:
                r = go(v.lo, c.lo)
            elif c.lo is FALSE:
                r = go(v.hi, c.hi)
            else:
                r = _node(v.atom, go(v.hi, c.hi), go(v.lo, c.lo))
        else:
            r = _node(v.atom, go(v.hi, c), go(v.lo, c))
        memo[k] = r
        return r
    return go(v, care)


def cases(v, pc=TRUE):
    """list of (leaf payload, guard) with guard = pc AND path, merged per leaf"""
    if v.leaf is not None:
        return [(v.leaf, pc)]
    out = {}
    memo = set()

    def collect(n):
        if n.id in memo:
            return
        memo.add(n.id)
        if n.leaf is not None:
            out[n.leaf] = None
            return
        collect(n.hi)
        collect(n.lo)
    collect(v)
    res = []
    for p in sorted(out, key=lambda p: p.uid):
        g = AND(pc, where(v, p))
        if g is not FALSE and feasible(g):
            res.append((p, g))
    return res


_where_memo = {}


def where(v, p):
    """BDD of the condition under which v has leaf p"""
    if v.leaf is not None:
        return TRUE if v.leaf is p else FALSE
    k = (v.id, p.uid)
    r = _where_memo.get(k)
    if r is None:
        r = _node(v.atom, where(v.hi, p), where(v.lo, p))
        _where_memo[k] = r
    return r


def leaves(v):
    seen = set()
    out = []

    def go(n):
        if n.id in seen:
            return
        seen.add(n.id)
        if n.leaf is not None:
            out.append(n.leaf)
        else:
            go(n.hi)
            go(n.lo)
    go(v)
    return out


def map1(f, v):
    """apply leaf function f: payload -> Node"""
    memo = {}

    def go(n):
        r = memo.get(n.id)
        if r is not None:
            return r
        if n.leaf is not None:
            r = f(n.leaf)
        else:
            r = ite(var(n.atom), go(n.hi), go(n.lo))
        memo[n.id] = r
        return r
    return go(v)


def map2(f, a, b):
    memo = {}

    def go(x, y):
        k = (x.id, y.id)
        r = memo.get(k)
        if r is not None:
            return r
        xi = x.atom.idx if x.leaf is None else INF
        yi = y.atom.idx if y.leaf is None else INF
        if xi == INF and yi == INF:
            r = f(x.leaf, y.leaf)
        else:
            m = min(xi, yi)
            at = x.atom if xi == m else y.atom
            xh, xl = (x.hi, x.lo) if xi == m else (x, x)
            yh, yl = (y.hi, y.lo) if yi == m else (y, y)
            r = ite(var(at), go(xh, yh), go(xl, yl))
        memo[k] = r
        return r
    return go(a, b)


def mapn(f, nodes):
    """f takes list of payloads"""
    if not nodes:
        return f([])
    memo = {}

    def go(ns):
        k = tuple(n.id for n in ns)
        r = memo.get(k)
        if r is not None:
            return r
        m = min((n.atom.idx if n.leaf is None else INF) for n in ns)
        if m == INF:
            r = f([n.leaf for n in ns])
        else:
            at = next(n.atom for n in ns if n.leaf is None and n.atom.idx == m)
            hs = [n.hi if n.leaf is None and n.atom.idx == m else n for n in ns]
            ls = [n.lo if n.leaf is None and n.atom.idx == m else n for n in ns]
            r = ite(var(at), go(hs), go(ls))
        memo[k] = r
        if len(memo) > 20000:
            raise Unsupported('value product too large')
        return r
    return go(list(nodes))


def app_p(op, args, kind='any'):
    """args: payloads / nodes / python constants (hashable)"""
    args = tuple(args)
    key = (op, tuple(('n', a.id) if isinstance(a, Node) else ('p', a.uid) if isinstance(a, Payload)
                     else ('c', a) for a in args), kind)
    return _intern(App, key, op=op, args=args, kind=kind)


MAXPROD = 400


def app(op, nodes, kind='any'):
    """uninterpreted application, lifted over the gates of its arguments"""
    total = 1
    for n in nodes:
        if isinstance(n, Node) and n.leaf is None:
            total *= len(leaves(n))
    if total > MAXPROD:
        return leaf(app_p(op, nodes, kind))
    return mapn(lambda ps: leaf(app_p(op, ps, kind)), list(nodes))


def tup_p(parts, kind='tuple'):
    parts = tuple(parts)
    # flatten known splices
    out = []
    for k, n in parts:
        if k == 's' and n.leaf is not None and isinstance(n.leaf, Tup):
            out.extend(n.leaf.parts)
        else:
            out.append((k, n))
    parts = tuple(out)
    return _intern(Tup, (kind, tuple((k, n.id) for k, n in parts)), parts=parts, kind=kind)


def tup(nodes, kind='tuple'):
    return leaf(tup_p([('e', n) for n in nodes], kind))


def map_p(entries, base=None):
    entries = tuple(entries)
    return _intern(Map, (tuple((k.id, v.id, g.id) for k, v, g in entries), base.uid if base else None),
                   entries=entries, base=base)


def bits_p(p, n):
    """n binary digits of 0 <= p < 2^n, as text"""
    k = numconst(p)
    if k is not None:
        return const(format(int(k), '0%db' % n))
    if not (isinstance(p, App) and p.op == 'mod' and numconst(p.args[1]) is not None):
        return None
    m = numconst(p.args[1])
    j = int(m).bit_length() - 1
    if m.denominator != 1 or m != 2 ** j or j > n:
        return None
    x = p.args[0]
    if isinstance(x, App) and x.op == 'fdiv' and numconst(x.args[1]) is not None and isinstance(x.args[0], App) and x.args[0].op == 'mod':
        # bits a..a+j of the lower bits of something
        d, y = numconst(x.args[1]), x.args[0]
        w = numconst(y.args[1])
        if w is not None and w.denominator == 1 and w % (d * m) == 0:
            p = app_p('mod', (app_p('fdiv', (y.args[0], x.args[1]), x.kind), p.args[1]), 'nat')
    return cat_p(['0' * (n - j), app_p('bits', (p, j), 'str')])


def _join_bits(a, b):
    """adjacent digits of the same number"""
    if not (isinstance(a, App) and isinstance(b, App) and a.op == 'bits' and b.op == 'bits'):
        return None
    hi, lo = a.args[0].args[0], b.args[0].args[0]
    k, n = a.args[1], b.args[1]
    base, at = (lo.args[0], numconst(lo.args[1])) if isinstance(lo, App) and lo.op == 'fdiv' else (lo, 1)
    if at is None:
        return None
    if isinstance(hi, App) and hi.op == 'fdiv' and numconst(hi.args[1]) == at * 2 ** n and hi.args[0] is base:
        return app_p('bits', (app_p('mod', (lo, num(2 ** (k + n))), 'nat'), k + n), 'str')
    return None


def cat_p(parts):
    out = []
    for p in parts:
        if isinstance(p, Cat):
            sub = p.parts
        elif isinstance(p, Const) and isinstance(p.value, str):
            sub = (p.value,)
        elif isinstance(p, str):
            sub = (p,)
        else:
            sub = (p,)
        for s in sub:
            if isinstance(s, str):
                if s == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += s
                    continue
            elif out and isinstance(s, App) and s.op == 'bits':
                j = _join_bits(out[-1], s)
                if j is not None:
                    out[-1] = j
                    continue
            out.append(s)
    if not out:
        return const('')
    if len(out) == 1:
        if isinstance(out[0], str):
            return const(out[0])
        if kind_of(out[0]) == 'str':
            return out[0]
    key = tuple(('s', x) if isinstance(x, str) else ('p', x.uid) for x in out)
    return _intern(Cat, key, parts=tuple(out))


def N(v):
    """python constant -> node"""
    if isinstance(v, Node):
        return v
    if v is None or isinstance(v, (bool, str, bytes)) or v is Ellipsis or v is NotImplemented:
        return leaf(const(v))
    if isinstance(v, (int, float, Fraction, complex)):
        return leaf(num(v))
    if isinstance(v, tuple):
        return tup([N(x) for x in v])
    if isinstance(v, Payload):
        return leaf(v)
    raise AnalysisError('cannot embed %r' % (v,))


def sym(name, kind='any', meta=None):
    if kind == 'bool':
        return var(atom('b', sym_p(name, 'any')))
    return leaf(sym_p(name, kind, meta))


# --------------------------------------------------------------------------
# comparisons

def _scale(p):
    """poly payload (non const) -> (Q, c, s): p = s*(Q) + c, Q normalised"""
    d = dict(terms_of(p))
    c = d.pop((), Fraction(0))
    items = sorted(d.items(), key=lambda t: tuple((b.uid, e) for b, e in t[0]))
    lead = items[0][1]
    if is_int(_mkpoly(d)):
        g = 0
        for _, x in items:
            g = math.gcd(g, int(x))
        s = Fraction(g if lead > 0 else -g)
    else:
        s = lead
    q = _mkpoly({m: x / s for m, x in items})
    return q, c, s


def lt0(p):
    """node for p < 0, p payload"""
    return _cmp0(p, True)


def le0(p):
    return _cmp0(p, False)


def _infinite(p):
    """the coefficient of infinity in p, when the rest of it is finite"""
    ts = terms_of(p)
    inf = sym_p('inf', 'num')
    k = 0
    for m, c in ts:
        for b, _ in m:
            if b is inf:
                if len(m) > 1 or m[0][1] != 1:
                    return 0
                k = c
    return k


def _cmp0(p, strict):
    k = numconst(p)
    if k is not None:
        return N(k < 0 if strict else k <= 0)
    k = _infinite(p)
    if k:
        return N(k < 0)
    q, c, s = _scale(p)
    t = -c / s
    integer = is_int(q)
    if not integer and sample.analytic(q):
        # the same condition written in another way
        q, f = sample.canonical(q)
        s, t = s * f, t / f
    if s > 0:      # q < t  /  q <= t
        return _thr(q, t, strict, integer)
    # q > t / q >= t
    return NOT(_thr(q, t, not strict, integer))


def _thr(q, t, strict, integer):
    if integer:
        th = math.ceil(t) if strict else math.floor(t) + 1
        if is_nat(q) and th <= 0:
            return FALSE
        lo, hi = _floor_bounds(q)
        if lo is not None and lo >= th:
            return FALSE
        if hi is not None and hi < th:
            return TRUE
        return var(atom('lt', q, Fraction(th)))
    if is_nat(q) and (t < 0 or (t == 0 and strict)):
        return FALSE
    if isinstance(q, App) and q.op == 'new:random.random':      # 0 <= q < 1
        if t < 0 or (t == 0 and strict):
            return FALSE
        if t >= 1:
            return TRUE
    return var(atom('lt' if strict else 'le', q, t))


def _floor_bounds(q):
    """constant bounds of an integer combination with floor quotients by constants"""
    d = dict(terms_of(q))
    if len(d) < 2 or not any(len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], App) and m[0][0].op in ('fdiv', 'mod')
                             for m in d):
        return None, None
    out = []
    for up in (False, True):
        acc = {}
        for m, c in d.items():
            b = m[0][0] if len(m) == 1 and m[0][1] == 1 else None
            k = numconst(b.args[1]) if isinstance(b, App) and b.op in ('fdiv', 'mod') and len(b.args) == 2 else None
            if k is None or k <= 0 or k.denominator != 1 or not is_int(b.args[0]):
                acc[m] = acc.get(m, 0) + c
                continue
            at = (c > 0) == up         # take the upper bound of this term
            if b.op == 'mod':
                acc[()] = acc.get((), 0) + (c * (k - 1) if at else 0)
                continue
            for m2, c2 in terms_of(b.args[0]):
                acc[m2] = acc.get(m2, 0) + c * c2 / k
            if not at:
                acc[()] = acc.get((), 0) - c * (k - 1) / k
        rest = [(m, c) for m, c in acc.items() if m != () and c != 0]
        if all((c < 0 if up else c > 0) and is_nat(_mkpoly({m: Fraction(1)})) for m, c in rest):
            out.append(acc.get((), Fraction(0)))
        else:
            out.append(None)
    return tuple(out)


def near_int(p, pc):
    """the integer that p is strictly closest to on every path of pc, or None"""
    q, c, s = _scale(p)
    cands, seen, todo = set(), set(), [pc]
    while todo:
        n = todo.pop()
        if n.leaf is not None or n.id in seen or len(seen) > 2000:
            continue
        seen.add(n.id)
        if n.atom.kind in ('lt', 'le') and n.atom.args[0] is q:
            v = c + s * n.atom.args[1]
            cands |= {math.floor(v), math.ceil(v)}
        todo += [n.hi, n.lo]
    half = Fraction(1, 2)
    for k in sorted(cands):
        if implied(pc, AND(lt0(padd(p, num(-k - half))), lt0(padd(num(k - half), p, -1)))) is TRUE:
            return k
    return None


def whole_of(p):
    """x, if p == 0 says that x is a whole number"""
    if isinstance(p, App):
        return p.args[0] if p.op == 'mod' and isinstance(p.args[1], Payload) and numconst(p.args[1]) == 1 else None
    for m, c in terms_of(p):
        if len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], App) and m[0][0].op in ('trunc', 'floor', 'ceil', 'round'):
            a = m[0][0]
            x = a.args[0]
            if isinstance(x, Payload) and numlike(x) and numconst(padd(pmul(padd(a, x, -1), num(c)), p, -1)) == 0:
                return x
    return None


def is_whole(x):
    """node: is the number a whole one?"""
    k = numconst(x)
    if k is not None:
        return N(k.denominator == 1)
    if is_int(x):
        return TRUE
    return var(atom('whole', x))


def num_eq(p):
    """node for p == 0"""
    k = numconst(p)
    if k is not None:
        return N(k == 0)
    if _infinite(p):
        return FALSE
    x = whole_of(p)
    if x is not None:
        return is_whole(x)
    q, c, s = _scale(p)
    t = -c / s
    if not is_int(q) and sample.analytic(q):
        q, f = sample.canonical(q)
        s, t = s * f, t / f
    if is_int(q):
        if t.denominator != 1:
            return FALSE
        return AND(NOT(_thr(q, t, True, True)), _thr(q, t + 1, True, True))
    return AND(NOT(_thr(q, t, True, False)), _thr(q, t, False, False))


def pl_eq(a, b):
    """equality of two payloads (python ==), ignoring repo __eq__"""
    if a is b:
        return TRUE
    if isinstance(a, Ext) and isinstance(b, Ext) and a.name.startswith('builtins.') and b.name.startswith('builtins.'):
        if isinstance(getattr(builtins, a.name[9:], None), type) and isinstance(getattr(builtins, b.name[9:], None), type):
            return FALSE        # two built-in types
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ext) and isinstance(y, App) and y.op == 'type' and numlike(y.args[0]) \
                and isinstance(getattr(builtins, x.name[9:], None) if x.name.startswith('builtins.') else None, type) \
                and x.name[9:] not in ('int', 'float', 'bool', 'complex'):
            return FALSE        # the type of a number
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const):
            if isinstance(x.value, bool):
                if isinstance(y, Const) and isinstance(y.value, bool):
                    return N(x.value == y.value)
                if numlike(y):
                    return num_eq(padd(y, num(int(x.value)), -1))
            if isinstance(y, Const):
                return FALSE
            if isinstance(y, Poly) or (x.value is None and numlike(y)):
                return FALSE
            if isinstance(y, (Sym, App)):
                if y.kind == 'any' or (isinstance(x.value, str) and y.kind == 'str'):
                    return var(atom('eqc', y, x))
                if y.kind == 'opt':
                    return var(atom('eqc', y, x))
                return FALSE
            if isinstance(y, Cat):
                if not isinstance(x.value, str):
                    return FALSE
                return _cat_eq(y, x)
            return FALSE
    if maybe_num(a) and maybe_num(b) and (numlike(a) or numlike(b)):
        return num_eq(padd(a, b, -1))
    if isinstance(a, Tup) and isinstance(b, Tup):
        if all(k == 'e' for k, _ in a.parts + b.parts):
            if len(a.parts) != len(b.parts) or a.kind != b.kind:
                return FALSE
            r = TRUE
            for (_, x), (_, y) in zip(a.parts, b.parts):
                r = AND(r, map2(pl_eq, x, y))
            return r
    concrete = (Obj, Func, Cls, Mod, Bound, Ext, Tup, Poly)
    if isinstance(a, concrete) and isinstance(b, concrete):
        if isinstance(a, Poly) and isinstance(b, Poly):
            return num_eq(padd(a, b, -1))
        if isinstance(a, Tup) and isinstance(b, Tup):
            pass
        elif type(a) is not type(b) or isinstance(a, (Obj, Func, Cls, Mod)):
            return FALSE
    if isinstance(a, (Obj, Func, Cls, Ext, Bound)) and isinstance(b, (Sym, App)):
        return var(atom('eqc', b, a))
    if isinstance(b, (Obj, Func, Cls, Ext, Bound)) and isinstance(a, (Sym, App)):
        return var(atom('eqc', a, b))
    x, y = sorted((a, b), key=lambda p: p.uid)
    return var(atom('eq', x, y))


def _cat_eq(c, k):
    # constant prefix / suffix mismatch decides
    s = k.value
    if isinstance(c.parts[0], str) and not s.startswith(c.parts[0]):
        return FALSE
    if isinstance(c.parts[-1], str) and not s.endswith(c.parts[-1]):
        return FALSE
    return var(atom('eqc', c, k))


# --------------------------------------------------------------------------
# theory of literals: consistency of an assignment to atoms

class Lits:
    """incremental set of literals with cheap consistency checks"""
    __slots__ = ('bounds', 'eqs', 'truth', 'flags')

    def __init__(self):
        self.bounds = {}   # q -> (lo, lo_strict, hi, hi_strict)
        self.eqs = {}      # payload -> const payload or None / set of excluded
        self.truth = {}
        self.flags = {}

    def copy(self):
        r = Lits()
        r.bounds = dict(self.bounds)
        r.eqs = dict(self.eqs)
        r.truth = dict(self.truth)
        r.flags = dict(self.flags)
        return r

    def add(self, at, val):
        """returns False when inconsistent"""
        k = at.kind
        if k in ('lt', 'le'):
            q, t = at.args
            lo, ls, hi, hs = self.bounds.get(q, (None, False, None, False))
            strict = (k == 'lt')
            if val:      # q < t or q <= t
                if hi is None or t < hi or (t == hi and strict):
                    hi, hs = t, strict
            else:        # q >= t or q > t
                if lo is None or t > lo or (t == lo and not strict):
                    lo, ls = t, not strict
            if lo is not None and hi is not None:
                if lo > hi or (lo == hi and (ls or hs)):
                    return False
                if is_int(q):
                    l = math.floor(lo) + 1 if ls else math.ceil(lo)
                    h = math.ceil(hi) - 1 if hs else math.floor(hi)
                    if l > h:
                        return False
            self.bounds[q] = (lo, ls, hi, hs)
            tr = self.truth.get(q)
            if tr is True and self.pinned(q) == 0:
                return False
            return self._link(q)
        if k == 'eqc':
            x, c = at.args
            cur = self.eqs.get(x)
            if val:
                if isinstance(cur, Payload) and cur is not c:
                    return False
                if isinstance(cur, frozenset) and c in cur:
                    return False
                self.eqs[x] = c
                tr = self.truth.get(x)
                if tr is not None and isinstance(c, Const) and bool(c.value) != tr:
                    return False
            else:
                if cur is c:
                    return False
                if not isinstance(cur, Payload):
                    self.eqs[x] = (cur or frozenset()) | {c}
            return True
        if k == 'truth':
            x, = at.args
            self.truth[x] = val
            cur = self.eqs.get(x)
            if isinstance(cur, Const) and bool(cur.value) != val:
                return False
            if val and self.pinned(x) == 0:
                return False
            return True
        if k == 'enum':
            # ('enum', sym, member): exclusive
            x, c = at.args
            cur = self.eqs.get(('enum', x))
            if val:
                if isinstance(cur, Payload) and cur is not c:
                    return False
                self.eqs[('enum', x)] = c
            elif cur is c:
                return False
            return True
        cur = self.flags.get(at)
        if cur is not None:
            return cur == val
        self.flags[at] = val
        return True

    def pinned(self, q):
        b = self.bounds.get(q)
        if b is None:
            return None
        lo, ls, hi, hs = b
        if lo is None or hi is None:
            return None
        if is_int(q):
            l = math.floor(lo) + 1 if ls else math.ceil(lo)
            h = math.ceil(hi) - 1 if hs else math.floor(hi)
            return Fraction(l) if l == h else None
        return lo if lo == hi and not ls and not hs else None

    def _link(self, q):
        """simple transitivity over differences x - y: bounds of one poly
        against the sum of two others"""
        qs = [x for x in self.bounds if x is not q]
        if len(qs) < 2 or len(qs) > 8:
            return True
        for i, a in enumerate(qs):
            for b in qs[i + 1:]:
                for sa, sb, zc in _sums(q, a, b):
                    for f in (1, -1):
                        # f*(q + sa*a + sb*b) = f*zc : upper bounds must reach it
                        hi = Fraction(0)
                        strict = False
                        for sg, x in ((f, q), (f * sa, a), (f * sb, b)):
                            lo_, ls_, hi_, hs_ = self.bounds[x]
                            if sg > 0:
                                if hi_ is None:
                                    hi = None
                                    break
                                hi += hi_
                                strict = strict or hs_
                            else:
                                if lo_ is None:
                                    hi = None
                                    break
                                hi -= lo_
                                strict = strict or ls_
                        if hi is not None and (hi < f * zc or (hi == f * zc and strict)):
                            return False
        return True

    def equalities(self):
        out = []
        for q in self.bounds:
            v = self.pinned(q)
            if v is not None:
                out.append((q, v))
        return out


_sums_memo = {}


def _sums(q, a, b):
    """[(sa, sb, c)]: q + sa*a + sb*b = c, a constant"""
    k = (q, a, b)
    r = _sums_memo.get(k)
    if r is None:
        r = []
        for sa in (1, -1):
            for sb in (1, -1):
                zc = numconst(padd(padd(q, pmul(num(sa), a)), pmul(num(sb), b)))
                if zc is not None:
                    r.append((sa, sb, zc))
        _sums_memo[k] = r
    return r


def consistent(lits):
    s = Lits()
    for a, v in lits:
        if not s.add(a, v):
            return False
    return True


_feas_memo = {}


def feasible(g, budget=4000):
    """is there a theory-consistent path of BDD g to TRUE?"""
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    r = _feas_memo.get(g.id)
    if r is not None:
        return r
    steps = [0]

    def go(n, lits):
        if n is TRUE:
            return not empty(lits)
        if n is FALSE:
            return False
        steps[0] += 1
        if steps[0] > budget:
            return True
        for child, v in ((n.hi, True), (n.lo, False)):
            if child is FALSE:
                continue
            l2 = lits.copy()
            if l2.add(n.atom, v) and go(child, l2):
                return True
        return False
    r = go(g, Lits())
    _feas_memo[g.id] = r
    return r


def implied(pc, c):
    """does pc imply c (TRUE), imply not c (FALSE) or neither (None)?"""
    if c is TRUE or c is FALSE:
        return c
    if not feasible(AND(pc, NOT(c))):
        return TRUE
    if not feasible(AND(pc, c)):
        return FALSE
    return None


def equal_under(p, q, lits):
    """payload equality modulo the equalities of a path"""
    if p is q:
        return True
    if maybe_num(p) and maybe_num(q):
        d = padd(p, q, -1)
        if numconst(d) == 0:
            return True
        if 'mod' in _ops(d):
            # a = b * (a // b) + a % b
            d = _expand_mod(d)
            if numconst(d) == 0:
                return True
        eqs = lits.equalities()
        for x, v in eqs:
            # d divisible: d = k*(x - v)?
            e = padd(x, num(v), -1)
            k = _ratio(d, e)
            if k is not None:
                return True
        for i, (x, v) in enumerate(eqs):
            d2 = subst_lin(d, x, v)
            k = numconst(d2)
            if k == 0:
                return True
            if k is not None:
                # a rounded constant meets the formula it was rounded from
                w = numconst(subst_lin(p, x, v))
                if w is not None and k.denominator != 1 and abs(k) <= abs(w) / 10 ** 7:
                    return True
            for (y, w) in eqs:
                d3 = subst_lin(d2, y, w)
                if numconst(d3) == 0:
                    return True
        if sample.agree(p, q, lits):
            return True
    for x, y in ((p, q), (q, p)):
        if isinstance(x, (Sym, App)):
            c = lits.eqs.get(x)
            if isinstance(c, Payload) and c is y:
                return True
            if c is not None and isinstance(c, Payload) and isinstance(y, Const) and c is y:
                return True
    if isinstance(p, App) and isinstance(q, App) and p.op == q.op and len(p.args) == len(q.args) and p.kind == q.kind:
        return all(_arg_eq(a, b, lits) for a, b in zip(p.args, q.args))
    if isinstance(p, Tup) and isinstance(q, Tup) and p.kind == q.kind and len(p.parts) == len(q.parts):
        return all(k1 == k2 and _arg_eq(a, b, lits) for (k1, a), (k2, b) in zip(p.parts, q.parts))
    if isinstance(p, Cat) and isinstance(q, Cat) and len(p.parts) == len(q.parts):
        return all(a == b if isinstance(a, str) or isinstance(b, str) else equal_under(a, b, lits)
                   for a, b in zip(p.parts, q.parts))
    if isinstance(p, Poly) and isinstance(q, Poly):
        return subst_all(p, lits) is subst_all(q, lits)
    return False


def _ops(p):
    return {b.op for m, _ in terms_of(p) for b, e in m if isinstance(b, App)}


def _expand_mod(p):
    from .exprs import fdiv_p
    r = num(0)
    for m, c in terms_of(p):
        x = num(c)
        for b, e in m:
            if isinstance(b, App) and b.op == 'mod' and e == 1 and all(isinstance(a, Payload) for a in b.args):
                y = padd(b.args[0], pmul(b.args[1], fdiv_p(b.args[0], b.args[1])), -1)
            else:
                y = _mkpoly({((b, e),): Fraction(1)})
            x = pmul(x, y)
        r = padd(r, x)
    return r


def subst_all(p, lits):
    for x, v in lits.equalities():
        p = subst_lin(p, x, v)
    return p


def _arg_eq(a, b, lits):
    if a is b:
        return True
    if isinstance(a, Node) and isinstance(b, Node):
        return not differ(a, b, TRUE, lits)
    if isinstance(a, Payload) and isinstance(b, Payload):
        return equal_under(a, b, lits)
    return a == b


def _ratio(d, e):
    td, te = dict(terms_of(d)), dict(terms_of(e))
    if set(td) != set(te):
        return None
    rs = {td[m] / te[m] for m in td}
    return rs.pop() if len(rs) == 1 else None


def subst_lin(d, x, v):
    """eliminate the leading monomial of x from d using x == v"""
    tx = terms_of(x)
    if not tx:
        return d
    m, c = tx[0]
    td = dict(terms_of(d))
    if m not in td:
        return d
    k = td[m] / c
    return padd(d, pmul(num(k), padd(x, num(v), -1)), -1)


def differ(a, b, care=TRUE, lits=None, budget=20000, eq=None):
    """find a theory-consistent path on which gated values a and b differ.
    Returns None or (list of literals, payload a, payload b)."""
    eq = eq or equal_under
    steps = [0]
    seen = set()
    path = []

    def go(x, y, c, ls):
        if x is y or c is FALSE:
            return None
        steps[0] += 1
        if steps[0] > budget:
            raise Unsupported('comparison too large')
        xi = x.atom.idx if x.leaf is None else INF
        yi = y.atom.idx if y.leaf is None else INF
        ci = c.atom.idx if c.leaf is None else INF
        if xi == INF and yi == INF and ci == INF:
            if eq(x.leaf, y.leaf, ls) or empty(ls):
                return None
            return (list(path), x.leaf, y.leaf)
        m = min(xi, yi, ci)
        at = x.atom if xi == m else y.atom if yi == m else c.atom
        for v in (True, False):
            l2 = ls.copy()
            if not l2.add(at, v):
                continue
            nx = (x.hi if v else x.lo) if xi == m else x
            ny = (y.hi if v else y.lo) if yi == m else y
            nc = (c.hi if v else c.lo) if ci == m else c
            path.append((at, v))
            r = go(nx, ny, nc, l2)
            path.pop()
            if r is not None:
                return r
        return None
    return go(a, b, care, lits.copy() if lits else Lits())


# --------------------------------------------------------------------------
# rendering

def show_num(c):
    return str(c.numerator) if c.denominator == 1 else ('%g' % float(c))


def show_payload(p, depth=0):
    if depth > 6:
        return '...'
    if isinstance(p, Const):
        return repr(p.value)
    if isinstance(p, Poly):
        if not p.terms:
            return '0'
        s = ''
        for m, c in p.terms:
            f = '*'.join(('(%s)' % show_payload(b, depth + 1) if isinstance(b, Poly) else show_payload(b, depth + 1)) +
                         ('' if e == 1 else '**%s' % e) for b, e in m)
            sg = ' + ' if c > 0 else ' - '
            cc = abs(c)
            t = f if cc == 1 and f else show_num(cc) + ('*' + f if f else '')
            s += (sg if s or c < 0 else '') + t
        return s.strip()
    if isinstance(p, Sym):
        return p.name
    if isinstance(p, App):
        return '%s(%s)' % (p.op, ', '.join(show_any(a, depth + 1) for a in p.args))
    if isinstance(p, Tup):
        inner = ', '.join(('*' if k == 's' else '') + show(n, depth + 1) for k, n in p.parts)
        return {'tuple': '(%s)', 'list': '[%s]', 'vec': 'vec(%s)', 'set': '{%s}'}.get(p.kind, p.kind + '(%s)') % inner
    if isinstance(p, Map):
        return '{%s%s}' % (('**%s, ' % show_payload(p.base, depth + 1)) if p.base else '',
                           ', '.join('%s: %s' % (show(k, depth + 1), show(v, depth + 1)) for k, v, g in p.entries))
    if isinstance(p, Cat):
        return ' & '.join(repr(x) if isinstance(x, str) else show_payload(x, depth + 1) for x in p.parts)
    if isinstance(p, Obj):
        return str(p.oid)
    if isinstance(p, Func):
        return getattr(p.fn, 'qualname', str(p.fn))
    if isinstance(p, Bound):
        return '%s.%s' % (show(p.self, depth + 1), getattr(p.fn, 'name', p.fn))
    if isinstance(p, Cls):
        return p.cls.name
    if isinstance(p, (Mod, Ext)):
        return p.name
    if isinstance(p, Meth):
        return '%s.%s' % (show(p.self, depth + 1), p.name)
    return '<undefined>'


def show_any(a, depth=0):
    if isinstance(a, Node):
        return show(a, depth)
    if isinstance(a, Payload):
        return show_payload(a, depth)
    return str(a)


def show(n, depth=0):
    if n.leaf is not None:
        return show_payload(n.leaf, depth)
    if depth > 4:
        return '{...}'
    if n.hi is TRUE and n.lo is FALSE:
        return show_atom(n.atom)
    if n.hi is FALSE and n.lo is TRUE:
        return 'not ' + show_atom(n.atom)
    return '{%s if %s else %s}' % (show(n.hi, depth + 1), show_atom(n.atom), show(n.lo, depth + 1))


def show_atom(a, val=True):
    k = a.kind
    if k in ('lt', 'le'):
        q, t = a.args
        op = {('lt', True): '<', ('lt', False): '>=', ('le', True): '<=', ('le', False): '>'}[k, val]
        return '%s %s %s' % (show_payload(q, 3), op, show_num(t))
    if k in ('eqc', 'enum'):
        return '%s %s %s' % (show_payload(a.args[0], 3), 'is' if val else 'is not', show_payload(a.args[1], 3))
    if k == 'eq':
        return '%s %s %s' % (show_payload(a.args[0], 3), '==' if val else '!=', show_payload(a.args[1], 3))
    if k in ('truth', 'b'):
        return ('' if val else 'not ') + show_payload(a.args[0], 3)
    return ('' if val else 'not ') + '%s(%s)' % (k, ', '.join(show_any(x, 3) for x in a.args))


def show_path(path):
    return ' and '.join(show_atom(a, v) for a, v in path) or 'always'


from . import sample
