"""Abstract machine state: heap of gated values, path guard, effect list."""
from .values import *
from .values import _node


class ObjInfo:
    """heap object: instance of a repo class, container, exception, ..."""
    count = 0

    def __init__(self, name, cls, symbolic=False):
        ObjInfo.count += 1
        self.n = ObjInfo.count
        self.name = name
        self.cls = cls            # ClassInfo | 'list' | 'dict' | 'set' | 'exc:Name' | other str
        self.symbolic = symbolic
        self.kinds = {}           # attr -> kind or callable
        self.init = {}            # attr -> initial Node (lazily filled)
        self.enum_name = None
        self.array = False        # a list standing for a numpy array

    def __repr__(self):
        return self.name


def new_obj_p(info):
    from .values import _intern
    return _intern(Obj, info.n, oid=info)


class NotKnown(Exception):
    """the number of turns is not known"""


class Frame:
    count = 0

    def __init__(self, fn, module, parent=None, names=()):
        Frame.count += 1
        self.n = Frame.count
        self.fn = fn
        self.module = module
        self.parent = parent
        self.names = names
        self.globals = set()
        self.nonlocals = set()
        self.returns = []
        self.yields = False
        self.args0 = None
        self.handler_types = []

    def __repr__(self):
        return '<frame %s#%d>' % (getattr(self.fn, 'qualname', '?'), self.n)


class Effect:
    __slots__ = ('guard', 'kind', 'data', 'loc')

    def __init__(self, guard, kind, data, loc):
        self.guard = guard
        self.kind = kind
        self.data = data
        self.loc = loc

    def __repr__(self):
        return '%s(%s)@%s' % (self.kind, ', '.join(map(show_any, self.data)), self.loc)


class State:
    __slots__ = ('heap', 'pc', 'fx', 'prov')

    def __init__(self, heap=None, pc=TRUE, fx=(), prov=None):
        self.heap = heap if heap is not None else {}
        self.pc = pc
        self.fx = fx
        self.prov = prov if prov is not None else {}

    def copy(self):
        return State(dict(self.heap), self.pc, self.fx, dict(self.prov))

    def assign(self, o):
        self.heap, self.pc, self.fx, self.prov = o.heap, o.pc, o.fx, o.prov

    def dead(self):
        return self.pc is FALSE


def merge2(A, B, fallback):
    """join of two states with disjoint guards; fallback(key) gives the value
    of a key missing on one side (None: take the other one)"""
    pc = OR(A.pc, B.pc)
    c = restrict(A.pc, pc)
    heap = {}
    ah, bh = A.heap, B.heap
    for k, a in ah.items():
        b = bh.get(k)
        if b is a:
            heap[k] = a
            continue
        if b is None:
            b = fallback(k)
            if b is None:
                heap[k] = a
                continue
        heap[k] = ite(c, a, b)
    for k, b in bh.items():
        if k not in ah:
            a = fallback(k)
            heap[k] = b if a is None else ite(c, a, b)
    # effects: common prefix + both rests (their guards are disjoint)
    i = 0
    fa, fb = A.fx, B.fx
    n = min(len(fa), len(fb))
    while i < n and fa[i] is fb[i]:
        i += 1
    fx = fa + fb[i:]
    prov = A.prov
    if B.prov is not prov:
        prov = dict(prov)
        for k, v in B.prov.items():
            if k in prov and prov[k] != v:
                prov[k] = tuple(dict.fromkeys(prov[k] + v))
            else:
                prov[k] = v
    return State(heap, pc, fx, prov)


# --------------------------------------------------------------------------
# substitution of symbols inside values

def subst(node, mapping, simp=None):
    """replace payloads by nodes: mapping {payload: node}"""
    memo_n, memo_p = {}, {}

    def P(p):
        r = memo_p.get(p)
        if r is not None:
            return r
        r = mapping.get(p)
        if r is None:
            r = _P(p)
        memo_p[p] = r
        return r

    def _P(p):
        if isinstance(p, Poly):
            acc = N(0)
            ch = False
            for m, c in p.terms:
                for b, e in m:
                    if P(b).leaf is not b:
                        ch = True
            if not ch:
                return leaf(p)
            for m, c in p.terms:
                t = N(c)
                for b, e in m:
                    nb = P(b)
                    if isinstance(e, int):
                        nb = map1(lambda x, e=e: leaf(ppow_int(x, e)), nb)
                    else:
                        nb = map1(lambda x, e=e: leaf(app_p('pow', (x, num(e)), 'num')), nb)
                    t = map2(lambda x, y: leaf(pmul(x, y)), t, nb)
                acc = map2(lambda x, y: leaf(padd(x, y)), acc, t)
            return acc
        if isinstance(p, App):
            args = []
            ch = False
            for a in p.args:
                if isinstance(a, Payload):
                    r = P(a)
                    ch = ch or r.leaf is not a
                    args.append(r)
                elif isinstance(a, Node):
                    r = Nn(a)
                    ch = ch or r is not a
                    args.append(('node', r))
                else:
                    args.append(('raw', a))
            if not ch:
                return leaf(p)
            pos = [i for i, a in enumerate(args) if isinstance(a, Node)]

            def build(ps):
                full = [a[1] if isinstance(a, tuple) else None for a in args]
                for i, q in zip(pos, ps):
                    full[i] = q
                if simp is not None:
                    r = simp(p.op, full, p.kind)
                    if r is not None:
                        return r
                return leaf(app_p(p.op, full, p.kind))
            return mapn(build, [args[i] for i in pos])
        if isinstance(p, Tup):
            parts = [(k, Nn(n)) for k, n in p.parts]
            return leaf(tup_p(parts, p.kind))
        if isinstance(p, Map):
            return leaf(map_p([(Nn(k), Nn(v), Nn(g)) for k, v, g in p.entries], p.base))
        if isinstance(p, Cat):
            ns = [x for x in p.parts if not isinstance(x, str)]
            rs = [P(x) for x in ns]
            if all(r.leaf is x for r, x in zip(rs, ns)):
                return leaf(p)

            def build(ps):
                it = iter(ps)
                return leaf(cat_p([x if isinstance(x, str) else next(it) for x in p.parts]))
            return mapn(build, rs)
        if isinstance(p, Bound):
            s = Nn(p.self)
            if s is p.self:
                return leaf(p)
            return leaf(bound_p(s, p.fn))
        if isinstance(p, Meth):
            s = Nn(p.self)
            return leaf(p) if s is p.self else leaf(meth_p(s, p.name))
        return leaf(p)

    def A(a):
        k = a.kind
        if k in ('lt', 'le'):
            q, t = a.args
            r = P(q)
            if r.leaf is q:
                return var(a)
            f = lt0 if k == 'lt' else le0
            return map1(lambda x: f(padd(x, num(t), -1)), r)
        if k in ('eqc', 'eq'):
            x, y = P(a.args[0]), P(a.args[1])
            if x.leaf is a.args[0] and y.leaf is a.args[1]:
                return var(a)
            return map2(pl_eq, x, y)
        if k == 'truth':
            r = P(a.args[0])
            return var(a) if r.leaf is a.args[0] else map1(truth_p, r)
        args = []
        ch = False
        for x in a.args:
            if isinstance(x, Payload):
                r = P(x)
                ch = ch or r.leaf is not x
                args.append(r)
            elif isinstance(x, Node):
                r = Nn(x)
                ch = ch or r is not x
                args.append(('node', r))
            else:
                args.append(('raw', x))
        if not ch:
            return var(a)
        pos = [i for i, x in enumerate(args) if isinstance(x, Node)]

        def build(ps):
            full = [x[1] if isinstance(x, tuple) else None for x in args]
            for i, q in zip(pos, ps):
                full[i] = q
            return var(atom(k, *full))
        return mapn(build, [args[i] for i in pos])

    def Nn(n):
        r = memo_n.get(n.id)
        if r is not None:
            return r
        if n.leaf is not None:
            r = P(n.leaf)
        else:
            r = ite(A(n.atom), Nn(n.hi), Nn(n.lo))
        memo_n[n.id] = r
        return r
    return Nn(node)


def bound_p(selfnode, fn):
    from .values import _intern
    return _intern(Bound, (selfnode.id, id(fn) if not isinstance(fn, str) else fn), self=selfnode, fn=fn)


def meth_p(selfnode, name):
    from .values import _intern
    return _intern(Meth, (selfnode.id, name), self=selfnode, name=name)


def func_p(fn):
    from .values import _intern
    return _intern(Func, id(fn), fn=fn)


def cls_p(c):
    from .values import _intern
    return _intern(Cls, id(c), cls=c)


def mod_p(name):
    from .values import _intern
    return _intern(Mod, name, name=name)


def ext_p(name):
    from .values import _intern
    return _intern(Ext, name, name=name)


def truth_p(p):
    """truth of a payload that needs no heap access"""
    if isinstance(p, Const):
        return N(bool(p.value))
    if isinstance(p, Poly):
        k = numconst(p)
        return N(k != 0) if k is not None else NOT(num_eq(p))
    if isinstance(p, (Sym, App)):
        if p.kind in NUMKINDS:
            return NOT(num_eq(p))
        if p.kind in ('cb', 'nn'):
            return TRUE
        if p.kind == 'bool':
            return var(atom('b', p))
        if p.kind == 'str':
            return NOT(var(atom('eqc', p, const(''))))
        return var(atom('truth', p))
    if isinstance(p, Tup):
        if any(k == 'e' for k, _ in p.parts):
            return TRUE
        if not p.parts:
            return FALSE
        n = seq_len(p)
        return map1(lambda q: NOT(num_eq(q)), n)
    if isinstance(p, Map):
        return TRUE if p.entries else FALSE
    if isinstance(p, Cat):
        return TRUE if any(isinstance(x, str) for x in p.parts) else var(atom('truth', p))
    if isinstance(p, Undef):
        return FALSE
    return TRUE


def seq_len(p):
    """length of a Tup payload"""
    n = N(len([1 for k, _ in p.parts if k == 'e']))
    for k, s in p.parts:
        if k == 's':
            n = map2(lambda a, b: leaf(padd(a, b)), n, map1(lambda q: len_p(q), s))
    return n


def len_p(p):
    if isinstance(p, Const) and isinstance(p.value, (str, bytes)):
        return N(len(p.value))
    if isinstance(p, Tup):
        return seq_len(p)
    if isinstance(p, Map) and p.base is None:
        keys = [k for k, v, g in p.entries]
        if all(k.leaf is not None and (isinstance(k.leaf, (Const, Obj)) or numconst(k.leaf) is not None) for k in keys):
            return N(len([1 for k, v, g in p.entries if v is not UNDEF]))
    if isinstance(p, Cat):
        n = N(0)
        for x in p.parts:
            m = N(len(x)) if isinstance(x, str) else len_p(x)
            n = map2(lambda a, b: leaf(padd(a, b)), n, m)
        return n
    if isinstance(p, App):
        if p.op == 'range':
            a, b, s = p.args
            if numconst(s) == 1:
                return leaf(app_p('clamp0', (padd(b, a, -1),), 'nat')) if not is_nat(padd(b, a, -1)) else leaf(padd(b, a, -1))
        if p.op == 'bits':
            return N(p.args[1])
        if p.op == 'collect1':       # one element per iteration
            return leaf(p.args[0])
        if p.op in ('enumerate', 'reversed', 'sorted', 'items', 'values', 'keys'):
            return len_p(p.args[0])
        if p.op == 'slots':
            return leaf(p.args[0])
    return leaf(app_p('len', (p,), 'nat'))
