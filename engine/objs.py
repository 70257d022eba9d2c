"""Attributes, containers and strings (mixin)."""
import ast
import builtins
from fractions import Fraction
from .values import *
from .state import *
from .program import *
from .exprs import is_strlike, is_boolnode, arith, complex_part

CONSTS = {'math.pi': ('pi', 'num'), 'numpy.pi': ('pi', 'num'), 'math.inf': ('inf', 'num'), 'numpy.inf': ('inf', 'num'),
          'scipy.constants.pi': ('pi', 'num'), 'math.e': ('e', 'num'), 'numpy.e': ('e', 'num')}


def numconst_or_none(x):
    return None if isinstance(x, Const) else numconst(x)


class Objs:
    # -- attributes -------------------------------------------------------
    def getattr(self, st, o, name, node=None):
        if st.pc is FALSE:
            return UNDEF
        return self.by_cases(st, o, lambda s, p: self.getattr_p(s, p, name, node))

    def attr_error(self, st, what, name, node, of=None):
        gap = False
        if of is not None:
            n = of.name if hasattr(of, 'tree') else of.module.name
            if n in self.model_modules:
                gap = True
            elif n.split('.')[0] == 'spec' and not hasattr(of, 'tree'):
                gap = self.prog.names_attr(name)
        return self.raise_builtin(st, 'AttributeError', '%s has no attribute %s' % (what, name), node=node, gap=gap)

    def wrap_class_attr(self, st, p, me, cls, v, node):
        """descriptor protocol for a class attribute read through `me`"""
        if v.leaf is None:
            return v
        q = v.leaf
        if isinstance(q, Func):
            return leaf(bound_p(me, q.fn))
        if isinstance(q, App):
            if q.op == '@prop':
                return self.call_payload(st, q.args[0], [('e', me)], {}, node)
            if q.op == '@static':
                return leaf(q.args[0])
            if q.op == '@classm':
                return leaf(bound_p(leaf(cls_p(cls)), q.args[0].fn))
            if q.op == '@field':
                return leaf(q.args[0])
        return v

    def getattr_p(self, st, p, name, node=None):
        me = leaf(p)
        if isinstance(p, Obj):
            info = p.oid
            cls = info.cls
            if isinstance(cls, ClassInfo):
                ca = self.class_attr(st, cls, name)
                if ca is not None and isinstance(ca.leaf, App) and ca.leaf.op == '@prop':
                    return self.wrap_class_attr(st, p, me, cls, ca, node)
                v = st.heap.get((info, name))
                if v is None:
                    v = self.world.heap.get((info, name))
                if v is not None and v is not UNDEF:
                    if v.leaf is None:
                        u = where(v, UNDEF_P)
                        if u is not FALSE and feasible(AND(st.pc, u)):
                            if info.symbolic:
                                pass
                            self.raise_builtin(st, 'AttributeError', name, guard=u, node=node)
                            v = restrict(v, NOT(u))
                    return v
                if name == '__class__':
                    return leaf(cls_p(cls))
                if name == '__dict__':
                    ent = [(N(k[1]), x, TRUE) for k, x in st.heap.items() if k[0] is info and not k[1].startswith('@')]
                    return self.new_container(st, 'dict', leaf(map_p(ent, None)))
                if info.symbolic and (ca is None or name in cls.assigned()) and not (
                        ca is not None and isinstance(ca.leaf, Func)):
                    if self.known_attr(cls, name) or name in info.kinds or not isinstance(cls, ClassInfo) or cls.ext_bases():
                        return self.initial(info, name)
                if ca is not None:
                    return self.wrap_class_attr(st, p, me, cls, ca, node)
                ga = self.class_attr(st, cls, '__getattr__')
                if ga is not None and isinstance(ga.leaf, Func):
                    return self.call_function(st, ga.leaf.fn, [('e', me), ('e', N(name))], {}, node)
                if cls.is_pydantic and name in ('dict', 'model_dump', 'copy', 'json', 'model_copy'):
                    return leaf(meth_p(me, name))
                if cls.ext_bases() and not cls.is_enum and any(
                        b.rsplit('.', 1)[-1] not in ('object', 'ABC', 'Protocol', 'Generic') for b in cls.ext_bases()):
                    if cls.is_pydantic:
                        return leaf(meth_p(me, name))
                    k = (info, name)
                    return leaf(app_p('xattr', (p, name), 'any'))
                return self.attr_error(st, cls.name, name, node, cls)
            if isinstance(cls, str) and cls.startswith('exc:'):
                v = st.heap.get((info, name))
                return v if v is not None else leaf(app_p('xattr', (p, name), 'any'))
            if cls in ('list', 'dict', 'set', 'gen', 'count', 'partial'):
                return leaf(meth_p(me, name))
            v = self.get(st, info, name)
            if v is not None:
                return v
            if info.symbolic:
                return self.initial(info, name)
            return leaf(meth_p(me, name))
        if isinstance(p, Cls):
            c = p.cls
            v = self.class_attr(st, c, name)
            if v is not None:
                q = v.leaf
                if isinstance(q, App) and q.op == '@static':
                    return leaf(q.args[0])
                if isinstance(q, App) and q.op == '@classm':
                    return leaf(bound_p(leaf(p), q.args[0].fn))
                if isinstance(q, App) and q.op == '@field':
                    return leaf(q.args[0])
                return v
            if name in ('__name__', '__qualname__'):
                return N(c.name)
            if name == '__members__' and c.is_enum:
                ent = [(N(m.enum_name), leaf(new_obj_p(m)), TRUE) for m in c.members]
                return self.new_container(st, 'dict', leaf(map_p(ent, None)))
            if c.ext_bases() or name.startswith('__'):
                return leaf(app_p('xattr', (p, name), 'any'))
            return self.attr_error(st, c.name, name, node, c)
        if isinstance(p, Mod):
            v = st.heap.get((('m', p.name), name))
            if v is None:
                v = self.world.heap.get((('m', p.name), name))
            if v is not None:
                return v
            sub = p.name + '.' + name
            if self.prog.has(sub):
                return self.import_(sub)
            if name in ('__path__', '__name__', '__file__'):
                return leaf(app_p('modattr', (p.name, name), 'any'))
            return self.attr_error(st, p.name, name, node, self.prog.modules.get(p.name))
        if isinstance(p, Ext):
            full = p.name + '.' + name
            if full in CONSTS:
                return sym(*CONSTS[full])
            return leaf(ext_p(full))
        if isinstance(p, App) and p.op == '@super':
            after, me_p = p.args
            if isinstance(me_p, Obj) and isinstance(me_p.oid.cls, ClassInfo):
                cls = me_p.oid.cls
            elif isinstance(me_p, Cls):
                cls = me_p.cls
            else:
                cls = after.cls
            v = self.class_attr(st, cls, name, after=after.cls)
            if v is not None:
                return self.wrap_class_attr(st, me_p, leaf(me_p), cls, v, node)
            return leaf(meth_p(leaf(p), name))
        if isinstance(p, Undef):
            return UNDEF
        if isinstance(p, Const):
            if p.value is None:
                return self.attr_error(st, 'None', name, node)
            return leaf(meth_p(me, name))
        if isinstance(p, Func):
            if name in ('__name__', '__qualname__'):
                return N(p.fn.name)
            if name == '__doc__':
                return N(ast.get_docstring(p.fn.node) if not isinstance(p.fn.node, ast.Lambda) else None)
            v = st.heap.get((p.fn, name))
            return v if v is not None else leaf(app_p('attr', (p, name), 'any'))
        if isinstance(p, Bound):
            if name in ('__name__',):
                return N(getattr(p.fn, 'name', p.fn))
            if name == '__self__':
                return p.self
            if name == '__func__' and isinstance(p.fn, FuncInfo):
                return leaf(func_p(p.fn))
        if isinstance(p, (Tup, Cat)):
            if isinstance(p, Tup) and p.kind == 'vec' and name == 'size':
                return seq_len(p)
            return leaf(meth_p(me, name))
        if isinstance(p, Poly):
            if name in ('real', 'imag'):
                return leaf(complex_part(name, p))
            return leaf(meth_p(me, name))
        if isinstance(p, (Sym, App)) and (p.kind in NUMKINDS or p.kind == 'str'):
            return leaf(complex_part(name, p)) if p.kind != 'str' and name in ('real', 'imag') else leaf(meth_p(me, name))
        v = self.get(st, p, name)
        return v

    def known_attr(self, cls, name):
        """is `name` an instance attribute some method of the class assigns?"""
        if name in cls.assigned():
            return True
        return name in self.all_fields(cls)

    def setattr(self, st, o, name, v, node=None):
        if st.pc is FALSE:
            return
        def f(s, p):
            if isinstance(p, Obj):
                info = p.oid
                if isinstance(info.cls, ClassInfo):
                    ca = self.class_attr(s, info.cls, name)
                    if ca is not None and isinstance(ca.leaf, App) and ca.leaf.op == '@prop':
                        setter = ca.leaf.args[1]
                        if setter is NONE_P:
                            return self.attr_error(s, info.cls.name, name + ' setter', node)
                        return self.call_payload(s, setter, [('e', leaf(p)), ('e', v)], {}, node)
                    sa = self.class_attr(s, info.cls, '__setattr__')
                    if sa is not None and isinstance(sa.leaf, Func):
                        return self.call_function(s, sa.leaf.fn, [('e', leaf(p)), ('e', N(name)), ('e', v)], {}, node)
                self.put(s, info, name, v, node)
            elif isinstance(p, Cls):
                self.put(s, p.cls, name, v, node)
                s.fx = s.fx + (Effect(s.pc, 'classattr', (leaf(p), N(name), v), self.loc(node)),)
            elif isinstance(p, Mod):
                self.put(s, ('m', p.name), name, v, node)
            elif isinstance(p, (Sym, App)):
                self.put(s, p, name, v, node)
            elif isinstance(p, Func):
                s.heap[(p.fn, name)] = v
            elif isinstance(p, Const) and p.value is None:
                return self.attr_error(s, 'None', name, node)
            elif isinstance(p, Ext):
                self.effect(s, 'extattr', (leaf(p), N(name), v), node)
            else:
                return self.attr_error(s, show_payload(p), name, node)
            return NONE
        self.by_cases(st, o, f)

    # -- sequences --------------------------------------------------------
    def rest(self, st, info, c):
        """what an iterator still gives; it is at its end then"""
        pos = self.get(st, info, 'pos')
        k = numconst(pos.leaf) if pos.leaf is not None else None

        def cut(q):
            if not isinstance(q, Tup):
                q = tup_p([('s', leaf(q))], 'list')
            if all(x == 'e' for x, _ in q.parts[:int(k)]):
                return leaf(tup_p(q.parts[int(k):], q.kind))
            return self.unknown('the rest of an iterator')
        st.heap[(info, 'pos')] = map1(len_p, c)
        if k == 0:
            return c
        if k is not None:
            return map1(cut, c)
        if pos is map1(len_p, c):
            return leaf(tup_p([], 'list'))
        return self.unknown('the rest of an iterator')

    def as_seq(self, st, v, kind='tuple'):
        """any iterable -> gated Tup (or opaque payload spliced)"""
        def f(s, p):
            if isinstance(p, Tup):
                return leaf(tup_p(p.parts, kind))
            if isinstance(p, Obj):
                i = p.oid
                self.force(s, i)
                if s.pc is FALSE:
                    return UNDEF
                if i.cls in ('list', 'set', 'gen'):
                    c = self.get(s, i, '@')
                    if i.cls == 'gen':
                        c = self.rest(s, i, c)
                    return map1(lambda q: leaf(tup_p(q.parts if isinstance(q, Tup) else [('s', leaf(q))], kind)), c)
                if i.cls == 'dict':
                    c = self.get(s, i, '@')
                    return map1(lambda q: self.map_parts(q, 'keys', kind), c)
                if isinstance(i.cls, ClassInfo):
                    m = self.class_attr(s, i.cls, '__iter__')
                    if m is not None and isinstance(m.leaf, Func):
                        r = self.call_function(s, m.leaf.fn, [('e', leaf(p))], {}, None)
                        return self.as_seq(s, r, kind)
                if isinstance(i.cls, ClassInfo) and i.cls.is_namedtuple:
                    return tup([self.get(s, i, n) for n in self.all_fields(i.cls)], kind)
            if isinstance(p, Cls) and p.cls.is_enum:
                return tup([leaf(new_obj_p(m)) for m in p.cls.members], kind)
            if isinstance(p, Const):
                if isinstance(p.value, str):
                    return tup([N(ch) for ch in p.value], kind)
                if isinstance(p.value, bytes):
                    return tup([N(b) for b in p.value], kind)
                self.raise_builtin(s, 'TypeError', 'not iterable', node=None)
                return tup([], kind)
            if isinstance(p, (Poly, Func, Bound, Mod)) or isinstance(p, Cls) or (isinstance(p, (Sym, App)) and p.kind in NUMKINDS):
                self.raise_builtin(s, 'TypeError', 'not iterable', node=None)
                return tup([], kind)
            if isinstance(p, App) and p.op == 'range':
                a, b, stp = (numconst(x) for x in p.args)
                if a is not None and b is not None and stp is not None:
                    return tup([N(i) for i in range(int(a), int(b), int(stp))], kind)
            if isinstance(p, Undef):
                return tup([], kind)
            return leaf(tup_p([('s', leaf(p))], kind))
        return self.by_cases(st, v, f)

    def map_parts(self, q, what, kind):
        if not isinstance(q, Map):
            return leaf(tup_p([('s', leaf(app_p(what, (q,), 'nn')))], kind))
        out = []
        if q.base is not None:
            if any(v is UNDEF for k, v, g in q.entries) or q.entries:
                return leaf(tup_p([('s', leaf(app_p(what, (q,), 'nn')))], kind))
            return leaf(tup_p([('s', leaf(app_p(what, (q.base,), 'nn')))], kind))
        for k, v, g in q.entries:
            if v is UNDEF:
                return leaf(tup_p([('s', leaf(app_p(what, (q,), 'nn')))], kind))
            out.append(('e', k if what == 'keys' else v if what == 'values' else tup([k, v])))
        return leaf(tup_p(out, kind))

    def item_p(self, st, p, i):
        """element i (python int or payload) of a sequence payload"""
        ip = num(i) if isinstance(i, int) else i
        k = numconst(ip)
        if isinstance(p, Tup):
            if k is not None and k.denominator == 1:
                k = int(k)
                parts = p.parts
                if k >= 0:
                    if k < len(parts) and all(x == 'e' for x, _ in parts[:k + 1]):
                        return parts[k][1]
                    # first splice at index j
                    j = 0
                    while j < len(parts) and parts[j][0] == 'e':
                        j += 1
                    if j < len(parts) and len([1 for x, _ in parts[j:]]) == 1:
                        return map1(lambda q: self.item_p(st, q, num(k - j)), parts[j][1])
                    if j == len(parts):
                        return None      # IndexError
                else:
                    if -k <= len(parts) and all(x == 'e' for x, _ in parts[k:]):
                        return parts[k][1]
                    if all(x == 'e' for x, _ in parts):
                        return None
                    if len(parts) == 1:
                        return map1(lambda q: self.item_p(st, q, num(k)), parts[0][1])
            if len(p.parts) == 1 and p.parts[0][0] == 's':
                return map1(lambda q: self.item_p(st, q, ip), p.parts[0][1])
            # symbolic index over known elements
            if all(x == 'e' for x, _ in p.parts) and 0 < len(p.parts) <= 64:
                r = leaf(app_p('badindex', (p, ip)))
                n = len(p.parts)
                for j, (_, v) in reversed(list(enumerate(p.parts))):
                    c = num_eq(padd(ip, num(j), -1))
                    if not is_nat(ip):
                        c = OR(c, num_eq(padd(ip, num(j - n), -1)))
                    r = ite(c, v, r)
                return r
            return leaf(app_p('item', (p, ip)))
        if isinstance(p, Const) and isinstance(p.value, (str, bytes)) and k is not None:
            if -len(p.value) <= k < len(p.value):
                return N(p.value[int(k)])
            return None
        if isinstance(p, App):
            r = simp_item(p, ip)
            if r is not None:
                return r
        if k is not None and k < 0:
            # s[-1] is the last element
            n = len_p(p)
            return map1(lambda q: leaf(app_p('item', (p, padd(q, num(k))), elem_kind(p))), n)
        return leaf(app_p('item', (p, ip), elem_kind(p)))

    def item_of(self, st, v, i, node=None):
        def f(s, p):
            if isinstance(p, Obj):
                self.force(s, p.oid)
                if s.pc is FALSE:
                    return UNDEF
                if p.oid.cls in ('list', 'gen', 'set'):
                    c = self.get(s, p.oid, '@')
                    return self.item_of(s, c, i, node)
                if isinstance(p.oid.cls, ClassInfo) and p.oid.cls.is_namedtuple:
                    return self.get(s, p.oid, self.all_fields_list(p.oid.cls)[i])
                if p.oid.cls == 'dict':
                    return self.item_of(s, self.as_seq(s, leaf(p)), i, node)
                if isinstance(p.oid.cls, ClassInfo):
                    return self.getitem(s, leaf(p), N(i) if isinstance(i, int) else leaf(i), node)
            r = self.item_p(s, p, i) if not isinstance(p, Undef) else UNDEF
            if r is None:
                return self.raise_builtin(s, 'IndexError', 'index', node=node)
            return r
        return self.by_cases(st, v, f)

    def all_fields_list(self, cls):
        return list(self.all_fields(cls))

    def getitem(self, st, o, i, node=None):
        if st.pc is FALSE:
            return UNDEF

        def f(s, p):
            if isinstance(p, Obj):
                info = p.oid
                if info.cls == 'dict':
                    c = self.get(s, info, '@')
                    return self.map_get(s, c, i, None, node)
                if info.array and isinstance(i.leaf, Tup):
                    return self.nd_get(s, leaf(p), [x for _, x in i.leaf.parts], node)
                if info.cls == 'list' and isinstance(i.leaf, App) and i.leaf.op == 'slice':
                    return self.slice_of(s, leaf(p), *[leaf(x) for x in i.leaf.args], node=node)
                if info.cls in ('list',):
                    return self.seq_get(s, self.get(s, info, '@'), i, node)
                if isinstance(info.cls, ClassInfo):
                    m = self.class_attr(s, info.cls, '__getitem__')
                    if m is not None and isinstance(m.leaf, Func):
                        return self.call_function(s, m.leaf.fn, [('e', leaf(p)), ('e', i)], {}, node)
                    if info.cls.is_namedtuple:
                        return self.by_cases(s, i, lambda s2, q: self.item_of(s2, leaf(p), int(numconst(q)), node))
            if isinstance(p, Cls) and p.cls.is_enum:
                ent = [(N(m.enum_name), leaf(new_obj_p(m)), TRUE) for m in p.cls.members]
                return self.map_get(s, leaf(map_p(ent)), i, None, node)
            if isinstance(p, Map):
                return self.map_get(s, leaf(p), i, None, node)
            if isinstance(p, Cls) or isinstance(p, Ext):
                return leaf(p)           # generic alias
            if isinstance(p, Undef):
                return UNDEF
            if isinstance(p, Const) and p.value is None:
                return self.raise_builtin(s, 'TypeError', 'None is not subscriptable', node=node)
            if isinstance(p, Sym) and p.kind == 'map':
                return self.map_get(s, leaf(map_p([], p)), i, None, node)
            return self.seq_get(s, leaf(p), i, node)
        return self.by_cases(st, o, f)

    def seq_get(self, st, c, i, node):
        def f(s, q):
            def g(s2, k):
                if isinstance(k, Const) and isinstance(k.value, bool):
                    k = num(int(k.value))
                if isinstance(k, App) and k.op == 'slice':
                    return leaf(app_p('item', (q, k)))
                if not maybe_num(k):
                    if isinstance(q, (Sym, App)):
                        v = s2.heap.get((q, ('item', k)))
                        return v if v is not None else leaf(app_p('item', (q, k), elem_kind(q)))
                    if isinstance(k, Tup):
                        return leaf(app_p('item', (q, k)))
                    return self.raise_builtin(s2, 'TypeError', 'bad index', node=node)
                if isinstance(q, (Sym, App)):
                    v = s2.heap.get((q, ('item', k)))
                    if v is not None:
                        return v
                r = self.item_p(s2, q, k)
                if r is None:
                    return self.raise_builtin(s2, 'IndexError', 'index', node=node)
                return r
            return self.by_cases(s, i, g)
        return self.by_cases(st, c, f)

    def key_eq(self, a, b):
        return map2(pl_eq, a, b)

    def map_has(self, c, key):
        def f(q):
            if isinstance(q, Map):
                r = FALSE if q.base is None else self.base_has(q.base, key)
                for k, v, g in q.entries:
                    e = self.key_eq(k, key)
                    present = map1(lambda x: FALSE if isinstance(x, Undef) else TRUE, v)
                    r = ite(e, present, r)
                return r
            return self.base_has(q, key)
        return map1(f, c)

    def base_has(self, base, key):
        return map1(lambda k: var(atom('in', k, base)), key)

    def map_get(self, st, c, key, default, node=None):
        """default None: raise KeyError"""
        def f(q):
            if isinstance(q, Map):
                r = UNDEF if q.base is None else self.base_get(q.base, key)
                for k, v, g in q.entries:
                    r = ite(self.key_eq(k, key), v, r)
                return r
            return self.base_get(q, key)
        v = map1(f, c)
        u = where(v, UNDEF_P)
        hasbase = any((not isinstance(q, Map)) or q.base is not None for q in leaves(c))
        if hasbase:
            h = self.map_has(c, key)
            u = OR(u, NOT(h))
        if u is FALSE:
            return v
        if default is not None:
            return ite(u, default, v)
        if hasbase and getattr(self, 'assume_keys', True) and not any(isinstance(p, Undef) for p in leaves(v)):
            if not self.handled(st, 'KeyError'):
                return v
        self.raise_builtin(st, 'KeyError', 'key', guard=u, node=node)
        if st.pc is FALSE:
            return UNDEF
        return restrict(v, NOT(u))

    def handled(self, st, name):
        for f in reversed(self.stack):
            for types in f.handler_types:
                for t in types:
                    if t is None:
                        return True
                    d = ast.dump(t)
                    if "'%s'" % name in d or "'LookupError'" in d or "'Exception'" in d:
                        return True
        return False

    def base_get(self, base, key):
        if isinstance(base, App) and base.op == 'dictof':
            pass
        return map1(lambda k: leaf(app_p('get', (base, k), 'any')), key)

    def setitem(self, st, o, i, v, node=None):
        if st.pc is FALSE:
            return

        def f(s, p):
            if isinstance(p, Obj):
                info = p.oid
                if info.cls == 'dict':
                    c = self.get(s, info, '@')
                    self.put(s, info, '@', map1(lambda q: self.map_set(q, i, v), c), node)
                    return NONE
                if info.array and isinstance(i.leaf, Tup):
                    self.nd_set(s, leaf(p), [x for _, x in i.leaf.parts], v, node)
                    return NONE
                if info.cls == 'list' and i.leaf is not None and isinstance(i.leaf, App) and i.leaf.op == 'slice':
                    self.set_slice(s, info, i.leaf, v, node)
                    return NONE
                if info.cls == 'list':
                    c = self.get(s, info, '@')
                    def g(s2, q):
                        def h(s3, k):
                            kk = numconst(k) if not isinstance(k, Const) else None
                            parts = list(q.parts) if isinstance(q, Tup) else [('s', leaf(q))]
                            if kk is not None and all(x == 'e' for x, _ in parts):
                                kk = int(kk)
                                if not -len(parts) <= kk < len(parts):
                                    self.raise_builtin(s3, 'IndexError', 'assignment index', node=node)
                                    return UNDEF
                                if info.array and isinstance(parts[kk][1].leaf, Obj) and parts[kk][1].leaf.oid.array:
                                    self.set_slice(s3, parts[kk][1].leaf.oid, app_p('slice', (NONE_P, NONE_P, NONE_P)), v, node)
                                    return leaf(q)
                                parts[kk] = ('e', v)
                                return leaf(tup_p(parts, 'list'))
                            return leaf(tup_p([('s', leaf(app_p('store', (q, k, v), 'nn')))], 'list'))
                        return self.by_cases(s2, i, h)
                    r = self.by_cases(s, c, g)
                    if s.pc is not FALSE:
                        self.put(s, info, '@', r, node)
                    return NONE
                if isinstance(info.cls, ClassInfo):
                    m = self.class_attr(s, info.cls, '__setitem__')
                    if m is not None and isinstance(m.leaf, Func):
                        self.call_function(s, m.leaf.fn, [('e', leaf(p)), ('e', i), ('e', v)], {}, node)
                        return NONE
            if isinstance(p, (Sym, App)):
                def h(s3, k):
                    self.put(s3, p, ('item', k), v, node)
                    self.effect(s3, 'setitem', (leaf(p), leaf(k), v), node)
                    return NONE
                return self.by_cases(s, i, h)
            if isinstance(p, Undef):
                return UNDEF
            self.unknown('item assignment to %s' % show_payload(p), node)
            return NONE
        self.by_cases(st, o, f)

    def positions(self, k, n):
        """the positions a slice with constant bounds stands for"""
        ends = []
        for x in k.args:
            c = None if isinstance(x, Const) and x.value is None else numconst(x)
            if c is None and not (isinstance(x, Const) and x.value is None) or c is not None and c.denominator != 1:
                return None
            ends.append(None if c is None else int(c))
        return range(*slice(*ends).indices(n))

    def known_items(self, st, v):
        """the items of a list, tuple or array of known length"""
        p = v.leaf
        if isinstance(p, Obj) and p.oid.cls == 'gen':
            self.force(st, p.oid)
            p = self.as_seq(st, v, 'list').leaf
        if isinstance(p, Obj) and p.oid.cls == 'list':
            p = self.get(st, p.oid, '@').leaf
        if isinstance(p, App) and p.op == 'range':
            p = self.as_seq(st, v, 'list').leaf
        if isinstance(p, Tup) and all(k == 'e' for k, _ in p.parts):
            return [n for _, n in p.parts]
        return None

    def nd_get(self, st, r, idx, node):
        for j, x in enumerate(idx):
            if isinstance(x.leaf, App) and x.leaf.op == 'slice':
                items = self.known_items(st, r)
                where = None if items is None else self.positions(x.leaf, len(items))
                if where is None:
                    return self.unknown('slice of an array', node)
                return self.array(st, [self.nd_get(st, items[k], idx[j + 1:], node) for k in where])
            r = self.getitem(st, r, x, node)
        return r

    def nd_set(self, st, r, idx, v, node):
        for j, x in enumerate(idx[:-1]):
            if isinstance(x.leaf, App) and x.leaf.op == 'slice':
                items = self.known_items(st, r)
                where = None if items is None else self.positions(x.leaf, len(items))
                if where is None:
                    self.unknown('slice of an array', node)
                    self.give_up(st, 'assignment to a slice of unknown size', node)
                    return
                values = self.known_items(st, v)
                depth = sum(1 for y in idx[j + 1:] if isinstance(y.leaf, App) and y.leaf.op == 'slice')
                if values is not None and (depth == 0 or values and self.known_items(st, values[0]) is not None):
                    if len(values) == 1:
                        values = values * len(where)
                    if len(values) != len(where):
                        self.raise_builtin(st, 'ValueError', 'could not broadcast', node=node)
                        return
                else:
                    values = [v] * len(where)
                for k, e in zip(where, values):
                    self.nd_set(st, items[k], idx[j + 1:], e, node)
                return
            r = self.getitem(st, r, x, node)
        self.setitem(st, r, idx[-1], v, node)

    def give_up(self, st, why, node):
        """what follows is not followed"""
        self.note(why, node)
        st.fx = st.fx + (Effect(st.pc, '?unknown', (self.unknown(why, node),), self.loc(node)),)

    def set_slice(self, st, info, k, v, node):
        def g(s, q):
            where = self.positions(k, len(q.parts)) if isinstance(q, Tup) and all(x == 'e' for x, _ in q.parts) else None
            values = self.known_items(s, v)
            if not info.array and all(isinstance(x, Const) and x.value is None for x in k.args):
                # the whole content
                return map1(lambda c: leaf(tup_p(c.parts, 'list')) if isinstance(c, Tup) else leaf(tup_p([('s', leaf(c))], 'list')),
                            self.as_seq(s, v, 'list'))
            if where is None or values is None and not info.array:
                return leaf(tup_p([('s', self.unknown('assignment to a slice of unknown size', node))], 'list'))
            parts = [n for _, n in q.parts]
            if info.array:
                if values is None:
                    values = [v] * len(where)
                elif len(values) == 1:
                    values = values * len(where)
                if len(values) != len(where):
                    return self.raise_builtin(s, 'ValueError', 'could not broadcast', node=node)
                for j, e in zip(where, values):
                    if isinstance(parts[j].leaf, Obj) and parts[j].leaf.oid.array:
                        # a row keeps its identity
                        self.set_slice(s, parts[j].leaf.oid, app_p('slice', (NONE_P, NONE_P, NONE_P)), e, node)
                    else:
                        parts[j] = e
            elif where.step == 1:
                lo = where.start
                parts[lo:max(lo, where.stop)] = values
            elif len(values) != len(where):
                return self.raise_builtin(s, 'ValueError', 'attempt to assign to an extended slice', node=node)
            else:
                for j, e in zip(where, values):
                    parts[j] = e
            return leaf(tup_p([('e', x) for x in parts], 'list'))
        r = self.by_cases(st, self.get(st, info, '@'), g)
        if st.pc is not FALSE:
            self.put(st, info, '@', r, node)

    def map_set(self, q, key, v):
        if not isinstance(q, Map):
            q = map_p([], q)
        ent = list(q.entries)
        for j in range(len(ent) - 1, -1, -1):
            k = ent[j][0]
            if k is key:
                ent[j] = (k, v, TRUE)
                return leaf(map_p(ent, q.base))
            if self.key_eq(k, key) is not FALSE:
                break
        # conditional keys: split
        if key.leaf is None and len(leaves(key)) <= 16:
            return map1(lambda kp: self.map_set(q, leaf(kp), v), key)
        ent.append((key, v, TRUE))
        return leaf(map_p(ent, q.base))

    def map_del(self, q, key):
        if not isinstance(q, Map):
            q = map_p([], q)
        ent = list(q.entries)
        for j in range(len(ent) - 1, -1, -1):
            k = ent[j][0]
            if k is key:
                if q.base is None and all(self.key_eq(e[0], key) is FALSE for n, e in enumerate(ent) if n != j):
                    del ent[j]
                    return leaf(map_p(ent, q.base))
                ent[j] = (k, UNDEF, TRUE)
                return leaf(map_p(ent, q.base))
            if self.key_eq(k, key) is not FALSE:
                break
        if key.leaf is None and len(leaves(key)) <= 16:
            return map1(lambda kp: self.map_del(q, leaf(kp)), key)
        ent.append((key, UNDEF, TRUE))
        return leaf(map_p(ent, q.base))

    def delitem(self, st, o, i, node=None):
        def f(s, p):
            if isinstance(p, Obj) and p.oid.cls == 'dict':
                c = self.get(s, p.oid, '@')
                miss = NOT(self.map_has(c, i))
                self.raise_builtin(s, 'KeyError', 'del', guard=miss, node=node)
                if s.pc is not FALSE:
                    self.put(s, p.oid, '@', map1(lambda q: self.map_del(q, i), c), node)
                return NONE
            if isinstance(p, Obj) and p.oid.cls == 'list':
                k = i.leaf
                if isinstance(k, App) and k.op == 'slice':
                    if numconst_or_none(k.args[2]) not in (None, 1):
                        items = self.known_items(s, leaf(p))
                        where = None if items is None else self.positions(k, len(items))
                        if where is None:
                            self.put(s, p.oid, '@', leaf(tup_p([('s', self.unknown('deletion of a slice', node))], 'list')), node)
                        else:
                            self.put(s, p.oid, '@', leaf(tup_p([('e', x) for j, x in enumerate(items) if j not in where], 'list')), node)
                    else:
                        self.set_slice(s, p.oid, k, leaf(tup_p([], 'tuple')), node)
                    return NONE
                self.method(s, leaf(p), 'pop', [('e', i)], {}, node)
                return NONE
            self.effect(s, 'delitem', (leaf(p), i), node)
            return NONE
        self.by_cases(st, o, f)

    def slice_of(self, st, o, lo, hi, step, node=None):
        def f(s, p):
            src = leaf(p)
            islist = False
            if isinstance(p, Obj) and p.oid.cls == 'list':
                src = self.get(s, p.oid, '@')
                islist = True
            r = mapn(lambda ps: self.slice_p(*ps), [src, lo, hi, step])
            if islist:
                r = map1(lambda q: leaf(tup_p(q.parts if isinstance(q, Tup) else [('s', leaf(q))], 'list')), r)
                r = self.new_container(s, 'list', r)
                r.leaf.oid.array = p.oid.array
            return r
        return self.by_cases(st, o, f)

    def slice_p(self, p, lo, hi, step):
        def c(x):
            if isinstance(x, Const) and x.value is None:
                return None, True
            k = numconst(x)
            return (int(k), True) if k is not None and k.denominator == 1 else (None, False)
        (l, okl), (h, okh), (s, oks) = c(lo), c(hi), c(step)
        if okl and okh and oks:
            if isinstance(p, Const) and isinstance(p.value, (str, bytes)):
                return N(p.value[slice(l, h, s)])
            if isinstance(p, Tup):
                if all(k == 'e' for k, _ in p.parts):
                    return leaf(tup_p(p.parts[slice(l, h, s)], p.kind))
                if s in (None, 1) and (l or 0) >= 0 and h is None:
                    if all(k == 'e' for k, _ in p.parts[:l or 0]):
                        return leaf(tup_p(p.parts[l or 0:], p.kind))
                if s in (None, 1) and not l and h is not None and h < 0 and all(k == 'e' for k, _ in p.parts[h:]):
                    return leaf(tup_p(p.parts[:h], p.kind))
            if l in (None, 0) and h is None and s in (None, 1):
                return leaf(p)
            if isinstance(p, Cat) and s in (None, 1) and h is None and l > 0 and isinstance(p.parts[0], str) and len(p.parts[0]) >= l:
                return leaf(cat_p([p.parts[0][l:]] + list(p.parts[1:])))
            if isinstance(p, Cat) and s in (None, 1) and not l and h < 0 and isinstance(p.parts[-1], str) and len(p.parts[-1]) >= -h:
                return leaf(cat_p(list(p.parts[:-1]) + [p.parts[-1][:h]]))
            if l is None and h is None and s == -1:
                return leaf(app_p('reversed', (p,), 'str' if is_strlike(p) else 'nn'))
        if l is None and okl:
            lo = num(0)
        if s is None and oks:
            step = num(1)
        kind = 'str' if is_strlike(p) else 'nn'
        return leaf(app_p('sub', (p, lo, hi, step), kind))

    def contains(self, st, cont, x, node=None):
        self.force_in(st, cont)
        def f(p):
            if isinstance(p, Obj):
                i = p.oid
                if i.cls == 'dict':
                    return self.map_has(self.get(st, i, '@'), x)
                if i.cls in ('list', 'set', 'gen'):
                    return map1(lambda q: self.seq_has(st, q, x), self.get(st, i, '@'))
                if isinstance(i.cls, ClassInfo):
                    m = self.class_attr(st, i.cls, '__contains__')
                    if m is not None and isinstance(m.leaf, Func):
                        return self.truth(st, self.call_function(st, m.leaf.fn, [('e', leaf(p)), ('e', x)], {}, node))
            if isinstance(p, Map):
                return self.map_has(leaf(p), x)
            if isinstance(p, Cls) and p.cls.is_enum:
                return self.seq_has(st, self.as_seq(st, leaf(p)).leaf, x)
            return self.seq_has(st, p, x)
        return map1(f, cont)

    def seq_has(self, st, p, x):
        if isinstance(p, Tup):
            r = FALSE
            for k, v in p.parts:
                if k == 'e':
                    r = OR(r, self.equal(st, v, x))
                else:
                    r = OR(r, map2(lambda a, s: var(atom('in', a, s)), x, v))
            return r
        if isinstance(p, Const) and isinstance(p.value, (str, bytes)):
            def g(a):
                if isinstance(a, Const) and type(a.value) is type(p.value):
                    return N(a.value in p.value)
                return var(atom('in', a, p))
            return map1(g, x)
        if isinstance(p, App) and p.op == 'range' and numconst(p.args[2]) == 1:
            return map1(lambda a: AND(NOT(lt0(padd(a, p.args[0], -1))), lt0(padd(a, p.args[1], -1))), x)
        return map1(lambda a: var(atom('in', a, p)), x)

    def make_set(self, st, content):
        def f(q):
            out = []
            for k, v in q.parts:
                if k == 'e' and any(k2 == 'e' and v2 is v for k2, v2 in out):
                    continue
                out.append((k, v))
            # canonical order for constants
            if all(k == 'e' and v.leaf is not None for k, v in out):
                out.sort(key=lambda t: t[1].leaf.uid)
            if len(out) == 1 and out[0][0] == 's':
                s = out[0][1]
                return map1(lambda z: leaf(tup_p([('s', leaf(z if isinstance(z, App) and z.op == 'set' else app_p('set', (z,), 'nn')))], 'set')), s)
            return leaf(tup_p(out, 'set'))
        return self.new_container(st, 'set', map1(f, content))


def elem_kind(p):
    if isinstance(p, Sym) and p.meta is not None and isinstance(p.meta, str):
        return p.meta
    if isinstance(p, (Sym, App)) and p.kind == 'str':
        return 'str'
    if isinstance(p, App) and p.op == 'range':
        return 'int'
    if isinstance(p, App) and p.op in ('sub', 'sorted', 'reversed', 'set', 'store') and isinstance(p.args[0], Payload):
        return elem_kind(p.args[0])
    if isinstance(p, App) and p.op == 'attr' and p.args[1].startswith('nums_'):
        return 'num'
    return 'any'


def simp_item(p, ip):
    """element of a structured sequence term"""
    if p.op == 'range':
        return leaf(padd(p.args[0], pmul(ip, p.args[2])))
    if p.op == 'enumerate':
        it = simp_item(p.args[0], ip) if isinstance(p.args[0], App) else None
        if it is None:
            it = leaf(app_p('item', (p.args[0], ip), elem_kind(p.args[0])))
        return tup([leaf(padd(ip, p.args[1])), it])
    if p.op == 'zip':
        out = []
        for s in p.args:
            it = simp_item(s, ip) if isinstance(s, App) else None
            out.append(it if it is not None else leaf(app_p('item', (s, ip), elem_kind(s))))
        return tup(out)
    if p.op == 'items':
        k = leaf(app_p('item', (app_p('keys', (p.args[0],), 'nn'), ip), 'any'))
        return tup([k, map1(lambda q: leaf(app_p('get', (p.args[0], q), 'any')), k)])
    if p.op == 'values':
        k = leaf(app_p('item', (app_p('keys', (p.args[0],), 'nn'), ip), 'any'))
        return map1(lambda q: leaf(app_p('get', (p.args[0], q), 'any')), k)
    if p.op == 'collect1':
        dom, k, body = p.args
        from .loops import resimp
        return subst(body, {k: leaf(ip)}, resimp)
    if p.op == 'reversed':
        n = len_p(p.args[0])
        if n.leaf is not None:
            j = padd(padd(n.leaf, num(1), -1), ip, -1)
            r = simp_item(p.args[0], j) if isinstance(p.args[0], App) else None
            return r if r is not None else leaf(app_p('item', (p.args[0], j), elem_kind(p.args[0])))
    if p.op == 'sub' and numconst(p.args[3]) == 1 and numconst(p.args[1]) is not None and numconst(p.args[1]) >= 0 and is_nat(ip):
        r = simp_item(p.args[0], padd(ip, p.args[1])) if isinstance(p.args[0], App) else None
        return r if r is not None else leaf(app_p('item', (p.args[0], padd(ip, p.args[1])), elem_kind(p.args[0])))
    if p.op == 'repeat' and isinstance(p.args[0], Tup) and len(p.args[0].parts) == 1 and p.args[0].parts[0][0] == 'e':
        return p.args[0].parts[0][1]
    return None
