"""Loops (mixin): known iterables are unrolled, others are summarised by
closed forms (sum, collect, exists/first, last, fold)."""
import ast
from .values import *
from .state import *
from .program import *

UNROLL = 400


def resimp(op, args, kind):
    """re-simplify a term whose arguments changed by substitution"""
    from .objs import simp_item
    from .exprs import fdiv_p, mod_p_, pow_p
    if op == 'item':
        p, i = args
        if isinstance(p, App):
            r = simp_item(p, i)
            if r is not None:
                return r
        if isinstance(p, Tup):
            k = numconst(i) if not isinstance(i, Const) else None
            if k is not None and all(x == 'e' for x, _ in p.parts) and -len(p.parts) <= k < len(p.parts):
                return p.parts[int(k)][1]
        if isinstance(p, Const) and isinstance(p.value, (str, bytes)):
            k = numconst(i) if not isinstance(i, Const) else None
            if k is not None and -len(p.value) <= k < len(p.value):
                return N(p.value[int(k)])
        return None
    if op == 'fdiv':
        return leaf(fdiv_p(*args))
    if op == 'mod':
        return leaf(mod_p_(*args))
    if op == 'pow':
        return leaf(pow_p(*args))
    if op == 'len':
        return len_p(args[0])
    if op == 'fmt' and isinstance(args[0], Const) and isinstance(args[0].value, str) and args[1] == '':
        return leaf(args[0])
    return None


def depends(node, payloads, memo=None):
    """does a value mention one of the payloads?"""
    memo = {} if memo is None else memo

    def P(p):
        if p in payloads:
            return True
        k = ('p', p.uid)
        if k in memo:
            return memo[k]
        memo[k] = False
        r = False
        if isinstance(p, Poly):
            r = any(P(b) for m, c in p.terms for b, e in m)
        elif isinstance(p, App):
            r = any(P(a) if isinstance(a, Payload) else Nn(a) if isinstance(a, Node) else False for a in p.args)
        elif isinstance(p, Tup):
            r = any(Nn(n) for k2, n in p.parts)
        elif isinstance(p, Map):
            r = any(Nn(a) or Nn(b) for a, b, g in p.entries) or (p.base is not None and P(p.base))
        elif isinstance(p, Cat):
            r = any(P(x) for x in p.parts if not isinstance(x, str))
        elif isinstance(p, (Bound, Meth)):
            r = Nn(p.self)
        memo[k] = r
        return r

    def A(a):
        return any(P(x) if isinstance(x, Payload) else Nn(x) if isinstance(x, Node) else False for x in a.args)

    def Nn(n):
        k = ('n', n.id)
        if k in memo:
            return memo[k]
        if n.leaf is not None:
            r = P(n.leaf)
        else:
            r = A(n.atom) or Nn(n.hi) or Nn(n.lo)
        memo[k] = r
        return r
    return Nn(node)


def payloads_of(node):
    """all payloads mentioned in a value"""
    seenp, seenn = set(), set()

    def P(p):
        if p in seenp:
            return
        seenp.add(p)
        if isinstance(p, Poly):
            for m, c in p.terms:
                for b, e in m:
                    P(b)
        elif isinstance(p, App):
            for a in p.args:
                if isinstance(a, Payload):
                    P(a)
                elif isinstance(a, Node):
                    Nn(a)
        elif isinstance(p, Tup):
            for k2, n in p.parts:
                Nn(n)
        elif isinstance(p, Map):
            for a, b, g in p.entries:
                Nn(a)
                Nn(b)
            if p.base is not None:
                P(p.base)
        elif isinstance(p, Cat):
            for x in p.parts:
                if not isinstance(x, str):
                    P(x)
        elif isinstance(p, (Bound, Meth)):
            Nn(p.self)

    def Nn(n):
        if n.id in seenn:
            return
        seenn.add(n.id)
        if n.leaf is not None:
            P(n.leaf)
        else:
            for x in n.atom.args:
                if isinstance(x, Payload):
                    P(x)
                elif isinstance(x, Node):
                    Nn(x)
            Nn(n.hi)
            Nn(n.lo)
    Nn(node)
    return seenp


def bindk(k, *nodes):
    """rename the free loop index k to a canonical bound variable"""
    n = 0
    for nd in nodes:
        for p in payloads_of(nd):
            if isinstance(p, Sym) and p.name.startswith('\u03b2'):
                n = max(n, int(p.name[1:]))
    b = sym_p('\u03b2%d' % (n + 1), 'nat')
    return b, [subst(nd, {k: leaf(b)}) for nd in nodes]


STOP = ast.Name(id='StopIteration', ctx=ast.Load())


class Loops:
    def x_For(self, st, s):
        it = self.eval(st, s.iter)
        if st.pc is FALSE:
            return
        if isinstance(it.leaf, Obj) and self.is_lazy(st, it.leaf.oid) and self.for_lazy(st, s, it.leaf.oid):
            return
        seq = self.as_seq(st, it, 'tuple')
        if st.pc is FALSE:
            return
        self.by_cases(st, seq, lambda s2, p: self.for_parts(s2, s, p.parts))

    def for_lazy(self, st, s, info):
        """a loop over a generator whose turns are known: body and generator alternate"""
        before = st.copy()
        fr = self.frame()
        marks = [(x, len(x)) for x in (fr.returns, self.raises[-1], self.notes)]
        known, saved = [0], getattr(self, 'turns_known', None)
        self.loops.append(([], []))
        ends = []
        try:
            turns = 0
            while st.pc is not FALSE:
                turns += 1
                if turns > 120:
                    raise NotKnown()
                self.raises.append([])
                self.turns_known = known
                try:
                    fr.handler_types.append([STOP])
                    try:
                        v = self.gen_next(st, info, [], s)
                    finally:
                        fr.handler_types.pop()
                finally:
                    self.turns_known = saved
                    raised = self.raises.pop()
                for s2, e in raised:
                    for p, c in cases(e, s2.pc) if e.leaf is None else [(e.leaf, s2.pc)]:
                        x = s2.copy()
                        x.pc = c
                        if x.pc is FALSE or not feasible(x.pc):
                            continue
                        if isinstance(p, Obj) and p.oid.cls == 'exc:StopIteration':
                            ends.append(x)
                        else:
                            self.raises[-1].append((x, leaf(p)))
                if st.pc is FALSE:
                    break
                self.assign(st, s.target, v)
                self.exec_block(st, s.body)
                conts = self.loops[-1][1]
                if conts:
                    outs = [(c, NONE) for c in conts] + [(st.copy(), NONE)]
                    conts.clear()
                    self.join(st, outs)
        except NotKnown:
            st.assign(before)
            for x, n in marks:
                del x[n:]
            return False
        finally:
            broke, _ = self.loops.pop()
        self.join(st, [(x, NONE) for x in ends])
        if s.orelse and st.pc is not FALSE:
            self.exec_block(st, s.orelse)
        if broke:
            self.join(st, [(b, NONE) for b in broke] + [(st.copy(), NONE)])
        return True

    def for_parts(self, st, s, parts):
        """iterate over known elements and opaque splices in order"""
        broke = []
        self.loops.append(([], []))
        try:
            for k, v in parts:
                if st.pc is FALSE:
                    break
                if k == 'e':
                    self.assign(st, s.target, v)
                    self.exec_block(st, s.body)
                    conts = self.loops[-1][1]
                    if conts:
                        outs = [(c, NONE) for c in conts] + [(st.copy(), NONE)]
                        self.loops[-1][1].clear()
                        self.join(st, outs)
                else:
                    self.by_cases(st, v, lambda s2, p: self.for_symbolic(s2, s, p))
            broke = self.loops[-1][0]
        finally:
            self.loops.pop()
        if s.orelse and st.pc is not FALSE:
            self.exec_block(st, s.orelse)
        if broke:
            self.join(st, [(b, NONE) for b in broke] + [(st.copy(), NONE)])
        return NONE

    def domain(self, p):
        """(number of iterations payload-node, element function)"""
        if isinstance(p, App) and p.op == 'zip':
            ns = [len_p(a) for a in p.args]
            n = ns[0]
            if any(x is not n for x in ns):
                n = mapn(lambda ps: leaf(app_p('minlen', tuple(sorted(set(ps), key=lambda q: q.uid)), 'nat')), ns)
        elif isinstance(p, App) and p.op in ('items', 'values', 'keys'):
            n = leaf(app_p('len', (p.args[0],), 'nat'))
        elif isinstance(p, App) and p.op == 'range' and numconst(p.args[2]) != 1:
            n = leaf(app_p('len', (p,), 'nat'))
        else:
            n = len_p(p)
        return n

    def for_symbolic(self, st, s, p):
        n = self.domain(p)
        if n.leaf is None:
            return self.by_cases(st, n, lambda s2, d: self.for_domain(s2, s, p, d))
        return self.for_domain(st, s, p, n.leaf)

    def for_domain(self, st, s, p, dom):
        k = sym_p('i%d' % self.loopdepth, 'nat')
        self.loopdepth += 1
        try:
            self.summarise(st, s, p, dom, k)
        finally:
            self.loopdepth -= 1
        return NONE

    def run_body(self, st, s, elem):
        """one iteration; returns (state at the end or None, breaks, returns, raises)"""
        fr = self.frame()
        nret = len(fr.returns)
        # comprehension frames share the returns of nobody
        self.loops.append(([], []))
        self.raises.append([])
        try:
            if elem is not None:
                self.assign(st, s.target, elem)
            self.exec_block(st, s.body)
        finally:
            brk, cont = self.loops.pop()
            rais = self.raises.pop()
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        if cont:
            self.join(st, [(c, NONE) for c in cont] + [(st.copy(), NONE)])
        return brk, rets, rais

    def keyname(self, key):
        o, n = key
        if isinstance(o, Frame):
            return 'local:%s' % n
        if isinstance(o, ObjInfo):
            if o.symbolic or o.enum_name:
                return '%s.%s' % (o.name, n)
            return '%s.%s' % (getattr(o.cls, 'name', o.cls), n)
        return '%s.%s' % (o, n)

    def changed(self, before, after):
        out = []
        for key, v in after.heap.items():
            b = before.heap.get(key)
            if b is None:
                b = self.fallback(key)
                if b is None:
                    continue          # allocated inside the body
            if isinstance(key[0], Frame) and b is UNDEF:
                continue
            if v is not b and differs_under(v, b, after.pc):
                out.append(key)
        return out

    def summarise(self, st, s, p, dom, k):
        elem = self.item_p(st, p, k)
        mod = []
        heads = {}
        inner = None
        fr = self.frame()
        for rnd in range(8):
            h = st.copy()
            h.pc = TRUE
            h.fx = ()
            heads = {}
            for i, key in enumerate(mod):
                cur = self.get(st, *key)
                heads[key] = self.head_value(key, cur, i)
                h.heap[key] = heads[key]
            b0 = h.copy()
            brk, rets, rais = self.run_body(h, s, elem)
            new = [x for x in self.changed(b0, h) if x not in mod] if h.pc is not FALSE else []
            for bs in brk:
                pass
            if not new:
                inner = (h, brk, rets, rais)
                break
            mod += new
        if inner is None:
            self.unknown('loop does not stabilise', s)
            return
        h, brk, rets, rais = inner
        exits = [('break', b, None) for b in brk] + [('return', r, v) for r, v in rets] + [('raise', r, v) for r, v in rais]
        headsyms = {}
        for key, hv in heads.items():
            for q in leaves(hv):
                if isinstance(q, Tup):
                    for kk, n in q.parts:
                        if kk == 's':
                            headsyms[n.leaf] = key
                elif isinstance(q, Map):
                    headsyms[q.base] = key
                else:
                    headsyms[q] = key
        if exits:
            self.summarise_exits(st, s, p, dom, k, h, exits, mod, heads, headsyms, elem)
            return
        if h.pc is not TRUE:
            st.pc = st.pc      # paths lost inside the body (assume / dead): ignore
        self.close(st, s, dom, k, h, mod, heads, headsyms, h.fx)

    def head_value(self, key, cur, i):
        for q in leaves(cur):
            if isinstance(q, Tup) and q.kind in ('list', 'set', 'tuple'):
                return leaf(tup_p([('s', leaf(sym_p('head%d.%d' % (self.loopdepth, i), 'nn')))], q.kind))
            if isinstance(q, Map):
                return leaf(map_p([], sym_p('head%d.%d' % (self.loopdepth, i), 'nn')))
        if is_bool(cur):
            return var(atom('b', sym_p('head%d.%d' % (self.loopdepth, i), 'any')))
        kinds = [kind_of(q) for q in leaves(cur) if not isinstance(q, Undef)]
        kind = 'any'
        if kinds and all(x in NUMKINDS for x in kinds):
            kind = 'int' if all(x in ('int', 'nat') for x in kinds) else 'num'
            if kind == 'int' and self.numeric_float(key):
                kind = 'num'
        elif kinds and all(x == 'str' for x in kinds):
            kind = 'str'
        return leaf(sym_p('head%d.%d' % (self.loopdepth, i), kind))

    def numeric_float(self, key):
        return True

    def close(self, st, s, dom, k, h, mod, heads, headsyms, fx):
        """closed forms of the modified locations and effects"""
        D = leaf(dom)
        order = list(mod)
        done = {}
        hs = set(headsyms)
        for key in order:
            init = self.get(st, *key)
            hv = heads[key]
            post = h.heap.get(key, hv)
            r = self.closed_form(init, hv, post, D, dom, k, hs)
            if r is None:
                done[key] = None
            else:
                done[key] = r
        # leftovers: folds over the tuple of mutually dependent locations
        left = [key for key in order if done[key] is None]
        for key in left:
            init = self.get(st, *key)
            hv = heads[key]
            post = h.heap.get(key, hv)
            # rename own head to 'acc', others stay
            own = [q for q, kk in headsyms.items() if kk == key]
            m = {}
            if own:
                acc = sym_p('acc%d' % self.loopdepth, own[0].kind)
                m[own[0]] = leaf(acc)
            other = False
            body = subst(post, m, resimp) if m else post
            rest = {q for q, kk in headsyms.items() if kk != key}
            if depends(body, rest):
                other = True
            tag = 'fold?' if other else 'fold'
            lv = leaves(init)
            contk = [q.kind for q in lv if isinstance(q, Tup)]
            if other and self.loopdepth:
                names = {}
                for q, kk in headsyms.items():
                    if q in rest:
                        names[q] = leaf(sym_p('st.' + self.keyname(kk), q.kind))
                body = subst(body, names, resimp)
            body = bindk(k, body)[1][0]
            kind = kind_of(lv[0]) if lv and kind_of(lv[0]) in NUMKINDS + ('str',) else 'any'
            if kind in NUMKINDS:
                kind = 'num'
            # a range domain is part of the term
            t = mapn(lambda ps: leaf(app_p(tag, (dom, ps[0], body), kind)), [init])
            if contk:
                t = leaf(tup_p([('s', t)], contk[0]))
            elif any(isinstance(q, Map) for q in lv):
                t = map1(lambda q: leaf(map_p([], q)), t)
            elif is_bool(init):
                t = map1(lambda q: truth_p(q), t)
            done[key] = t
            if tag == 'fold?':
                self.note('mutually dependent loop variables', s)
        for key in order:
            st.heap[key] = done[key]
            if not isinstance(key[0], Frame):
                st.prov[key] = h.prov.get(key, ())
        # loop variables after the loop: unknown last values
        for key, v in h.heap.items():
            if isinstance(key[0], Frame) and key not in done and st.heap.get(key) is not v and key[0] in self.stack:
                if depends(v, {k} | hs):
                    last = leaf(padd(dom, num(1), -1))
                    st.heap[key] = subst(v, {k: last}, resimp) if not depends(v, hs) else leaf(app_p('lastval', (dom, v)))
                else:
                    st.heap[key] = v
            elif key not in st.heap and not isinstance(key[0], Frame):
                st.heap[key] = v       # objects allocated by the body (one generic instance)
        if fx:
            for e in fx:
                b, (gd, dt) = bindk(k, e.guard, tup(e.data))
                st.fx = st.fx + (Effect(st.pc, 'each', (D, leaf(app_p('fx', (e.kind,))), gd, dt), e.loc),)

    def closed_form(self, init, hv, post, D, dom, k, hs):
        others = hs
        if post is hv:
            return init
        # containers
        hp = hv.leaf
        if isinstance(hp, Tup):
            ok = True
            rests = {}
            for q in leaves(post):
                if not isinstance(q, Tup) or not q.parts or q.parts[0] != hp.parts[0]:
                    ok = False
                    break
                rests[q] = leaf(tup_p(q.parts[1:], 'tuple'))
            if ok:
                body = map1(lambda q: rests[q], post)
                if not depends(body, others):
                    c = self.collect(dom, k, body)
                    return map1(lambda q: leaf(tup_p(q.parts + tuple((kk, n) for kk, n in c.parts), q.kind)), init)
            return None
        if isinstance(hp, Map):
            lv = leaves(post)
            if all(isinstance(q, Map) and q.base is hp.base for q in lv):
                body = map1(lambda q: tup([tup([a, b]) for a, b, g in q.entries]), post)
                if not depends(body, others):
                    body = bindk(k, body)[1][0]
                    return map1(lambda q: leaf(map_p([], app_p('mapcollect', (dom, body) + ((q,) if q.entries or q.base else ()), 'nn'))), init)
            return None
        if hv.leaf is None:        # boolean head
            hb = hv
            # post = hv or c  /  hv and c
            a = cofactor(post, hb.atom, True)
            b = cofactor(post, hb.atom, False)
            if not depends(a, others) and not depends(b, others):
                if a is TRUE and is_bool(b):          # becomes true once b holds
                    ex = self.exists(dom, k, b)
                    return ite(ex, TRUE, init)
                if b is FALSE and is_bool(a):
                    ex = self.exists(dom, k, NOT(a))
                    return ite(ex, FALSE, init)
                if a is b:
                    ne = self.nonempty(dom)
                    return ite(ne, self.last(dom, k, a), init)
            return None
        # numbers: post = hv + d
        if all(maybe_num(q) for q in leaves(post)) and maybe_num(hp):
            d = map1(lambda q: leaf(padd(q, hp, -1)), post)
            if not depends(d, others):
                sm = self.sum_over(dom, k, d)
                if all(maybe_num(q) for q in leaves(init)):
                    return map2(lambda x, y: leaf(padd(x, y)), init, sm)
        # strings: post = hv & rest
        if kind_of(hp) == 'str':
            def rest(q):
                if q is hp:
                    return N('')
                if isinstance(q, Cat) and q.parts[0] is hp:
                    return leaf(cat_p(q.parts[1:]))
                return UNDEF
            d = map1(rest, post)
            if not any(isinstance(q, Undef) for q in leaves(d)) and not depends(d, others):
                c = self.collect(dom, k, map1(lambda q: tup([leaf(q)]), d))
                j = app_p('join', (const(''), tup_p(c.parts, 'list')), 'str')
                return map1(lambda q: leaf(cat_p([q, j])), init)
        # overwritten in every iteration
        if not depends(post, others):
            ne = self.nonempty(dom)
            return ite(ne, self.last(dom, k, post), init)
        # conditionally overwritten: last element satisfying the condition
        own = where(post, hp)
        if own is not FALSE and own is not TRUE and not depends(own, others):
            new = restrict(post, NOT(own))
            if not depends(new, others):
                cond = NOT(own)
                ex = self.exists(dom, k, cond)
                lastk = leaf(app_p('lastidx', (dom, bindk(k, cond)[1][0]), 'nat'))
                return ite(ex, subst(new, {k: lastk}, resimp), init)
            # max / min
        return self.minmax(init, hv, post, dom, k, others)

    def minmax(self, init, hv, post, dom, k, others):
        hp = hv.leaf
        lv = [q for q in leaves(post) if q is not hp]
        if len(lv) == 1 and post.leaf is None and not depends(leaf(lv[0]), others):
            e = lv[0]
            if maybe_num(e):
                gt = lt0(padd(hp, e, -1))      # hp < e
                lt = lt0(padd(e, hp, -1))
                ge = le0(padd(hp, e, -1))
                le = le0(padd(e, hp, -1))
                for op, conds in (('max', (gt, ge)), ('min', (lt, le))):
                    for c in conds:
                        if post is ite(c, leaf(e), hv):
                            en = bindk(k, leaf(e))[1][0]
                            return map1(lambda q: leaf(app_p('%sover' % op, (dom, en, q), 'num')), init)
        return None

    def nonempty(self, dom):
        return NOT(num_eq(dom))

    def last(self, dom, k, v):
        return subst(v, {k: leaf(padd(dom, num(1), -1))}, resimp)

    def canon_k(self, node, k):
        return node

    def exists(self, dom, k, cond):
        if cond is FALSE:
            return FALSE
        if not depends(cond, {k}):
            return AND(cond, self.nonempty(dom))
        b, (cond,) = bindk(k, cond)
        return var(atom('exists', dom, cond))

    def sum_over(self, dom, k, d):
        """sum of gated d(k) for k < dom"""
        if not depends(d, {k}):
            return map1(lambda q: leaf(pmul(q, dom)), d)
        if d.leaf is not None:
            out = num(0)
            for m, c in terms_of(d.leaf):
                ind = [(b, e) for b, e in m if not depends(leaf(b), {k})]
                dep = [(b, e) for b, e in m if depends(leaf(b), {k})]
                from .values import _mkpoly
                coef = _mkpoly({tuple(ind): c})
                if not dep:
                    out = padd(out, pmul(coef, dom))
                else:
                    body = _mkpoly({tuple(dep): 1})
                    kd = 'num'
                    if is_int(body):
                        kd = 'nat' if is_nat(body) else 'int'
                    b, (bn,) = bindk(k, leaf(body))
                    out = padd(out, pmul(coef, app_p('sum', (dom, bn), kd)))
            return leaf(out)
        # conditional: sum of ite; split conditions independent of k
        a = d.atom
        if not depends(var(a), {k}):
            return ite(var(a), self.sum_over(dom, k, d.hi), self.sum_over(dom, k, d.lo))
        lv = leaves(d)
        # linear decomposition over leaves with their conditions
        out = num(0)
        for q in sorted(lv, key=lambda x: x.uid):
            if numconst(q) == 0:
                continue
            c = where(d, q)
            b, (c, qn) = bindk(k, c, leaf(q))
            t = app_p('sumif', (dom, c, qn), 'nat' if is_nat(q) else 'int' if is_int(q) else 'num')
            kq = numconst(q)
            if kq is not None:
                t = pmul(q, app_p('count', (dom, c), 'nat'))
            out = padd(out, t)
        return leaf(out)

    def collect(self, dom, k, body):
        """Tup payload: concatenation of the gated tuples body(k)"""
        if body.leaf is not None and isinstance(body.leaf, Tup):
            parts = body.leaf.parts
            if not parts:
                return tup_p([], 'list')
            if len(parts) == 1 and parts[0][0] == 'e':
                e = parts[0][1]
                # identity: the sequence itself
                q = e.leaf
                if isinstance(q, App) and q.op == 'item' and q.args[1] is k and not depends(leaf(q.args[0]), {k}):
                    if len_p(q.args[0]).leaf is dom:
                        return tup_p([('s', leaf(q.args[0]))], 'list')
                b, (e,) = bindk(k, e)
                return tup_p([('s', leaf(app_p('collect1', (dom, b, e), 'nn')))], 'list')
        b, (body,) = bindk(k, body)
        return tup_p([('s', leaf(app_p('collect', (dom, b, body), 'nn')))], 'list')

    def summarise_exits(self, st, s, p, dom, k, h, exits, mod, heads, headsyms, elem):
        """loops left by break / return / raise"""
        g = FALSE
        for kind, es, v in exits:
            g = OR(g, es.pc)
        hs = set(headsyms)
        if depends(g, hs) or (k not in payloads_of(g) and False):
            self.havoc_loop(st, s, dom, k, h, exits, mod, heads, headsyms, g)
            return
        ex = self.exists(dom, k, g)
        first = leaf(app_p('firstidx', (dom, bindk(k, g)[1][0]), 'nat')) if depends(g, {k}) else N(0)
        base = st.copy()
        fr = self.frame()
        # state when leaving through the exit: earlier iterations did the loop
        # updates, the leaving one did its part
        outs = []
        for kind, es, v in exits:
            e2 = base.copy()
            e2.pc = AND(st.pc, AND(ex, subst(es.pc, {k: first}, resimp) if len(exits) > 1 else TRUE))
            if e2.pc is FALSE:
                continue
            changed = self.changed(base, es)
            sub = {k: first}
            ok = True
            if mod:
                # values of the modified locations before the leaving iteration
                tmp = base.copy()
                self.close(tmp, s, first.leaf, k, h, mod, heads, headsyms, ())
                for key in mod:
                    hv = heads[key]
                    for q, kk in headsyms.items():
                        if kk == key:
                            cur = tmp.heap[key]
                            lf = cur.leaf
                            if isinstance(hv.leaf, Tup) and isinstance(lf, Tup) and len(lf.parts) == 1 and lf.parts[0][0] == 's':
                                sub[q] = lf.parts[0][1]
                            elif isinstance(hv.leaf, Tup):
                                sub[q] = cur
                            elif isinstance(hv.leaf, Map):
                                sub[q] = map1(lambda m: leaf(m.base) if isinstance(m, Map) and m.base is not None and not m.entries else leaf(m), cur)
                            elif hv.leaf is None:
                                pass
                            else:
                                sub[q] = cur
            for key, val in es.heap.items():
                b = base.heap.get(key)
                if b is val:
                    continue
                e2.heap[key] = subst(val, sub, resimp)
                if isinstance(val, Node) and isinstance(key[0], ObjInfo) and key in es.prov:
                    e2.prov[key] = es.prov[key]
            for e in es.fx:
                e2.fx = e2.fx + (Effect(AND(e2.pc, subst(e.guard, sub, resimp)) if e.guard is not es.pc else e2.pc, e.kind, tuple(subst(d, sub, resimp) for d in e.data), e.loc),)
            if v is not None:
                v = subst(v, sub, resimp)
            outs.append((kind, e2, v))
        # normal end
        st.pc = AND(st.pc, NOT(ex))
        if st.pc is not FALSE and h.pc is not FALSE:
            h2 = h
            # under "no exit" the guard g is false in every iteration
            for key in mod:
                h2.heap[key] = restrict(h2.heap[key], NOT(g)) if NOT(g) is not FALSE else h2.heap[key]
            self.close(st, s, dom, k, h2, mod, heads, headsyms, h.fx)
        for kind, e2, v in outs:
            if kind == 'break':
                self.loops[-1][0].append(e2)
            elif kind == 'return':
                fr.returns.append((e2, v))
            else:
                self.raises[-1].append((e2, v))

    def havoc_loop(self, st, s, dom, k, h, exits, mod, heads, headsyms, g):
        self.note('loop exit depends on loop-carried state', s)
        self.counter += 1
        tag = self.counter
        outs = []
        fr = self.frame()
        left = var(atom('exit?', tag, show(g)[:80]))
        for j, (kind, es, v) in enumerate(exits):
            e2 = es.copy()
            e2.pc = AND(st.pc, left if len(exits) == 1 else AND(left, var(atom('exit?%d' % j, tag))))
            e2.fx = st.fx + es.fx
            ren = {q: leaf(app_p('?loop', (tag, self.keyname(kk)), q.kind)) for q, kk in headsyms.items()}
            for key in list(e2.heap):
                if isinstance(key[0], Frame) and key[0] not in self.stack:
                    continue
                if st.heap.get(key) is not e2.heap[key]:
                    e2.heap[key] = subst(e2.heap[key], ren)
            if v is not None:
                v = subst(v, ren)
            outs.append((kind, e2, v))
        st.pc = AND(st.pc, NOT(left))
        for key in mod:
            kind = kind_of(heads[key].leaf) if heads[key].leaf is not None else 'any'
            nv = leaf(app_p('?loop', (tag, self.keyname(key)), kind))
            if isinstance(heads[key].leaf, Tup):
                nv = leaf(tup_p([('s', nv)], heads[key].leaf.kind))
            elif isinstance(heads[key].leaf, Map):
                nv = leaf(map_p([], nv.leaf))
            elif heads[key].leaf is None:
                nv = map1(truth_p, nv)
            st.heap[key] = nv
        for e in h.fx:
            st.fx = st.fx + (Effect(st.pc, 'each', (leaf(dom) if dom is not None else N('while'), leaf(app_p('fx', (e.kind,))), e.guard, tup(e.data)), e.loc),)
        for kind, e2, v in outs:
            if kind == 'break':
                self.loops[-1][0].append(e2)
            elif kind == 'return':
                fr.returns.append((e2, v))
            else:
                self.raises[-1].append((e2, v))

    # -- while ------------------------------------------------------------
    def x_While(self, st, s):
        hook = getattr(self, 'while_hook', None)
        if hook is not None:
            r = hook(self, st, s)
            if r:
                return
        self.loops.append(([], []))
        try:
            n = 0
            while st.pc is not FALSE:
                probe = st.copy()
                c = self.truth(probe, self.eval(probe, s.test))
                d = implied(probe.pc, c)
                if d is None and n < getattr(self, 'while_bound', 0):
                    # bounded exploration: leave here under `not c`
                    out = probe.copy()
                    out.pc = AND(probe.pc, NOT(c))
                    self.loops[-1][0].append(out)
                    probe.pc = AND(probe.pc, c)
                    d = TRUE
                if d is None or n > 260:
                    self.while_symbolic(st, s)
                    break
                st.assign(probe)
                if d is FALSE:
                    if s.orelse:
                        self.exec_block(st, s.orelse)
                    break
                before = st.copy()
                nb, nr = len(self.loops[-1][0]), len(self.frame().returns)
                self.exec_block(st, s.body)
                conts = self.loops[-1][1]
                if conts:
                    outs = [(c2, NONE) for c2 in conts] + [(st.copy(), NONE)]
                    self.loops[-1][1].clear()
                    self.join(st, outs)
                n += 1
                if isinstance(s.test, ast.Constant) and n >= getattr(self, 'while_bound', 0) and (len(self.loops[-1][0]) > nb or len(self.frame().returns) > nr) and n > 3:
                    # `while True` whose exit is symbolic
                    self.while_symbolic(st, s)
                    break
        finally:
            brk, _ = self.loops.pop()
        if brk:
            self.join(st, [(b, NONE) for b in brk] + [(st.copy(), NONE)])

    def while_symbolic(self, st, s):
        """general while: head locations are opaque; the iteration is recorded
        as one effect (guard to go on, effects and updates of an iteration)"""
        counted = self.counted_while(st, s)
        if counted:
            return
        self.loopdepth += 1
        mod = []
        inner = None
        for rnd in range(8):
            h = st.copy()
            h.pc = TRUE
            h.fx = ()
            heads = {}
            for i, key in enumerate(mod):
                heads[key] = self.head_value(key, self.get(st, *key), i)
                h.heap[key] = heads[key]
            b0 = h.copy()
            self.raises.append([])
            c = self.truth(h, self.eval(h, s.test))
            r0 = self.raises.pop()
            ex = h.copy()
            ex.pc = AND(h.pc, NOT(c))
            h.pc = AND(h.pc, c)
            brk, rets, rais = self.run_body(h, s, None)
            new = [x for x in self.changed(b0, h) if x not in mod]
            if not new:
                inner = (h, brk, rets, rais + r0, ex, c)
                break
            mod += new
        self.loopdepth -= 1
        if inner is None:
            self.unknown('while loop does not stabilise', s)
            return
        h, brk, rets, rais, ex, c = inner
        headsyms = {}
        for key, hv in heads.items():
            for q in leaves(hv):
                if isinstance(q, Tup):
                    headsyms[q.parts[0][1].leaf] = key
                elif isinstance(q, Map):
                    headsyms[q.base] = key
                else:
                    headsyms[q] = key
            if hv.leaf is None:
                headsyms[hv.atom.args[0]] = key
        self.counter += 1
        tag = self.counter
        ren = {q: leaf(app_p('?loop', (tag, self.keyname(kk)), q.kind)) for q, kk in headsyms.items()}
        exits = [('break', b, None) for b in brk] + [('return', r, v) for r, v in rets] + [('raise', r, v) for r, v in rais]
        fr = self.frame()
        pc0 = st.pc
        fx0 = st.fx + tuple(Effect(pc0, 'each', (N('while'), leaf(app_p('fx', (e.kind,))), subst(e.guard, ren), tup([subst(d, ren) for d in e.data])), e.loc) for e in h.fx)
        outs = []
        for kind, es, v in [('exit', ex, None)] + exits:
            if es.pc is FALSE:
                continue
            e2 = es.copy()
            for key in list(e2.heap):
                if st.heap.get(key) is not e2.heap[key]:
                    e2.heap[key] = subst(e2.heap[key], ren)
            e2.pc = AND(pc0, subst(es.pc, ren))
            e2.fx = fx0 + tuple(Effect(AND(pc0, subst(e.guard, ren)), e.kind, tuple(subst(d, ren) for d in e.data), e.loc) for e in es.fx)
            if v is not None:
                v = subst(v, ren)
            outs.append((kind, e2, v))
        ends = []
        for kind, e2, v in outs:
            if kind == 'exit':
                ends.append((e2, NONE))
            elif kind == 'break':
                self.loops[-1][0].append(e2)
            elif kind == 'return':
                fr.returns.append((e2, v))
            else:
                self.raises[-1].append((e2, v))
        if not outs and not self.loopdepth and not self.speculative:
            self.diverged.append(st.copy())      # no iteration leaves the loop
        if ends:
            self.join(st, ends)
        else:
            st.pc = FALSE
        self.note('general while loop', s)

    def counted_while(self, st, s):
        """`i = a; while i < n: ...; i += 1` is the same as a for loop"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq))
                and isinstance(t.left, ast.Name)):
            return False
        name = t.left.id
        if not s.body or s.orelse:
            return False
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == name and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return False
        for b in s.body[:-1]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                    return False
                if isinstance(x, ast.Continue):
                    return False
        start = self.load_name(st, name, t)
        end = self.eval(st, t.comparators[0])
        if isinstance(t.ops[0], ast.LtE):
            end = self.binop(st, '+', end, N(1))
        f = ast.copy_location(ast.For(target=ast.copy_location(ast.Name(id=name, ctx=ast.Store()), s),
                                      iter=s.test, body=s.body[:-1] or [ast.copy_location(ast.Pass(), s)], orelse=[]), s)
        ast.fix_missing_locations(f)
        rng = mapn(lambda ps: leaf(app_p('range', (ps[0], ps[1], num(1)), 'nn')), [start, end])
        seq = self.as_seq(st, rng, 'tuple')
        self.by_cases(st, seq, lambda s2, p: self.for_parts(s2, f, p.parts))
        if st.pc is not FALSE:
            cmp = self.compare(st, '<', start, end)
            self.store_name(st, name, ite(cmp, end, start))
        return True


def is_bool(n):
    return all(q is TRUE_P or q is FALSE_P for q in leaves(n))


def cofactor(n, a, v):
    memo = {}

    def go(x):
        if x.leaf is not None or x.atom.idx > a.idx:
            return x
        r = memo.get(x.id)
        if r is None:
            if x.atom is a:
                r = x.hi if v else x.lo
            else:
                from .values import _node
                r = _node(x.atom, go(x.hi), go(x.lo))
            memo[x.id] = r
        return r
    return go(n)


def differs_under(a, b, pc):
    if a is b:
        return False
    if pc is FALSE:
        return False
    return restrict(a, pc) is not restrict(b, pc) and masked(a, pc) is not masked(b, pc)


def masked(v, pc):
    return ite(pc, v, UNDEF)
