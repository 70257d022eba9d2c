"""Generator functions (mixin): they run up to the next yield, and go on from there.

Bodies whose yields stand in plain blocks, ifs and loops are resumed; others run eagerly."""
import ast
from .values import *
from .state import *
from .program import *

RESUMES = 70
JUMPS = (ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.Return)


def own_walk(s):
    """nodes of the statement without nested functions"""
    yield s
    for c in ast.iter_child_nodes(s):
        if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            yield from own_walk(c)


def has_own_yield(s):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_walk(s))


def jumps_out(s, depth=0):
    """does the statement hold a return, or a jump of an outer loop?"""
    if isinstance(s, ast.Return):
        return True
    if isinstance(s, (ast.Break, ast.Continue)):
        return depth == 0
    inside = depth + isinstance(s, (ast.For, ast.While))
    return any(jumps_out(c, inside) for c in ast.iter_child_nodes(s)
               if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)))


def plain_block(stmts):
    for s in stmts:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            if s.value.value is not None and has_own_yield(s.value.value):
                return False
        elif isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            pass
        elif not has_own_yield(s) and not jumps_out(s):
            pass
        elif isinstance(s, ast.If):
            if has_own_yield(s.test) or not plain_block(s.body) or not plain_block(s.orelse):
                return False
        elif isinstance(s, ast.While):
            if has_own_yield(s.test) or s.orelse or not plain_block(s.body):
                return False
        elif isinstance(s, ast.For):
            if has_own_yield(s.iter) or s.orelse or not plain_block(s.body):
                return False
        else:
            return False
    return True


def resumable(fn):
    r = getattr(fn.node, '_resumable', None)
    if r is None:
        r = fn.node._resumable = plain_block(fn.node.body)
    return r


class Gens:
    def make_gen(self, st, fn, fr):
        info = ObjInfo('gen:%s#%d' % (fn.name, ObjInfo.count), 'gen')
        info.frame = fr
        st.heap[(info, 'at')] = N('start')
        return leaf(new_obj_p(info))

    def in_gen(self, st, info, f):
        fr = info.frame
        self.stack.append(fr)
        self.depth += 1
        saved_loops, self.loops = self.loops, []
        saved_ld = self.loopdepth
        saved_jumps, self.gjumps = getattr(self, 'gjumps', None), []
        coll = []
        self.raises.append(coll)
        try:
            return f(fr)
        finally:
            self.raises.pop()
            self.raises[-1] += [(s1, self.not_stop(s1, e)) for s1, e in coll]
            self.stack.pop()
            self.depth -= 1
            self.loops = saved_loops
            self.loopdepth = saved_ld
            self.gjumps = saved_jumps

    def not_stop(self, st, exc):
        """a StopIteration does not leave a generator as such"""
        def f(p):
            if isinstance(p, Obj) and p.oid.cls == 'exc:StopIteration':
                info = ObjInfo('RuntimeError#', 'exc:RuntimeError')
                st.heap[(info, 'args')] = tup([N('generator raised StopIteration')])
                st.heap[(info, '@loc')] = st.heap.get((p.oid, '@loc'), N(''))
                return leaf(new_obj_p(info))
            return leaf(p)
        return map1(f, exc)

    def is_lazy(self, st, info):
        return info.cls == 'gen' and (info, 'at') in st.heap

    def gen_next(self, st, info, args, node):
        """the next value; StopIteration or the given default at the end"""
        def at(s, p):
            where = p.value
            if hasattr(info, 'late'):
                self.force(s, info)
                if s.pc is FALSE:
                    return UNDEF
                where = 'list'
            if where == 'list':
                return self.next_of_list(s, info, args, node)
            if where == 'running':
                return self.raise_builtin(s, 'ValueError', 'generator already executing', node=node)
            outs, values = [], []
            if where == 'end':
                outs.append((s.copy(), 'end', '', None))
            else:
                path = () if where == 'start' else tuple(where.split('.'))
                s.heap[(info, 'at')] = N('end')
                self.in_gen(s, info, lambda fr: self.g_block(s, fr.fn.node.body, path, (), outs))
                if s.pc is not FALSE:
                    outs.append((s.copy(), 'end', '', None))
            for o, kind, w, v in outs:
                if kind == 'yield':
                    o.heap[(info, 'at')] = N(w)
                    values.append((o, v))
                else:
                    o.heap[(info, 'at')] = N('end')
                    if len(args) > 1:
                        values.append((o, args[1][1]))
                    else:
                        self.raise_builtin(o, 'StopIteration', '', node=node)
            return self.join(s, values)
        return self.by_cases(st, self.get(st, info, 'at'), at)

    def force(self, st, info):
        """the remaining values, all at once"""
        if not self.is_lazy(st, info):
            return

        def at(s, p):
            where = p.value
            if where == 'list':
                return NONE
            if where == 'running':
                return self.raise_builtin(s, 'ValueError', 'generator already executing')
            if hasattr(info, 'late'):
                s.heap[(info, 'at')] = N('running')
                s.heap[(info, '@')] = self.in_gen(s, info, lambda fr: self.run_late(s, info))
                s.heap[(info, 'pos')] = N(0)
                s.heap[(info, 'at')] = N('list')
                return NONE
            ylist = self.new_container(s, 'list', leaf(tup_p([], 'list'))).leaf.oid
            outs = []

            def run(fr):
                fr.ylist = ylist
                try:
                    if where == 'start':
                        self.exec_block(s, fr.fn.node.body)
                        r = list(fr.returns)
                        fr.returns.clear()
                        return r
                    self.g_block(s, fr.fn.node.body, tuple(where.split('.')), (), outs, True)
                    return [(o, NONE) for o, k, w, v in outs]
                finally:
                    del fr.ylist
            if where != 'end':
                ends = self.in_gen(s, info, run)
                if s.pc is not FALSE:
                    ends.append((s.copy(), NONE))
                self.join(s, ends)
            if s.pc is not FALSE:
                s.heap[(info, '@')] = s.heap[(ylist, '@')]
                s.heap[(info, 'pos')] = N(0)
                s.heap[(info, 'at')] = N('list')
            return NONE
        self.by_cases(st, self.get(st, info, 'at'), at)

    def force_in(self, st, v):
        for p in leaves(v):
            if isinstance(p, Obj) and self.is_lazy(st, p.oid):
                self.force(st, p.oid)

    # -- running in steps --------------------------------------------------
    def g_block(self, st, stmts, path, pre, outs, collect=False):
        first = 0
        if path:
            first = int(path[0])
            if len(path) > 1:
                self.g_go_on(st, stmts[first], path[1:], pre + path[:1], outs, collect)
            first += 1
        for j in range(first, len(stmts)):
            if st.pc is FALSE:
                return
            self.g_stmt(st, stmts[j], pre + (str(j),), outs, collect)

    def g_stmt(self, st, s, pre, outs, collect):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            if collect:
                self.exec_stmt(st, s)
                return
            self.cur = (self.frame().module.path, s.lineno, '')
            v = NONE if s.value.value is None else self.eval(st, s.value.value)
            if st.pc is not FALSE:
                outs.append((st.copy(), 'yield', '.'.join(pre), v))
            st.pc = FALSE
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.eval(st, s.value)
            if st.pc is not FALSE:
                outs.append((st.copy(), 'end', '', None))
            st.pc = FALSE
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.gjumps[-1][isinstance(s, ast.Continue)].append(st.copy())
            st.pc = FALSE
        elif not has_own_yield(s) and not jumps_out(s):
            self.exec_stmt(st, s)
        elif isinstance(s, ast.If):
            c = self.truth(st, self.eval(st, s.test))
            if st.pc is FALSE:
                return
            a, b = st.copy(), st.copy()
            a.pc = AND(st.pc, c)
            b.pc = AND(st.pc, NOT(c))
            for x, body, mark in ((a, s.body, 'b'), (b, s.orelse, 'e')):
                if x.pc is not FALSE and feasible(x.pc):
                    self.g_block(x, body, (), pre + (mark,), outs, collect)
                else:
                    x.pc = FALSE
            self.join(st, [(a, NONE), (b, NONE)])
        elif isinstance(s, ast.While):
            self.g_loop(st, s, (), pre, outs, collect)
        elif isinstance(s, ast.For):
            fr = self.frame()
            it = self.eval(st, s.iter)
            if st.pc is FALSE:
                return
            key = 'for:' + '.'.join(pre)
            r = it.leaf
            if isinstance(r, App) and r.op == 'range':
                lo, hi, step = [leaf(x) for x in r.args]
            else:
                seq = self.as_seq(st, it, 'list')
                st.heap[(fr, key + ':seq')] = seq
                lo, hi, step = N(0), map1(len_p, seq), N(1)
            st.heap[(fr, key + ':cur')] = lo
            st.heap[(fr, key + ':stop')] = hi
            st.heap[(fr, key + ':step')] = step
            self.g_loop(st, s, (), pre, outs, collect)
        else:
            self.exec_stmt(st, s)

    def g_go_on(self, st, s, path, pre, outs, collect):
        body = s.orelse if path[0] == 'e' else s.body
        if isinstance(s, ast.If):
            self.g_block(st, body, path[1:], pre + path[:1], outs, collect)
        else:
            self.g_loop(st, s, path[1:], pre, outs, collect)

    def g_head(self, st, s, pre):
        """the condition of another turn, as a guard; advances iteration"""
        if isinstance(s, ast.While):
            return self.truth(st, self.eval(st, s.test)), None
        fr = self.frame()
        key = 'for:' + '.'.join(pre)
        cur, stop, step = [self.get(st, fr, key + x) for x in (':cur', ':stop', ':step')]
        up = self.compare(st, '>', step, N(0))
        up = implied(st.pc, up)
        if up is FALSE:
            more = self.compare(st, '>', cur, stop)
        else:
            if up is not TRUE:
                self.unknown('range of unknown direction', s)
            more = self.compare(st, '<', cur, stop)

        def enter(x):
            v = cur
            if (fr, key + ':seq') in x.heap:
                v = self.seq_get(x, x.heap[(fr, key + ':seq')], cur, s)
            x.heap[(fr, key + ':cur')] = map2(lambda a, b: leaf(padd(a, b)), cur, step)
            self.assign(x, s.target, v)
        return more, enter

    def g_loop(self, st, s, path, pre, outs, collect):
        exits = []
        turns = 0
        while True:
            if not path:
                turns += 1
                if turns > (UNROLLED if collect else RESUMES):
                    self.unknown('long loop in a generator', s)
                    st.pc = FALSE
                    break
                more, enter = self.g_head(st, s, pre)
                if st.pc is FALSE:
                    break
                known = getattr(self, 'turns_known', None)
                if known is not None and not collect and implied(st.pc, more) is None:
                    known[0] += 1
                    if enter is not None or known[0] > getattr(self, 'while_bound', 0):
                        raise NotKnown()
                x = st.copy()
                x.pc = AND(st.pc, NOT(more))
                if x.pc is not FALSE and feasible(x.pc):
                    exits.append(x)
                st.pc = AND(st.pc, more)
                if st.pc is FALSE or not feasible(st.pc):
                    st.pc = FALSE
                    break
                if enter is not None:
                    enter(st)
            self.gjumps.append(([], []))
            self.g_block(st, s.body, path, pre + ('b',), outs, collect)
            path = ()
            breaks, again = self.gjumps.pop()
            exits += breaks
            if again:
                self.join(st, [(st.copy(), NONE)] + [(x, NONE) for x in again])
            if st.pc is FALSE:
                break
        self.join(st, [(x, NONE) for x in exits])


UNROLLED = 400
