"""Rules as pairs of abstract programs.

A rule file (spec/<ID>.py, never executed, only parsed) holds classes derived
from Case:

    setup(*params)   builds the abstract inputs (symbolic values, objects)
    actual(x)        the repository code under the rule
    expected(x)      what the property says it does
    observe(x, r)    (optional) further values that must agree afterwards

Both sides are evaluated over the same abstract inputs by the gated-value
interpreter; result, raised exceptions, effects and observed values must be
the same value on every feasible path.
"""
import os
import time
from .machine import Machine
from .program import *
from .values import *
from .state import *
from .loops import payloads_of, resimp, depends
from .interp import exc_sub

TAINT = {'?unknown', '?loop', 'fold?', 'lastval'}
SILENT = {'draw', 'heappush', 'heappop', 'classattr', 'extattr', 'next', 'superinit', 'log'}
IO = {'ext', 'print'}


def plain_print(q):
    return isinstance(q, App) and q.op == "fx:print" and len(q.args) == 1 and kind_of(q.args[0]) == "str"


class Finding:
    def __init__(self, case, what, locs, path, got, want):
        self.case, self.what, self.locs, self.path, self.got, self.want = case, what, locs, path, got, want

    def key(self):
        return '%s/%s' % (self.case, self.what)


class SpecError(Exception):
    pass


def find_root():
    return os.environ.get('VERIF_REPO', '/repo')


class Runner:
    def __init__(self, root=None, here=None):
        self.root = root or find_root()
        self.here = here or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.m = Machine(Program(self.root))
        install(self.m)
        for f in sorted(os.listdir(os.path.join(self.here, 'spec'))):
            if f.endswith('.py'):
                n = 'spec.' + f[:-3]
                p = os.path.join(self.here, 'spec', f)
                self.m.prog.index[n] = (p, False)
        self.m.prog.index['spec'] = (None, True)
        self.findings = []
        self.undecided = []
        self.cases = []           # (name, obligations)
        self.obligations = 0
        self.leafpairs = 0
        self.monitor = False
        self.extra_coverage = {}
        self.shared = {}          # (shared owner, attribute) -> (locations, rules)

    # -- loading ----------------------------------------------------------
    def load(self, pid):
        m = self.m
        name = 'spec.' + pid
        with open(os.path.join(self.here, 'spec', pid + '.py'), encoding='utf-8') as f:
            for line in f:
                if line.startswith('# model:'):
                    for lib in line[8:].split():
                        p = os.path.join(self.here, 'lib', lib.replace('.', os.sep) + '.py')
                        if not os.path.exists(p):
                            m.prog.index[lib] = (None, True)
                        else:
                            m.prog.index[lib] = (p, False)
                        m.model_modules.add(lib)
        m.ensure_module(name)
        for n in sorted([k for k in list(m.modstate) if isinstance(k, str) and ':' not in k], key=lambda n: (not n.startswith('pysim'), n == name)):
            bad = m.modstate.get(n + ':raises') if isinstance(n, str) else None
            for s, e in bad or []:
                info = e.leaf.oid
                args = s.heap.get((info, 'args'))
                msg = '%s: %s' % (info.cls if isinstance(info.cls, str) else info.cls.name, show(args) if args else '')
                loc = s.heap.get((info, '@loc'))
                text = '%s: %s %s' % (n, msg, show(loc) if loc else '')
                if n.startswith('pysim') and s.pc is TRUE and (info, '@gap') not in s.heap and not msg.startswith('exc:ModuleNotFoundError'):
                    raise Unloadable(text, [show(loc)] if loc else [])
                raise AnchorError(text)
        base = m.lookup('spec.base', 'Case').leaf.cls
        out = []
        for k, v in list(m.world.heap.items()):
            if k[0] == ('m', name) and isinstance(v.leaf, Cls) and v.leaf.cls.is_sub(base) and v.leaf.cls is not base:
                if v.leaf.cls.module.name == name and not v.leaf.cls.name.startswith('_'):
                    out.append(v.leaf.cls)
        return sorted(out, key=lambda c: c.node.lineno)

    def attr(self, cls, name, default=None):
        v = self.m.class_attr(self.m.world, cls, name)
        if v is None:
            return default
        p = v.leaf
        if isinstance(p, Const):
            return p.value
        k = numconst(p)
        if k is not None:
            return int(k) if k.denominator == 1 else float(k)
        return v

    def params(self, cls):
        out = []
        for attr in ('params',) + (('deep',) if getattr(self, 'tier', '') == 'thorough' else ()):
            v = self.m.class_attr(self.m.world, cls, attr)
            if v is None:
                continue
            for k, n in self.m.as_seq(self.m.world.copy(), v, 'list').leaf.parts:
                if isinstance(n.leaf, Tup):
                    out.append(tuple(x for _, x in n.leaf.parts))
                else:
                    out.append((n,))
        return out or [()]

    def unloadable(self, e):
        if not any(f.case == 'load' and f.got == str(e) for f in self.findings):
            self.findings.append(Finding('load', 'import', e.locs, 'always', str(e), 'the module can be imported'))

    def run(self, pid, only=None):
        try:
            found = self.load(pid)
        except Unloadable as e:
            self.unloadable(e)
            return
        except AnchorError as e:
            self.undecided.append(('load', 'anchor lost: %s' % e))
            return
        for cls in found:
            for ps in self.params(cls):
                name = cls.name + ('' if not ps else '[%s]' % ', '.join(show(p) for p in ps))
                if not only or only in name:
                    self.run_case(cls, ps)

    def call(self, st, cls, name, args):
        f = self.m.class_attr(st, cls, name)
        if f is None:
            raise SpecError('%s has no %s' % (cls.name, name))
        p = f.leaf
        if isinstance(p, App) and p.op == '@static':
            p = p.args[0]
        return self.m.call_payload(st, p, [('e', a) for a in args], {}, None)

    # -- one case ---------------------------------------------------------
    def run_case(self, cls, ps):
        m = self.m
        name = cls.name + ('' if not ps else '[%s]' % ', '.join(show(p) for p in ps))
        self.cur = name
        st = m.world.copy()
        st.pc, st.fx = TRUE, ()
        m.raises, m.loops, m.depth, m.loopdepth = [[]], [], 0, 0
        m.stack = [Frame(None, cls.module)]
        m.notes = []
        m.while_bound = self.attr(cls, 'unroll', 0)
        m.case_opts = {k: self.attr(cls, k) for k in ('io',)}
        m.clock = None
        m.stubs = {}
        self.logs = self.attr(cls, 'logs', False)
        n0 = self.obligations
        now = time.time()
        Budget.until = min(getattr(self, 'deadline', now + 3600), now + (150 if getattr(self, 'tier', '') != 'thorough' else 500))
        try:
            Budget.check()
            if m.class_attr(st, cls, 'setup') is not None:
                x = self.call(st, cls, 'setup', ps)
            else:
                x = tup(list(ps))
            if m.raises[0]:
                s, e = m.raises[0][0]
                if st.pc is FALSE and not m.notes and len(m.raises[0]) == 1 and isinstance(e.leaf, Obj):
                    # there is no way to prepare the rule: the code fails in it, whatever the inputs
                    kind, loc = self.exc_name(s, e.leaf)
                    if loc and os.path.join(self.root, 'pysim') in loc and (e.leaf.oid, '@gap') not in s.heap:
                        args = s.heap.get((e.leaf.oid, 'args'))
                        self.findings.append(Finding(name, 'preparation', [loc], 'always',
                                                     'raises(%s) %s' % (kind, show(args) if args is not None else ''), 'no error'))
                        return
                self.spec_raise(name, 'setup', s, e)
                return
            if st.pc is FALSE:
                raise SpecError('setup of %s is infeasible' % name)
            mark = ObjInfo.count
            pc0 = st.pc
            st.fx = ()
            m.notes = []
            seen, m.visited_fns = m.visited_fns, {}
            try:
                A = self.side(cls, 'actual', st.copy(), x, name)
            finally:
                self.case_fns = [k for k in m.visited_fns if k[0].startswith('pysim')]
                for k, n in m.visited_fns.items():
                    seen[k] = seen.get(k, 0) + n
                m.visited_fns = seen
            notesA = list(m.notes)
            m.notes = []
            E = self.side(cls, 'expected', st.copy(), x, name)
            if A is None or E is None:
                return
            self.compare(cls, name, pc0, mark, A, E, notesA + m.notes)
        except OutOfBudget as e:
            self.undecided.append((name, 'the %s of the analysis is used up' % e))
            if str(e) == 'memory':
                self.deadline = 0
        except RecursionError:
            self.undecided.append((name, 'recursion limit'))
        except Unsupported as e:
            self.undecided.append((name, str(e)))
        except Unloadable as e:
            self.unloadable(e)
        except AnchorError as e:
            self.undecided.append((name, 'anchor lost: %s' % e))
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.undecided.append((name, 'the analysis failed: %s %s (%s:%d)' % (type(e).__name__, e, tb.filename.rsplit('/', 1)[-1], tb.lineno)))
        finally:
            Budget.until = None
            self.cases.append((name, self.obligations - n0))

    def on_none(self, st, exc):
        """is it an attribute of None that was asked for?"""
        a = st.heap.get((exc.oid, 'args')) if isinstance(exc, Obj) else None
        return a is not None and show(a).lstrip("(['").startswith('None has no attribute')

    def spec_raise(self, name, part, s, e):
        info = e.leaf.oid if isinstance(e.leaf, Obj) else None
        kind = info.cls if info and isinstance(info.cls, str) else getattr(getattr(info, 'cls', None), 'name', '?')
        args = s.heap.get((info, 'args'))
        loc = s.heap.get((info, '@loc'))
        self.undecided.append((name, '%s of the rule raises %s %s at %s' % (part, kind, show(args) if args else '', show(loc) if loc else '?')))

    def side(self, cls, part, st, x, name):
        m = self.m
        m.raises = [[]]
        m.stack = [Frame(None, cls.module)]
        m.loops, m.depth, m.loopdepth, m.counter_reset = [], 0, 0, 0
        m.diverged = []
        st0 = st.copy() if self.monitor else None
        v = self.call(st, cls, part, [x])
        outs = []
        if st.pc is not FALSE:
            outs.append((st, app('returns', [v])))
        locs = {}
        for es, exc in m.raises[0]:
            if es.pc is FALSE or not feasible(es.pc):
                continue
            for p, g in cases(exc, es.pc):
                cn, loc = self.exc_name(es, p)
                if (isinstance(p, Obj) and (p.oid, '@gap') in es.heap or
                        loc and 'spec/' in loc and cn == 'AttributeError' and part == 'actual' and not self.on_none(es, p)):
                    self.spec_raise(name, part, es, leaf(p))
                    return None
                s2 = es.copy()
                s2.pc = g
                outs.append((s2, leaf(app_p('raises', (cn,)))))
                if loc:
                    locs.setdefault(cn, set()).add(loc)
        for s in m.diverged:
            if s.pc is not FALSE and feasible(s.pc):
                outs.append((s, leaf(app_p('never ends', ()))))
        if not outs:
            self.undecided.append((name, '%s has no outcome' % part))
            return None
        if self.monitor and part == 'actual':
            for s, o in outs:
                self.shared_writes(st0, s, name)
        fin = outs[0][0].copy()
        pc = FALSE
        res = m.join(fin, [(s.copy(), o) for s, o in outs])
        obs = []
        if m.class_attr(fin, cls, 'observe') is not None:
            m.raises = [[]]
            r = map1(lambda p: leaf(p.args[0]) if isinstance(p, App) and p.op == 'returns' and isinstance(p.args[0], Payload) else NONE, res)
            s2 = fin.copy()
            ov = self.call(s2, cls, 'observe', [x, r])
            if m.raises[0]:
                s, e = m.raises[0][0]
                self.spec_raise(name, 'observe (%s)' % part, s, e)
                return None
            if s2.pc is not FALSE:
                fin.heap.update(s2.heap)
                obs = [ov]
        return fin, res, obs, locs

    # -- writes to shared state -------------------------------------------
    def shared_owner(self, owner):
        """what of the package an owner of heap cells is shared through, or None"""
        if isinstance(owner, ClassInfo):
            if owner.module.name.startswith('pysim'):
                return 'class %s of %s' % (owner.name, owner.module.name)
        elif isinstance(owner, tuple) and owner[0] == 'm':
            if owner[1].startswith('pysim'):
                return 'module %s' % owner[1]
        elif isinstance(owner, ObjInfo):
            best = None
            for a, b, name in self.m.import_time:
                if a < owner.n <= b and (best is None or b - a < best[0]):
                    best = (b - a, name)
            if best and best[1].startswith('pysim'):
                return 'object %s made while importing %s' % (owner.name.split('#')[0], best[1])
        return None

    def shared_writes(self, before, after, name):
        base = before.heap
        world = self.m.world.heap
        for k, v in after.heap.items():
            o = base.get(k)
            if o is v or isinstance(k[0], (Frame, str)):
                continue
            if o is None:
                o = world.get(k)
                if o is v:
                    continue
            who = self.shared_owner(k[0])
            if who is None:
                continue
            loc = after.prov.get(k) or ()
            self.shared.setdefault((who, k[1]), (set(), []))
            self.shared[(who, k[1])][0].update(loc)
            self.shared[(who, k[1])][1].append(name)

    def exc_name(self, st, p):
        if isinstance(p, Obj):
            c = p.oid.cls
            loc = st.heap.get((p.oid, '@loc')) or st.heap.get((p.oid, '@new'))
            loc = loc.leaf.value if loc is not None and loc.leaf is not None else None
            return (c.name if isinstance(c, ClassInfo) else c[4:]), loc
        return show_payload(p), None

    # -- canonical values -------------------------------------------------
    def reify(self, st, node, mark, depth=0):
        m = self.m
        if depth > 12:
            return leaf(const('...'))
        mapping = {}
        for p in payloads_of(node):
            if isinstance(p, Obj):
                i = p.oid
                if i.cls in ('list', 'set', 'dict', 'gen', 'count', 'partial') or i.n > mark:
                    if i.enum_name:
                        continue
                    r = self.reify_obj(st, i, mark, depth)
                    if r is not None:
                        mapping[p] = r
            elif isinstance(p, Func) and p.fn.name == '<lambda>':
                pass
        if not mapping:
            return node
        return subst(node, mapping, None)

    def reify_obj(self, st, i, mark, depth):
        m = self.m
        key = (i, '@')
        if m.is_lazy(st, i):
            return N('generator')
        if i.cls in ('list', 'set', 'dict', 'gen'):
            c = m.get(st, i, '@')
            if c is None:
                return None
            if i.cls == 'dict':
                c = map1(self.sort_map, c)
            return self.reify(st, c, mark, depth + 1)
        if i.cls in ('count', 'partial'):
            names = ('n', 'step') if i.cls == 'count' else ('func', 'args', 'kw')
            return self.reify(st, app(i.cls, [m.get(st, i, n) for n in names]), mark, depth + 1)
        if isinstance(i.cls, str) and i.cls.startswith('exc:'):
            return leaf(app_p('exc', (i.cls[4:],)))
        if isinstance(i.cls, str):
            return leaf(app_p('object', (i.cls,)))
        if i.symbolic:
            return None
        if getattr(self, 'in_progress', None) is None:
            self.in_progress = set()
        if i in self.in_progress:
            return leaf(app_p('cycle', (i.cls.name,)))
        self.in_progress.add(i)
        try:
            names = sorted(k[1] for k in st.heap if k[0] is i and not k[1].startswith('@'))
            args = []
            for n in names:
                v = st.heap[(i, n)]
                args.append(N(n))
                args.append(self.reify(st, v, mark, depth + 1))
            return leaf(tup_p([('e', N('instance ' + i.cls.name))] + [('e', a) for a in args], 'tuple'))
        finally:
            self.in_progress.discard(i)

    def sort_map(self, q):
        if isinstance(q, Map) and all(k.leaf is not None and isinstance(k.leaf, Const) for k, v, g in q.entries):
            return leaf(map_p(sorted(q.entries, key=lambda t: repr(t[0].leaf.value)), q.base))
        return leaf(q)

    def trace(self, st, mark, io):
        """gated sequence of the effects of one side"""
        drop = SILENT | (set() if io else IO)
        if self.logs:
            drop = drop - {'log'}
        seq = tup([])
        locs = {}
        for e in st.fx:
            kind = e.kind
            if kind in drop:
                continue
            if kind == 'each':
                inner = e.data[1].leaf.args[0]
                if inner in drop:
                    continue
            data = [self.reify(st, d, mark) for d in e.data]
            item = app('fx:' + kind, data) if kind != 'each' else app('fx:each', data)
            locs.setdefault(kind, []).append(e.loc)

            def add(p, q):
                if kind == 'print' and p.parts and plain_print(q) and p.parts[-1][1].leaf is not None and plain_print(p.parts[-1][1].leaf):
                    # output is one text, however many calls print it
                    both = app_p('fx:print', (cat_p([p.parts[-1][1].leaf.args[0], q.args[0]]),))
                    return leaf(tup_p(p.parts[:-1] + (('e', leaf(both)),), 'tuple'))
                return leaf(tup_p(p.parts + (('e', leaf(q)),), 'tuple'))
            seq = ite(e.guard, map2(add, seq, item), seq)
        return seq, locs

    def compare(self, cls, name, pc0, mark, A, E, notes):
        io = self.attr(cls, 'io', False)
        (sa, ra, oa, la), (se, re_, oe, le) = A, E
        ctx = self.context_of(cls)
        for lost, side in ((AND(pc0, NOT(sa.pc)), 'code'), (AND(pc0, NOT(se.pc)), 'rule')):
            if lost is not FALSE and feasible(lost):
                self.undecided.append((name, 'paths of the %s that do not end are not compared' % side))
        care = AND(pc0, AND(sa.pc, se.pc))
        if care is FALSE:
            self.undecided.append((name, 'nothing to compare'))
            return
        pairs = [('result', self.reify(sa, ra, mark), self.reify(se, re_, mark), la)]
        if oa and oe:
            a, e = self.reify(sa, oa[0], mark), self.reify(se, oe[0], mark)
            ta = a.leaf.parts if isinstance(a.leaf, Tup) else None
            te = e.leaf.parts if isinstance(e.leaf, Tup) else None
            if ta and te and len(ta) == len(te) and all(k == 'e' for k, _ in ta + te):
                for j, ((_, x), (_, y)) in enumerate(zip(ta, te)):
                    pairs.append(('observed value %d' % (j + 1), x, y, None))
            else:
                pairs.append(('observed value', a, e, None))
        fa, locs = self.trace(sa, mark, io)
        fe, _ = self.trace(se, mark, io)
        fa, fe = canon_trace(fa), canon_trace(fe)
        pairs.append(('effects', fa, fe, locs))
        for what, a, e, loc in pairs:
            self.obligations += 1
            und = []
            try:
                d = differ(a, e, care, eq=lambda p, q, ls: self.same(p, q, ls, und))
            except Unsupported as ex:
                self.undecided.append((name, '%s: %s' % (what, ex)))
                continue
            if d is None:
                if und:
                    self.undecided.append((name, '%s: %s' % (what, und[0])))
                continue
            path, p, q = d
            self.findings.append(Finding(name, what, self.locations(cls, what, p, q, loc, sa), show_path(path), *first_diff(p, q)))

    def same(self, p, q, ls, und):
        self.leafpairs += 1
        if equal_under(p, q, ls):
            return True
        t = tainted(p) or tainted(q) or tainted_lits(ls)
        if t:
            und.append('value depends on %s' % t)
            return True
        return False

    def context_of(self, cls):
        return cls.name

    def locations(self, cls, what, p, q, loc, sa):
        out = []
        if what == 'effects' and loc:
            for k, ls in loc.items():
                out += ['%s:%s %s' % l for l in ls]
        elif isinstance(p, App) and p.op == 'raises' and loc:
            for l in loc.get(p.args[0], ()):
                out.append(l)
        # the repository functions evaluated for this case
        out = [l for l in dict.fromkeys(out) if 'spec/' not in l][:8]
        fns = []
        for k in self.case_fns:
            f = self.m.fn_lines.get(k)
            if f is not None:
                fns.append('%s:%d %s' % (os.path.relpath(self.m.prog.modules[k[0]].path, self.root), f.node.lineno, k[1]))
        if fns:
            out.append('evaluated: ' + ', '.join(fns[:40]))
        return out


def first_diff(p, q, depth=0):
    """the first differing component of two values"""
    if depth < 12:
        if isinstance(p, Tup) and isinstance(q, Tup) and p.parts and q.parts:
            for j, ((k, a), (l, b)) in enumerate(zip(p.parts, q.parts)):
                if a is not b or k != l:
                    x, y = node_diff(a, b, depth + 1)
                    return '[%d] %s' % (j, x), '[%d] %s' % (j, y)
            n, k = len(p.parts), len(q.parts)
            return ('%d items%s' % (n, ', then ' + show(p.parts[k][1]) if n > k else ''),
                    '%d items%s' % (k, ', then ' + show(q.parts[n][1]) if k > n else ''))
        if isinstance(p, App) and isinstance(q, App) and p.op == q.op and len(p.args) == len(q.args):
            for j, (a, b) in enumerate(zip(p.args, q.args)):
                if a is not b:
                    if isinstance(a, Node) and isinstance(b, Node):
                        x, y = node_diff(a, b, depth + 1)
                    elif isinstance(a, Payload) and isinstance(b, Payload):
                        x, y = first_diff(a, b, depth + 1)
                    else:
                        x, y = str(a), str(b)
                    return '%s %s' % (p.op, x), '%s %s' % (q.op, y)
    return show_payload(p), show_payload(q)


def node_diff(a, b, depth):
    if a.leaf is not None and b.leaf is not None:
        return first_diff(a.leaf, b.leaf, depth)
    return show(a), show(b)


def canon_trace(n):
    """effects of independent kinds commute; so do schedules with different
    delays (order matters only among equal times)"""
    def f(p):
        if not isinstance(p, Tup):
            return leaf(p)
        items = [x.leaf for k, x in p.parts]
        if any(i is None for i in items):
            return leaf(p)

        def key(i):
            if i.op == 'fx:schedule':
                d = i.args[0]
                return (0, d.uid if isinstance(d, Payload) else d.id)
            return ({'fx:call': 3, 'fx:emit': 3, 'fx:ext': 3, 'fx:print': 3, 'fx:each': 3, 'fx:cancel': 1, 'fx:stop': 2}.get(i.op, 4), 0)
        return leaf(tup_p([('e', leaf(i)) for i in sorted(items, key=key)], 'tuple'))
    return map1(f, n)


_taint_memo = {}


def tainted(p):
    r = _taint_memo.get(p)
    if r is None:
        r = ''
        for q in payloads_of(leaf(p)):
            if isinstance(q, App) and q.op in TAINT:
                r = '%s (%s)' % (q.op, q.args[0] if q.op == '?unknown' else 'loop')
                break
        else:
            r = tainted_atoms(leaf(p))
        _taint_memo[p] = r
    return r


def tainted_atoms(n):
    return ''


def tainted_lits(ls):
    for q in list(ls.bounds) + [x for x in ls.eqs if isinstance(x, Payload)] + list(ls.truth):
        t = tainted(q)
        if t:
            return t
    return ''


# --------------------------------------------------------------------------
# intrinsics of rule files

def install(m):
    I = m.intrinsics

    def text(n):
        return n.leaf.value

    def reg(f):
        I[f.__name__.rstrip('_')] = f
        return f

    def a(args, i, default=None):
        return args[i][1] if len(args) > i else default

    def mk(kind):
        def f(m, st, args, kwargs, node):
            return sym(text(a(args, 0)), kind)
        return f
    for k, kind in (('num', 'num'), ('int_', 'int'), ('nat', 'nat'), ('boolean', 'bool'), ('any_', 'any'),
                    ('text', 'str'), ('callback', 'cb'), ('nonnull', 'nn'), ('bytes_', 'bytes')):
        I[k] = mk(kind)

    @reg
    def seq(m, st, args, kwargs, node):
        """opaque sequence; second argument: kind of its elements"""
        kind = text(a(args, 1)) if len(args) > 1 else 'any'
        return leaf(sym_p(text(a(args, 0)), 'nn', kind))

    @reg
    def alist(m, st, args, kwargs, node):
        """list object with opaque content"""
        kind = text(a(args, 1)) if len(args) > 1 else 'any'
        return m.new_container(st, 'list', leaf(tup_p([('s', leaf(sym_p(text(a(args, 0)), 'nn', kind)))], 'list')))

    @reg
    def adict(m, st, args, kwargs, node):
        return m.new_container(st, 'dict', leaf(map_p([], sym_p(text(a(args, 0)), 'nn'))))

    @reg
    def opt(m, st, args, kwargs, node):
        """the value or None"""
        v = a(args, 0)
        name = text(a(args, 1)) if len(args) > 1 else 'has ' + show(v)
        return ite(var(atom('b', sym_p(name, 'any'))), v, NONE)

    @reg
    def either(m, st, args, kwargs, node):
        """either(name, v1, v2, ...): one of the values"""
        name = text(a(args, 0))
        vals = [v for k, v in args[1:]]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = ite(var(atom('enum', sym_p(name, 'any'), const('alt %d' % j))), vals[j], r)
        return r

    @reg
    def enum(m, st, args, kwargs, node):
        c = a(args, 0).leaf.cls
        s = sym_p(text(a(args, 1)), 'any')
        r = None
        for mb in reversed(c.members):
            v = leaf(new_obj_p(mb))
            r = v if r is None else ite(var(atom('enum', s, new_obj_p(mb))), v, r)
        return r

    @reg
    def symbolic(m, st, args, kwargs, node):
        """instance of a repository class in an arbitrary state"""
        c = a(args, 0).leaf.cls
        info = ObjInfo(text(a(args, 1)), c, True)
        for k, v in kwargs.items():
            st.heap[(info, k)] = v
        return leaf(new_obj_p(info))

    @reg
    def record(m, st, args, kwargs, node):
        """plain object with the given fields, any others opaque"""
        info = ObjInfo(text(a(args, 0)), 'record', True)
        for k, v in kwargs.items():
            st.heap[(info, k)] = v
        return leaf(new_obj_p(info))

    @reg
    def assume(m, st, args, kwargs, node):
        for k, v in args:
            c = m.truth(st, v)
            st.pc = AND(st.pc, c)
            if not feasible(st.pc):
                st.pc = FALSE
        return NONE

    @reg
    def emit(m, st, args, kwargs, node):
        k = text(a(args, 0))
        # what a rule announces is never taken for an effect of the machine
        m.effect(st, k + ' announced' if k in SILENT else k, [v for k, v in args[1:]], node)
        return NONE

    @reg
    def term(m, st, args, kwargs, node):
        """uninterpreted term"""
        kind = text(kwargs['kind']) if 'kind' in kwargs else 'any'
        return app(text(a(args, 0)), [m.snapshot(st, v) for k, v in args[1:]], kind)

    @reg
    def simulator(m, st, args, kwargs, node):
        c = m.cls('pysim.sim.simulator', 'Simulator')
        info = ObjInfo('sim', c, True)
        info.is_sim = True
        p = leaf(new_obj_p(info))
        st.heap[(info, '@time')] = kwargs.get('time') or sym('now', 'num')
        st.heap[(info, '@context')] = a(args, 0) if args else NONE
        return p

    @reg
    def eventid(m, st, args, kwargs, node):
        return leaf(sym_p(text(a(args, 0)), 'nn'))

    @reg
    def clock(m, st, args, kwargs, node):
        """install a real-time clock that only advance() moves"""
        m.clock = True
        st.heap[('cnt', 'clock')] = sym('clock0', 'num')
        return NONE

    @reg
    def advance(m, st, args, kwargs, node):
        cur = m.get(st, 'cnt', 'clock')
        st.heap[('cnt', 'clock')] = map2(lambda p, q: leaf(padd(p, q)), cur, a(args, 0))
        return NONE

    @reg
    def realtime(m, st, args, kwargs, node):
        return m.get(st, 'cnt', 'clock')

    @reg
    def same(m, st, args, kwargs, node):
        return map2(pl_eq, a(args, 0), a(args, 1))

    @reg
    def fields(m, st, args, kwargs, node):
        """values of the named attributes of an object"""
        o = a(args, 0)
        return tup([m.getattr(st, o, text(v), node) for k, v in args[1:]])

    @reg
    def copyof(m, st, args, kwargs, node):
        return m.snapshot(st, a(args, 0))

    @reg
    def known(m, st, args, kwargs, node):
        """does the object have the attribute (statically)?"""
        return m.b_hasattr(st, args, kwargs, node)

    @reg
    def stub(m, st, args, kwargs, node):
        """stub(module, function, replacement): calls of the repository
        function are answered by the replacement while the case is evaluated"""
        mod, qual = text(a(args, 0)), text(a(args, 1))
        if mod == 'builtins':
            m.stubs[('ext', qual)] = a(args, 2).leaf
            return NONE
        m.lookup(mod, qual)
        m.stubs[(mod, qual)] = a(args, 2).leaf
        return NONE

    @reg
    def draws(m, st, args, kwargs, node):
        """draws(f): uniform draws from [0, 1) are answered by f"""
        m.stubs[('ext', 'uniform')] = a(args, 0).leaf
        return NONE

    @reg
    def integers(m, st, args, kwargs, node):
        """integers(f): integer draws from low..high are answered by f(low, high)"""
        m.stubs[('ext', 'randint')] = a(args, 0).leaf
        return NONE

    @reg
    def rounded(m, st, args, kwargs, node):
        """rounded(x, digits): a linear expression with rounded coefficients"""
        d = int(numconst(a(args, 1).leaf))

        def f(p):
            if not isinstance(p, Poly):
                return leaf(p)
            from .values import _mkpoly
            return leaf(_mkpoly({k: Fraction(round(c * 10 ** d), 10 ** d) for k, c in p.terms}))
        return map1(f, a(args, 0))

    @reg
    def load_effects(m, st, args, kwargs, node):
        """number of effects of the given kinds while the module was loaded"""
        s0 = m.modstate.get(text(a(args, 0)) + ':state')
        kinds = [text(v) for k, v in args[1:]]
        return N(sum(1 for e in s0.fx if e.kind in kinds))

    @reg
    def caller(m, st, args, kwargs, node):
        """name of the function the given number of calls up the stack"""
        k = numconst(a(args, 0).leaf) if a(args, 0).leaf is not None else None
        if k is None:
            return app('caller', [a(args, 0)])
        j = len(m.stack) - 1 - int(k)
        if not 0 <= j < len(m.stack):
            return N('?')
        fn = m.stack[j].fn
        return N(fn.qualname if fn is not None else '<module>')

    logger = leaf(sym_p('LOGGER', 'nn'))
    I['logger'] = lambda m, st, args, kwargs, node: logger

    old_hook = m.call_hook

    m.stubs = {}

    def hook(st, fn, args, kwargs, node):
        if m.stubs and fn.key in m.stubs and not any(f.fn is fn for f in m.stack[-1:]):
            return m.call_payload(st, m.stubs[fn.key], args, kwargs, node)
        if fn.cls is None or fn.cls.name != 'Simulator' or not args:
            return None
        me = args[0][1].leaf
        if not isinstance(me, Obj) or not getattr(me.oid, 'is_sim', False):
            return None
        info = me.oid
        n = fn.name
        if n in ('schedule', 'call', 'cancel', 'stop'):
            env = m.bind(st, fn, args, kwargs, node)
            if env is None:
                return UNDEF
            if n in ('schedule', 'call'):
                delay = env.get('delay', N(0)) if n == 'schedule' else N(0)
                h = env.get('handler', NONE)
                ar = m.as_seq(st, env.get('args', tup([])), 'tuple')
                nn = NOT(where(delay, NONE_P))
                if nn is FALSE:
                    return NONE
                full = restrict(delay, nn)
                m.raise_builtin(st, 'ValueError', 'no handler', guard=AND(nn, where(h, NONE_P)), node=node) if where(h, NONE_P) is not FALSE else None
                if st.pc is FALSE:
                    return UNDEF
                key = app('evid', [full, h, ar], 'nn')
                k = key.leaf if key.leaf is not None else ('evid', key.id)
                cnt = m.get(st, 'cnt', k)
                st.heap[('cnt', k)] = map1(lambda q: leaf(padd(q, num(1))), cnt)
                st.fx = st.fx + (Effect(AND(st.pc, nn), 'schedule', (full, h, ar), m.loc(node)),)
                ev = app('event', [key, cnt], 'nn')
                return ite(nn, ev, NONE)
            if n == 'cancel':
                e = env.get('event_id', list(env.values())[-1])
                nn = NOT(where(e, NONE_P))
                if nn is not FALSE:
                    st.fx = st.fx + (Effect(AND(st.pc, nn), 'cancel', (restrict(e, nn),), m.loc(node)),)
                return sym('cancelled', 'nat')
            m.effect(st, 'stop', [env.get('msg', N(''))] if False else [], node)
            return NONE
        if n == 'time':
            return m.get(st, info, '@time')
        if n == 'logger':
            return logger
        if n == 'context':
            if len(args) > 1:
                st.heap[(info, '@context')] = args[1][1]
                m.effect(st, 'set context', [args[1][1]], node)
                return NONE
            return m.get(st, info, '@context')
        return None
    m.call_hook = hook
    m.while_bound = 0
    m.clock = None
