"""Every live event is executed exactly once with its own handler and arguments."""
from pysim.sim.simulator import EventQueue, build_simulation, run_simulation
from spec.base import Case
from spec.refsim import run_real, run_ref


def h1(sim, *args):
    emit('h1', sim.time, args)


def h2(sim, a, b):
    emit('h2', sim.time, a, b)


class Callable:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, sim, *args):
        emit('callable', self.tag, sim.time, args)

    def method(self, sim, *args):
        emit('method', self.tag, sim.time, args)


class own_handler(Case):
    """each event calls its own handler with its own arguments, once"""
    unroll = 7

    def setup():
        clock()
        d = (num('d1'), num('d2'), num('d3'), num('d4'))
        assume(d[0] >= 0, d[1] >= d[0], d[2] >= 0, d[3] >= d[2])
        return d, any_('p'), any_('q')

    def init(sim, d, p, q):
        sim.schedule(d[0], h1, (p,))
        sim.schedule(d[1], h2, (p, q))
        sim.schedule(d[2], h2, [q, p], 'comment')
        sim.schedule(d[3], h1)

    def actual(x):
        run_real(own_handler.init, init_args=x)

    def expected(x):
        run_ref(own_handler.init, init_args=x)


class handler_kinds(Case):
    """functions, bound methods and callable objects, arguments of any iterable kind"""
    unroll = 7

    def setup():
        clock()
        d = num('d')
        assume(d >= 0)
        return d, any_('p')

    def init(sim, d, p):
        o = Callable('x')
        sim.schedule(d, o, (p,))
        sim.schedule(d, o.method, [p, 1])
        sim.schedule(d, h1, (i for i in (1, 2)))
        sim.call(Callable('y').method)

    def actual(x):
        run_real(handler_kinds.init, init_args=x)

    def expected(x):
        run_ref(handler_kinds.init, init_args=x)


class repeated(Case):
    """the same handler planned twice for the same time runs twice"""
    unroll = 6

    def setup():
        clock()
        d = num('d')
        assume(d >= 0)
        return d, any_('p')

    def init(sim, d, p):
        sim.schedule(d, h1, (p,))
        sim.schedule(d, h1, (p,))

    def actual(x):
        run_real(repeated.init, init_args=x)

    def expected(x):
        run_ref(repeated.init, init_args=x)


class chain(Case):
    """events planned by handlers run as well, each once"""
    unroll = 8

    def setup():
        clock()
        d = num('d')
        n = num('e')
        assume(d >= 0, n >= 0)
        return d, n

    def step(sim, k, d):
        emit('step', k, sim.time)
        if k < 3:
            sim.schedule(d, chain.step, (k + 1, d))

    def init(sim, d, n):
        sim.schedule(d, chain.step, (0, n))
        sim.schedule(n, h1, ('other',))

    def actual(x):
        run_real(chain.init, init_args=x)

    def expected(x):
        run_ref(chain.init, init_args=x)


class identifiers(Case):
    """identifiers are distinct and ascend in order of scheduling"""
    unroll = 6

    def setup():
        clock()
        d = (num('d1'), num('d2'))
        assume(d[0] >= 0, d[1] >= 0)
        return d

    def later(sim, ids):
        ids.append(sim.call(h1))
        ids.append(sim.schedule(1, h1))

    def init(sim, d):
        ids = [sim.schedule(d[0], h1), sim.call(h1)]
        ids.append(sim.schedule(d[1], identifiers.later, (ids,)))
        sim.context = ids

    def actual(x):
        stats, ids, ret = run_real(identifiers.init, init_args=(x,))
        emit('ids', len(ids), ids[0] < ids[1], ids[1] < ids[2], ids[2] < ids[3], ids[3] < ids[4])

    def expected(x):
        run_ref(identifiers.init, init_args=(x,))
        emit('ids', 5, True, True, True, True)


class one_simulator(Case):
    """all handlers, the initializer and the finalizer see one simulation object
    and through it one context"""
    unroll = 6

    def setup():
        clock()
        d = num('d')
        assume(d >= 0)
        return d

    def look(sim, first):
        emit('same', sim is first)
        sim.context['n'] = sim.context['n'] + 1
        emit('n', sim.context['n'])

    def swap(sim, ctx):
        sim.context = ctx

    def done(sim):
        emit('fin', sim is sim.context['sim'], sim.context['n'])
        return sim.context['n']

    def init(sim, d):
        ctx = sim.context
        ctx['n'] = 0
        sim.call(one_simulator.look, (sim,))
        sim.schedule(d, one_simulator.swap, ({'sim': sim, 'n': 10},))
        sim.schedule(d + 1, one_simulator.look, (sim,))

    def actual(x):
        stats, ctx, ret = run_real(one_simulator.init, init_args=(x,), fin=one_simulator.done)
        return ctx['n'], ret

    def expected(x):
        emit('same', True)
        emit('n', 1)
        emit('same', True)
        emit('n', 11)
        emit('fin', True, 11)
        return 11, 11


class falsy_context(Case):
    """an empty or zero context passed in is still the one the handlers see"""
    unroll = 5
    params = ['dict', 'list', 'zero', 'text', 'false', 'sized']

    class Sized:
        def __len__(self):
            return 0

    def setup(kind):
        clock()
        if kind == 'dict':
            return {}
        if kind == 'list':
            return []
        if kind == 'zero':
            return 0
        if kind == 'text':
            return ''
        if kind == 'false':
            return False
        return falsy_context.Sized()

    def look(sim, x):
        emit('seen', sim.context is x, type(sim.context) is type(x))

    def init(sim, x):
        emit('seen', sim.context is x, type(sim.context) is type(x))
        sim.schedule(1, falsy_context.look, (x,))

    def actual(x):
        stats, ctx, ret = run_real(falsy_context.init, init_args=(x,), context=x)
        return ctx is x, type(ctx) is type(x)

    def expected(x):
        emit('seen', True, True)
        emit('seen', True, True)
        return True, True
