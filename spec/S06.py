"""Initializer first, finalizer last, context and results handed over."""
from pysim.sim.simulator import ExecutionStats, build_simulation, run_simulation
from spec.base import Case
from spec.refsim import run_ref


class order(Case):
    """initializer, events, finalizer: each exactly once, with its arguments"""
    unroll = 4
    params = [(False, False), (False, True), (True, False), (True, True)]

    def setup(with_fin, debug):
        clock()
        d = num('d')
        assume(d >= 0)
        return with_fin, debug, d, any_('a'), any_('b')

    def step(sim, k):
        emit('step', sim.time, k)

    def init(sim, *args, **kw):
        emit('init', sim.time, args, kw)
        sim.schedule(args[0], order.step, (1,))
        sim.schedule(args[0], order.step, (2,))

    def fin(sim):
        emit('fin', sim.time)
        return 'answer', sim.time

    def actual(x):
        with_fin, debug, d, a, b = x
        kw = {}
        if with_fin:
            kw['fin'] = order.fin
        if debug:
            kw['debug'] = True
        results = list(build_simulation('model', order.init, init_args=(d, a, b), **kw))
        stats, context, ret = results[0]
        emit('result', len(results), len(results[0]), isinstance(stats, ExecutionStats), ret)

    def expected(x):
        with_fin, debug, d, a, b = x
        emit('init', 0, (d, a, b), {})
        emit('step', d, 1)
        emit('step', d, 2)
        if with_fin:
            emit('fin', d)
        emit('result', 1, 3, True, ('answer', d) if with_fin else None)


class limited_to_nothing(Case):
    """also a run that may not execute any event is initialized and finalized once"""
    unroll = 4
    params = ['max_sim_time', 'max_real_time', 'max_num_events', 'stop']

    def setup(which):
        clock()
        d, late = num('d'), num('late')
        assume(d > 0, late > 0)
        return which, d, late

    def init(sim, which, d, late):
        emit('init', sim.time)
        advance(late)
        sim.schedule(d, order.step, (1,))
        if which == 'stop':
            sim.stop('no')

    def actual(x):
        which, d, late = x
        kw = {} if which == 'stop' else {which: -1 if which == 'max_sim_time' else 0}
        results = list(build_simulation('model', limited_to_nothing.init, init_args=x, fin=order.fin, **kw))
        emit('result', len(results), results[0][0].num_events_processed, results[0][2])

    def expected(x):
        which, d, late = x
        emit('init', 0)
        advance(late)
        emit('fin', 0)
        emit('result', 1, 0, ('answer', 0))


class no_arguments(Case):
    """without arguments the initializer gets the simulation object only"""
    def setup():
        clock()
        return None

    def init(sim, *args, **kw):
        emit('init', sim.time, args, kw)

    def actual(x):
        stats, context, ret = run_simulation(build_simulation('model', no_arguments.init))
        return context, ret

    def expected(x):
        emit('init', 0, (), {})
        return {}, None


class any_arguments(Case):
    """any iterable of arguments is handed over element by element"""
    params = ['list', 'generator']

    def setup(kind):
        clock()
        a, b = any_('a'), any_('b')
        if kind == 'list':
            return [a, b]
        return (v for v in (a, b))

    def actual(x):
        run_simulation(build_simulation('model', no_arguments.init, init_args=x))

    def expected(x):
        emit('init', 0, (any_('a'), any_('b')), {})


class finalizer_value(Case):
    """whatever the finalizer returns is handed over, falsy values included"""
    params = [(None,), (0,), ('',), (False,), (7,)]

    def setup(v):
        clock()
        return v

    def init(sim):
        pass

    def actual(x):
        def fin(sim):
            emit('fin')
            return x
        return run_simulation(build_simulation('model', finalizer_value.init, fin=fin))[2]

    def expected(x):
        emit('fin')
        return x


class given_context(Case):
    """the context passed in is the object every handler sees and the result holds"""
    unroll = 4
    params = ['object', 'dict', 'empty dict', 'zero', 'empty list', 'false']

    def setup(kind):
        clock()
        values = {'object': record('ctx'), 'dict': {'a': 1}, 'empty dict': {}, 'zero': 0, 'empty list': [],
                  'false': False}
        return values[kind]

    def step(sim, ctx):
        emit('step', sim.context is ctx)

    def init(sim, ctx):
        emit('init', sim.context is ctx)
        sim.call(given_context.step, (ctx,))

    def fin(sim):
        return sim.context

    def actual(x):
        stats, context, ret = run_simulation(build_simulation(
            'model', given_context.init, init_args=(x,), fin=given_context.fin, context=x))
        return context is x, ret is x

    def expected(x):
        emit('init', True)
        emit('step', True)
        return True, True


class default_context(Case):
    """without a context each run has an empty dictionary of its own"""
    unroll = 4

    def setup():
        clock()
        return any_('v')

    def step(sim):
        emit('step', dict(sim.context))

    def init(sim, v):
        emit('init', dict(sim.context))
        sim.context['key'] = v
        sim.call(default_context.step)

    def actual(x):
        s1, c1, r1 = run_simulation(build_simulation('model', default_context.init, init_args=(x,)))
        s2, c2, r2 = run_simulation(build_simulation('model', default_context.init, init_args=(x,), context=None))
        return c1 is c2, c1, c2

    def expected(x):
        emit('init', {})
        emit('step', {'key': x})
        emit('init', {})
        emit('step', {'key': x})
        return False, {'key': x}, {'key': x}


class replaced_context(Case):
    """a context set by the initializer, a handler or the finalizer is the one returned"""
    unroll = 4
    params = ['init', 'handler', 'fin']

    def setup(who):
        clock()
        return who, {'old': 1}, record('new')

    def step(sim, who, new):
        if who == 'handler':
            sim.context = new
        emit('step', sim.context is new)

    def init(sim, who, new):
        if who == 'init':
            sim.context = new
        sim.call(replaced_context.step, (who, new))

    def actual(x):
        who, old, new = x

        def fin(sim):
            emit('fin', sim.context is new)
            if who == 'fin':
                sim.context = new
        stats, context, ret = run_simulation(build_simulation(
            'model', replaced_context.init, init_args=(who, new), fin=fin, context=old))
        return context is new, context is old

    def expected(x):
        emit('step', x[0] != 'fin')
        emit('fin', x[0] != 'fin')
        return True, False


class same_simulation_object(Case):
    """initializer, handlers and finalizer share one simulation object"""
    unroll = 4

    def setup():
        clock()
        return None

    def step(sim, box):
        emit('same', box[0] is sim)

    def init(sim, box):
        box.append(sim)
        sim.call(same_simulation_object.step, (box,))

    def actual(x):
        box = []

        def fin(sim):
            return box[0] is sim
        return run_simulation(build_simulation('model', same_simulation_object.init, init_args=(box,), fin=fin))[2]

    def expected(x):
        emit('same', True)
        return True


class no_result(Case):
    """running a simulation that yields nothing is an error"""
    def actual(x):
        return run_simulation(iter([]))

    def expected(x):
        raise RuntimeError()


class last_result(Case):
    """the result of a run is what the simulation yields"""
    def setup():
        return nonnull('r')

    def actual(x):
        return run_simulation(iter([x]))

    def expected(x):
        return x


class errors_reach_the_caller(Case):
    """an error raised by the initializer, a handler or the finalizer ends the run and reaches its caller"""
    params = [(who, k) for who in ('init', 'step', 'fin') for k in range(7)]

    def setup(who, k):
        clock()
        return who, [ValueError, KeyError, RuntimeError, AttributeError, StopIteration, GeneratorExit, KeyboardInterrupt][k]

    def step(sim, who, kind):
        emit('step')
        sim.schedule(1, errors_reach_the_caller.step, (who, kind))
        if who == 'step':
            raise kind('broken')

    def init(sim, who, kind):
        emit('init')
        sim.call(errors_reach_the_caller.step, (who, kind))
        if who == 'init':
            raise kind('broken')

    def actual(x):
        who, kind = x

        def fin(sim):
            emit('fin')
            if who == 'fin':
                raise kind('broken')
        try:
            run_simulation(build_simulation('model', errors_reach_the_caller.init, init_args=(who, kind), fin=fin,
                                            max_num_events=2))
            return 'swallowed'
        except BaseException as e:
            # a generator turns the end of an iteration into an error of its own
            return isinstance(e, RuntimeError if kind is StopIteration else kind)

    def expected(x):
        who, kind = x
        emit('init')
        if who != 'init':
            emit('step')
        if who == 'fin':
            emit('step')
            emit('fin')
        return True
