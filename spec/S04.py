"""A run ends exactly when one of its stop conditions holds."""
from pysim.sim.simulator import Kernel, build_simulation, run_simulation
from spec.base import Case
from spec.refsim import run_real, run_ref


def limits(which):
    """the limits of one run: each may be given or not"""
    kw = {}
    if 's' in which:
        kw['max_sim_time'] = opt(num('max_sim_time'))
    if 'r' in which:
        kw['max_real_time'] = opt(num('max_real_time'))
    if 'n' in which:
        kw['max_num_events'] = opt(num('max_num_events'))
    return kw


class limited(Case):
    """two events, limits of any value, given or not"""
    unroll = 5
    params = ['', 's', 'r', 'n', 'sr', 'rn', 'sn']

    def setup(which):
        clock()
        d = (num('d1'), num('d2'))
        w = (num('w1'), num('w2'))
        assume(d[0] >= 0, d[1] >= d[0], w[0] >= 0, w[1] >= 0)
        return d, w, limits(which)

    def step(sim, k, wait):
        emit('run', k, sim.time)
        advance(wait)

    def init(sim, d, w):
        sim.schedule(d[0], limited.step, (1, w[0]))
        sim.schedule(d[1], limited.step, (2, w[1]))

    def actual(x):
        run_real(limited.init, init_args=(x[0], x[1]), **x[2])

    def expected(x):
        run_ref(limited.init, init_args=(x[0], x[1]), **x[2])


class slow_init(Case):
    """real time counts from the start of the run, initialization included"""
    unroll = 4

    def setup():
        clock()
        d, w = num('d'), num('w')
        assume(d >= 0, w >= 0)
        return d, w, limits('r')

    def init(sim, d, w):
        advance(w)
        sim.schedule(d, limited.step, (1, w))

    def actual(x):
        run_real(slow_init.init, init_args=(x[0], x[1]), **x[2])

    def expected(x):
        run_ref(slow_init.init, init_args=(x[0], x[1]), **x[2])


class built_earlier(Case):
    """time spent between building and running a simulation does not count"""
    unroll = 4

    def setup():
        clock()
        d, w = num('d'), num('w')
        assume(d >= 0, w >= 0)
        return d, w, limits('r')

    def actual(x):
        k = Kernel('model')
        k.set_initializer(slow_init.init, (x[0], x[1]))
        k.set_max_real_time(x[2]['max_real_time'])
        advance(num('pause'))
        run_simulation(k.build_runner())

    def expected(x):
        advance(num('pause'))
        run_ref(slow_init.init, init_args=(x[0], x[1]), **x[2])


class stopped(Case):
    """a stop requested by the initializer or a handler takes effect at once"""
    unroll = 5
    params = ['init', 'first', 'second', 'nobody']

    def setup(who):
        clock()
        d = (num('d1'), num('d2'), num('d3'))
        assume(d[0] >= 0, d[1] >= d[0], d[2] >= d[1])
        return who, d

    def step(sim, k, stop):
        emit('run', k, sim.time)
        if stop:
            sim.stop('enough')
            emit('after stop')

    def init(sim, who, d):
        if who == 'init':
            sim.stop()
        sim.schedule(d[0], stopped.step, (1, who == 'first'))
        sim.schedule(d[1], stopped.step, (2, who == 'second'))
        sim.schedule(d[2], stopped.step, (3, False))

    def actual(x):
        run_real(stopped.init, init_args=x)

    def expected(x):
        run_ref(stopped.init, init_args=x)


class stopped_or_limited(Case):
    """a stop request and limits at the same time"""
    unroll = 4

    def setup():
        clock()
        d = (num('d1'), num('d2'))
        assume(d[0] >= 0, d[1] >= d[0])
        return boolean('stop'), d, limits('sn')

    def init(sim, stop, d):
        sim.schedule(d[0], stopped.step, (1, stop))
        sim.schedule(d[1], stopped.step, (2, False))

    def actual(x):
        run_real(stopped_or_limited.init, init_args=(x[0], x[1]), **x[2])

    def expected(x):
        run_ref(stopped_or_limited.init, init_args=(x[0], x[1]), **x[2])


class growing(Case):
    """handlers that plan further events are stopped by the event limit only"""
    unroll = 5
    params = [0, 1, 2, 3]

    def setup(n):
        clock()
        d = num('d')
        assume(d >= 0)
        return n, d

    def step(sim, d):
        emit('run', sim.time)
        sim.schedule(d, growing.step, (d,))

    def init(sim, d):
        sim.call(growing.step, (d,))

    def actual(x):
        run_real(growing.init, init_args=(x[1],), max_num_events=x[0])

    def expected(x):
        run_ref(growing.init, init_args=(x[1],), max_num_events=x[0])


class zero_limits(Case):
    """a limit of zero is a limit"""
    unroll = 4
    params = ['max_sim_time', 'max_real_time', 'max_num_events']

    def setup(which):
        clock()
        d = num('d')
        assume(d > 0)
        return which, d

    def init(sim, d):
        sim.schedule(d, limited.step, (1, d))
        sim.schedule(2 * d, limited.step, (2, d))

    def actual(x):
        run_real(zero_limits.init, init_args=(x[1],), **{x[0]: 0})

    def expected(x):
        run_ref(zero_limits.init, init_args=(x[1],), **{x[0]: 0})
