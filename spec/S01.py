"""Events fire at the promised time, in order, and never in the past."""
import bisect

from pysim.sim.simulator import (EventQueue, Kernel, Simulator, SchedulingInPastError,
                                 build_simulation, run_simulation)
from spec.base import Case
from spec.refsim import run_real, run_ref


def mark(sim, *args):
    emit('run', sim.time, *args)


class queue_order(Case):
    """three pushes with any times leave the queue in order of (time, number)"""
    def setup():
        return num('t1'), num('t2'), num('t3')

    def actual(x):
        q = EventQueue()
        ids = [q.push(x[0], 'a'), q.push(x[1], 'b'), q.push(x[2], 'c')]
        return ids[0] < ids[1], ids[1] < ids[2], tuple(q.pop()), tuple(q.pop()), tuple(q.pop())

    def expected(x):
        q = EventQueue()
        ids = [q.push(0, 'a'), q.push(1, 'b'), q.push(2, 'c')]
        a, b, c = (x[0], ids[0], 'a'), (x[1], ids[1], 'b'), (x[2], ids[2], 'c')
        if b[0] < a[0]:
            a, b = b, a
        if c[0] < b[0]:
            b, c = c, b
            if b[0] < a[0]:
                a, b = b, a
        return True, True, a, b, c


class queue_interleaved(Case):
    """a push between two takes is ordered with what is left"""
    def setup():
        return num('t1'), num('t2'), num('t3')

    def actual(x):
        q = EventQueue()
        q.push(x[0], 'a')
        q.push(x[1], 'b')
        first = q.pop()
        q.push(x[2], 'c')
        return first[0], first[2], q.pop()[2], q.pop()[2], q.empty

    def expected(x):
        first, rest, at, name = x[0], x[1], 'a', 'b'
        if x[1] < x[0]:
            first, rest, at, name = x[1], x[0], 'b', 'a'
        if x[2] < rest:
            return first, at, 'c', name, True
        # among equal times the older one goes first
        return first, at, name, 'c', True


class three_events(Case):
    """events run in order of time and number, each at its own time"""
    unroll = 6

    def setup():
        clock()
        d = (num('d1'), num('d2'), num('d3'))
        assume(d[0] >= 0, d[1] >= 0, d[2] >= 0)
        return d

    def init(sim, d):
        sim.schedule(d[0], mark, (1,))
        sim.schedule(d[1], mark, (2, 'x'))
        sim.schedule(d[2], mark)

    def actual(x):
        run_real(three_events.init, init_args=(x,))

    def expected(x):
        run_ref(three_events.init, init_args=(x,))


class nested_events(Case):
    """delays count from the moment of the request, also inside handlers"""
    unroll = 6

    def setup():
        clock()
        d = (num('d1'), num('d2'), num('d3'))
        assume(d[0] >= 0, d[1] >= 0, d[2] >= 0)
        return d

    def first(sim, d):
        emit('first', sim.time)
        sim.schedule(d[1], mark, ('late',))
        sim.call(mark, ('now',))

    def init(sim, d):
        emit('init', sim.time)
        sim.schedule(d[0], nested_events.first, (d,))
        sim.schedule(d[2], mark, ('other',))

    def actual(x):
        run_real(nested_events.init, init_args=(x,))

    def expected(x):
        run_ref(nested_events.init, init_args=(x,))


class immediate_calls(Case):
    """an immediate call is an event with delay zero, after those already due"""
    unroll = 7

    def setup():
        clock()
        d = num('d')
        assume(d >= 0)
        return d

    def again(sim, d):
        emit('again', sim.time)
        sim.call(mark, ('c',))
        sim.schedule(0, mark, ('d',), 'comment')

    def init(sim, d):
        sim.call(mark, ('a',), 'comment')
        sim.schedule(d, immediate_calls.again, args=(d,), msg='comment')
        sim.schedule(delay=d, handler=mark, args=['b'])

    def actual(x):
        run_real(immediate_calls.init, init_args=(x,))

    def expected(x):
        run_ref(immediate_calls.init, init_args=(x,))


class refused(Case):
    """a refused request raises the documented error and plans nothing"""
    unroll = 4
    params = [('past',), ('past_call',), ('none',), ('none_call',), ('text',), ('text_call',), ('args',), ('args_call',)]

    def setup(which):
        clock()
        d = num('d')
        assume(d >= 0)
        return which, d

    def attempt(sim, which, d):
        if which == 'past':
            sim.schedule(-1 - d, mark, ('bad',))
        elif which == 'past_call':
            sim.schedule(-d / 2 - 1, mark)
        elif which == 'none':
            sim.schedule(d, None, ('bad',))
        elif which == 'none_call':
            sim.call(None)
        elif which == 'text':
            sim.schedule(d, 'not a function')
        elif which == 'text_call':
            sim.call(5, (1,))
        elif which == 'args':
            sim.schedule(d, mark, 7)
        else:
            sim.call(mark, None)

    def init(sim, which, d):
        sim.schedule(d, mark, ('ok',))
        try:
            refused.attempt(sim, which, d)
            emit('accepted')
        except SchedulingInPastError:
            emit('past')
        except ValueError:
            emit('value')
        except TypeError:
            emit('type')

    def actual(x):
        run_real(refused.init, init_args=x)

    def expected(x):
        which, d = x
        if which.startswith('past'):
            emit('past')
        elif which.startswith('none'):
            emit('value')
        else:
            emit('type')
        emit('run', d, 'ok')


class any_delay(Case):
    """whatever the delay: planned at now + delay, or refused"""
    unroll = 4

    def setup():
        clock()
        return num('d')

    def init(sim, d):
        try:
            sim.schedule(d, mark, ('e',))
        except SchedulingInPastError:
            emit('past')

    def actual(x):
        run_real(any_delay.init, init_args=(x,))

    def expected(x):
        if x < 0:
            emit('past')
        else:
            emit('run', x, 'e')


class past_is_value_error(Case):
    """the scheduling-in-past error is a ValueError"""
    def actual(x):
        return issubclass(SchedulingInPastError, ValueError)

    def expected(x):
        return True


def delays(n, modulus, seed=12345):
    """a fixed long row of whole delays"""
    out = []
    v = seed
    for i in range(n):
        v = (v * 1103515245 + 12345) % 2147483648
        out.append(v // 65536 % modulus)
    return out


class shuffled(Case):
    """rows of pushes and takes in any order: each take gives the least time, and among equals the oldest"""
    params = list(range(12))
    deep = list(range(12, 40))
    unroll = 500

    def setup(seed):
        return delays(60, 1000 if seed % 2 else 9, seed * 7919 + 1)

    def actual(x):
        q = EventQueue()
        for i, t in enumerate(x):
            q.push(t, i)
            if t % 5 == 0 and i % 2:
                a = q.pop()
                emit('took', a[0], a[2])
        while not q.empty:
            a = q.pop()
            emit('took', a[0], a[2])

    def expected(x):
        left = []
        for i, t in enumerate(x):
            bisect.insort(left, (t, i))
            if t % 5 == 0 and i % 2:
                emit('took', *left.pop(0))
        for a in left:
            emit('took', *a)


class crowd(Case):
    """many events planned in any order, with many at the same time, some of them by handlers, some cancelled"""
    params = [(20, 5), (20, 1000), (90, 12), (90, 1000)]
    deep = [(400, 60)]
    unroll = 3000

    def setup(n, modulus):
        clock()
        return n, modulus

    def again(sim, k, d, ids):
        emit('run', k, sim.time)
        if k % 3 == 0:
            sim.schedule(d, mark, (k, 'child'))
        if k % 4 == 1:
            emit('cancelled', sim.cancel(ids[(k * 5 + 3) % len(ids)]))

    def init(sim, n, modulus):
        row = delays(2 * n, modulus)
        ids = []
        for k in range(n):
            ids.append(sim.schedule(row[k], crowd.again, (k, row[n + k], ids)))
        for k in range(0, n, 3):
            emit('cancelled', sim.cancel(ids[k + 1 if k + 1 < n else k]))

    def actual(x):
        run_real(crowd.init, init_args=x)

    def expected(x):
        run_ref(crowd.init, init_args=x)
