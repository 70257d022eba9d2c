"""Cancelling removes exactly the named pending event."""
import bisect

from pysim.sim.simulator import EventQueue, build_simulation, run_simulation
from spec.base import Case
from spec.refsim import run_real, run_ref
from spec.S01 import delays


def mark(sim, *args):
    emit('run', sim.time, *args)


class cancel_one(Case):
    """cancelling any of three pending events removes that one only"""
    unroll = 6
    params = [0, 1, 2]

    def setup(which):
        clock()
        d = (num('d1'), num('d2'), num('d3'))
        assume(d[0] >= 0, d[1] >= 0, d[2] >= 0)
        return which, d

    def init(sim, which, d):
        ids = [sim.schedule(d[0], mark, (1,)), sim.schedule(d[1], mark, (2,)), sim.schedule(d[2], mark, (3,))]
        emit('cancelled', sim.cancel(ids[which]))
        emit('again', sim.cancel(ids[which]))

    def actual(x):
        run_real(cancel_one.init, init_args=x)

    def expected(x):
        run_ref(cancel_one.init, init_args=x)


class cancel_from_handler(Case):
    """a handler cancels an event that may be pending, running now or done"""
    unroll = 7

    def setup():
        clock()
        d = (num('d1'), num('d2'), num('d3'))
        assume(d[0] >= 0, d[1] >= 0, d[2] >= 0)
        return d

    def killer(sim, ids):
        emit('cancelled', sim.cancel(ids[0]), sim.cancel(ids[1]), sim.cancel(ids[0]))

    def init(sim, d):
        ids = []
        ids.append(sim.schedule(d[0], mark, (1,)))
        ids.append(sim.schedule(d[1], cancel_from_handler.killer, (ids,)))
        sim.schedule(d[2], mark, (2,))

    def actual(x):
        run_real(cancel_from_handler.init, init_args=(x,))

    def expected(x):
        run_ref(cancel_from_handler.init, init_args=(x,))


class cancel_unknown(Case):
    """unknown identifiers and None change nothing and give 0"""
    unroll = 6

    def setup():
        clock()
        d = num('d')
        assume(d >= 0)
        return d

    def init(sim, d):
        emit('before', sim.cancel(0), sim.cancel(None))
        sim.schedule(d, mark, (1,))
        sim.schedule(d, mark, (2,))
        emit('after', sim.cancel(12345), sim.cancel(-1), sim.cancel(None))

    def actual(x):
        run_real(cancel_unknown.init, init_args=(x,))

    def expected(x):
        emit('before', 0, 0)
        emit('after', 0, 0, 0)
        emit('run', x, 1)
        emit('run', x, 2)


class cancel_last(Case):
    """a run whose last events are cancelled ends quietly"""
    unroll = 6

    def setup():
        clock()
        d = (num('d1'), num('d2'))
        assume(d[0] >= 0, d[1] > d[0])
        return d

    def killer(sim, ids):
        emit('cancelled', sim.cancel(ids[0]))

    def init(sim, d):
        ids = []
        sim.schedule(d[0], cancel_last.killer, (ids,))
        ids.append(sim.schedule(d[1], mark, (1,)))

    def actual(x):
        stats, ctx, ret = run_real(cancel_last.init, init_args=(x,))
        return stats.num_events_processed, stats.sim_time

    def expected(x):
        emit('cancelled', 1)
        return 1, x[0]


class cancel_then_schedule(Case):
    """an event planned after a cancellation at the same time is a new one"""
    unroll = 6

    def setup():
        clock()
        d = num('d')
        assume(d >= 0)
        return d

    def init(sim, d):
        a = sim.schedule(d, mark, ('a',))
        sim.cancel(a)
        b = sim.schedule(d, mark, ('b',))
        emit('ids', a == b, sim.cancel(a))

    def actual(x):
        run_real(cancel_then_schedule.init, init_args=(x,))

    def expected(x):
        emit('ids', False, 0)
        emit('run', x, 'b')


class queue_counts(Case):
    """length and emptiness count live events, cancelled ones are skipped"""
    unroll = 6
    params = [0, 1, 2]

    def setup(which):
        return which, (num('t1'), num('t2'), num('t3'))

    def actual(x):
        which, t = x
        q = EventQueue()
        out = [len(q), q.empty]
        ids = []
        for k in range(3):
            ids.append(q.push(t[k], ('task', k)))
        out += [len(q), q.empty]
        q.cancel(ids[which])
        out += [len(q), q.empty]
        q.cancel(ids[which])
        q.cancel(None)
        q.cancel(99)
        out += [len(q), q.empty]
        a = q.pop()
        b = q.pop()
        out += [a[0], a[1], a[2], b[0], b[1], b[2], len(q), q.empty]
        return out, ids[0]

    def expected(x):
        which, t = x
        q = EventQueue()
        base = q.push(0, 'first')
        left = [k for k in range(3) if k != which]
        i, j = left
        if t[j] < t[i]:
            i, j = j, i
        return [0, True, 3, False, 2, False, 2, False,
                t[i], base + i, ('task', i), t[j], base + j, ('task', j), 0, True], base


class queue_all_cancelled(Case):
    """a queue that holds cancelled events only is empty; taking raises KeyError"""
    unroll = 6
    def setup():
        return num('t1'), num('t2')

    def actual(x):
        q = EventQueue()
        a = q.push(x[0], 'a')
        b = q.push(x[1], 'b')
        q.cancel(b)
        q.cancel(a)
        emit('state', len(q), q.empty)
        q.pop()

    def expected(x):
        emit('state', 0, True)
        raise KeyError()


class queue_empty_pop(Case):
    """taking from a fresh or drained queue raises KeyError"""
    unroll = 6
    params = ['fresh', 'drained', 'cleared']

    def setup(which):
        return which, num('t')

    def actual(x):
        which, t = x
        q = EventQueue()
        if which == 'drained':
            q.push(t, 'a')
            q.pop()
        if which == 'cleared':
            q.push(t, 'a')
            q.push(t, 'b')
            q.clear()
            emit('state', len(q), q.empty)
        q.pop()

    def expected(x):
        if x[0] == 'cleared':
            emit('state', 0, True)
        raise KeyError()


class queue_reuse(Case):
    """cancelling an executed event does not hurt the pending ones"""
    unroll = 6
    def setup():
        t = (num('t1'), num('t2'))
        assume(t[0] < t[1])
        return t

    def actual(x):
        q = EventQueue()
        a = q.push(x[0], 'a')
        b = q.push(x[1], 'b')
        q.pop()
        q.cancel(a)
        return len(q), q.empty, q.pop()[2], b > a

    def expected(x):
        return 1, False, 'b', True


SUBSETS = [(0, 1), (1, 2), (0, 2), (2, 3), (0, 1, 2), (1, 2, 3), (0, 1, 3), (0, 1, 2, 3), (3, 1), (2, 1, 0)]


class cancel_several(Case):
    """any of four pending events are cancelled: the others run as planned"""
    unroll = 7
    params = SUBSETS

    def setup(*which):
        clock()
        d = (num('d1'), num('d2'), num('d3'), num('d4'))
        assume(d[0] >= 0, d[1] >= d[0], d[2] >= d[1], d[3] >= d[2])
        return which, d

    def init(sim, which, d):
        ids = [sim.schedule(d[k], mark, (k,)) for k in range(4)]
        emit('cancelled', [sim.cancel(ids[k]) for k in which], [sim.cancel(ids[k]) for k in which])

    def actual(x):
        stats, ctx, ret = run_real(cancel_several.init, init_args=x)
        return stats.num_events_processed, stats.sim_time

    def expected(x):
        r = run_ref(cancel_several.init, init_args=x)
        return r[0], r[1]


class cancel_several_later(Case):
    """a handler cancels several events at once, also ones planned for now"""
    unroll = 8
    params = [(0, 1), (1, 2), (0, 1, 2), (2,)]

    def setup(*which):
        clock()
        d = (num('d1'), num('d2'), num('d3'))
        assume(d[0] >= 0, d[1] >= d[0], d[2] >= d[1])
        return which, d

    def killer(sim, which, ids):
        emit('cancelled', [sim.cancel(ids[k]) for k in which], [sim.cancel(ids[k]) for k in which])

    def init(sim, which, d):
        ids = []
        sim.schedule(d[0], cancel_several_later.killer, (which, ids))
        for k in range(3):
            ids.append(sim.schedule(d[k], mark, (k,)))
        sim.schedule(d[2], mark, ('end',))

    def actual(x):
        stats, ctx, ret = run_real(cancel_several_later.init, init_args=x)
        return stats.num_events_processed, stats.sim_time

    def expected(x):
        r = run_ref(cancel_several_later.init, init_args=x)
        return r[0], r[1]


class queue_several_cancelled(Case):
    """the queue counts live events whichever were cancelled, and hands out the live ones in order"""
    unroll = 7
    params = SUBSETS

    def setup(*which):
        t = (num('t1'), num('t2'), num('t3'), num('t4'))
        assume(t[0] < t[1], t[1] < t[2], t[2] < t[3])
        return which, t

    def actual(x):
        which, t = x
        q = EventQueue()
        ids = [q.push(t[k], ('task', k)) for k in (2, 0, 3, 1)]
        ids = [ids[1], ids[3], ids[0], ids[2]]
        out = []
        for k in which:
            q.cancel(ids[k])
            out.append((len(q), q.empty))
        for k in which:
            q.cancel(ids[k])
            out.append((len(q), q.empty))
        while not q.empty:
            got = q.pop()
            out.append((got[0], got[2], len(q), q.empty))
        return out

    def expected(x):
        which, t = x
        out = []
        n = 4
        for k in which:
            n = n - 1
            out.append((n, n == 0))
        for k in which:
            out.append((n, n == 0))
        for k in range(4):
            if k not in which:
                n = n - 1
                out.append((t[k], ('task', k), n, n == 0))
        return out


class stale(Case):
    """identifiers of events executed long ago stay dead, also when the queue was empty in between"""
    params = [1, 2, 3]
    unroll = 40

    def setup(n):
        clock()
        d = num('d')
        assume(d >= 0)
        return n, d

    def last(sim, old, n, d):
        emit('last', sim.time)
        fresh = []
        for k in range(n + 2):
            fresh.append(sim.schedule(d, mark, ('fresh', k)))
        for k in old:
            emit('stale', sim.cancel(k), k in fresh)

    def init(sim, n, d):
        old = []
        for k in range(n):
            old.append(sim.schedule(d, mark, ('old', k)))
        old.append(sim.schedule(d, stale.last, (old, n, d)))

    def actual(x):
        run_real(stale.init, init_args=x)

    def expected(x):
        run_ref(stale.init, init_args=x)


class crowd_cancelled(Case):
    """nearly all of many pending events are cancelled, the others stay and keep their order"""
    params = [(12, 5), (80, 7), (80, 1)]
    deep = [(300, 11)]
    unroll = 3000

    def setup(n, keep):
        clock()
        return n, keep

    def init(sim, n, keep):
        row = delays(2 * n, 1000)
        ids = []
        for k in range(n):
            ids.append(sim.schedule(row[k], mark, (k,)))
        for k in range(n):
            if k % keep or keep == 1:
                emit('cancelled', sim.cancel(ids[k]))
        for k in range(n):
            if k % 4 == 0:
                sim.schedule(row[n + k], mark, ('second', k))

    def actual(x):
        run_real(crowd_cancelled.init, init_args=x)

    def expected(x):
        run_ref(crowd_cancelled.init, init_args=x)


class shuffled_cancelled(Case):
    """rows of pushes, takes and cancellations in any order"""
    params = list(range(12))
    deep = list(range(12, 40))
    unroll = 900

    def setup(seed):
        return delays(80, 1000 if seed % 2 else 9, seed * 7919 + 5), 2 + seed % 3

    def actual(x):
        row, share = x
        q = EventQueue()
        ids = []
        for i, t in enumerate(row):
            ids.append(q.push(t, i))
            if i % 8 > 2:
                q.cancel(ids[row[-1 - i] % len(ids)])
            if i % 40 > 30:
                for k in range(len(ids)):
                    if k % share:
                        q.cancel(ids[k])
            if t % 7 == 0 and len(q):
                a = q.pop()
                emit('took', a[0], a[2], len(q))
        while len(q):
            a = q.pop()
            emit('took', a[0], a[2], len(q))

    def expected(x):
        row, share = x
        left = []

        def drop(n):
            for e in left:
                if e[1] == n:
                    left.remove(e)
                    break
        for i, t in enumerate(row):
            bisect.insort(left, (t, i))
            if i % 8 > 2:
                drop(row[-1 - i] % (i + 1))
            if i % 40 > 30:
                for k in range(i + 1):
                    if k % share:
                        drop(k)
            if t % 7 == 0 and left:
                a = left.pop(0)
                emit('took', a[0], a[1], len(left))
        while left:
            a = left.pop(0)
            emit('took', a[0], a[1], len(left))
