"""Tag-time: each attempt costs its state's time, and the run ends on time."""
import random
from pysim.models.tag_time.handlers import finalize, initialize
from pysim.models.tag_time.model import Packet
from spec.base import Case
from spec.ping import Watch
from spec.refsim import run_real
from spec.tagchain import config

STATES = ('arbitrate', 'reply', 'acknowledged', 'secured', 'chunk')


def started(c):
    w = Watch(None)
    initialize(w, c)
    w.pending = []
    return w


def state(m, which, chunk=0):
    return m.secured[chunk] if which == 'chunk' else getattr(m, which)


class attempt(Case):
    """an attempt in any state takes the time of that state, whether it succeeds or not"""
    params = [(s, k, j) for s in (1, 2, 3) for k in range(4) for j in (0, 1)]

    def setup(scenario, k, j):
        return config(scenario, 2, timed=True), k, j

    def actual(x):
        c, k, j = x
        w = started(c)
        m = w.context
        if c.scenario == 3:
            m.chunks_passed = j + 1 if k == 3 else 0
        name = 'chunk' if c.scenario == 3 and k == 3 else STATES[k]
        state(m, name, j).handle_timeout(w, Packet(present_state=k, number=5))
        delay, handler, args, number = w.pending[0]
        emit('attempt', len(w.pending), delay)

    def expected(x):
        c, k, j = x
        random.random()
        emit('attempt', 1, c.processing_time[k])


class arrival(Case):
    """entering a state takes no time: its first attempt begins at once"""
    params = [(s, k, j) for s in (1, 2, 3) for k in range(5) for j in (0, 1)]

    def setup(scenario, k, j):
        return config(scenario, 2, timed=True), k, j

    def actual(x):
        c, k, j = x
        w = started(c)
        m = w.context
        m.look = None
        w.look = arrival.nothing
        if k == 4:
            s = m.final
        else:
            s = state(m, 'chunk' if c.scenario == 3 and k == 3 else STATES[k], j)
        if c.scenario == 3 and k == 3:
            m.chunks_passed = j
        s.handle_receive(w, Packet(present_state=0, number=5))
        w.run(1)

    def nothing(model):
        return None

    def expected(x):
        c, k, j = x
        t = c.processing_time[k % 4]
        random.random()
        emit('wait', t, None)
        emit('end', False, t, None)


class start(Case):
    """the run begins with an attempt in the first state"""
    params = [1, 2, 3]

    def setup(scenario):
        return config(scenario, 2, timed=True)

    def actual(c):
        w = Watch(lambda model: model.num_transmissions)
        initialize(w, c)
        w.run(1)

    def expected(c):
        random.random()
        emit('wait', c.processing_time[0], 0)
        emit('end', False, c.processing_time[0], None)


class last(Case):
    """an attempt is made below the requested number of transmissions, and the run is stopped instead from it on"""
    params = [(s, k, j) for s in (1, 2, 3) for k in range(4) for j in (0, 1)]

    def setup(scenario, k, j):
        return config(scenario, 2, opt(nat('limit')), timed=True), k, j, nat('done')

    def actual(x):
        c, k, j, done = x
        w = started(c)
        m = w.context
        if c.scenario == 3:
            m.chunks_passed = j + 1 if k == 3 else 0
        m.num_transmissions = done
        name = 'chunk' if c.scenario == 3 and k == 3 else STATES[k]
        state(m, name, j).handle_timeout(w, Packet(present_state=k, number=5))
        if w.stopped:
            emit('stop', m.num_transmissions)
        else:
            emit('attempt', len(w.pending), w.pending[0][0])

    def expected(x):
        c, k, j, done = x
        if c.max_transmisions is None or done < c.max_transmisions:
            random.random()
            emit('attempt', 1, c.processing_time[k])
        else:
            emit('stop', done)


class own_values(Case):
    """each state has its own probability and time"""
    params = [1, 2, 3]

    def setup(scenario):
        return config(scenario, 3, timed=True)

    def actual(c):
        m = started(c).context
        for k in range(3):
            s = getattr(m, STATES[k])
            emit('state', k, s.probability, s.interval)
        for s in (m.secured if c.scenario == 3 else [m.secured]):
            emit('state', 3, s.probability, s.interval)

    def expected(c):
        for k in range(3):
            emit('state', k, c.probability[k], c.processing_time[k])
        for j in range(3 if c.scenario == 3 else 1):
            emit('state', 3, c.probability[3], c.processing_time[3])


class whole(Case):
    """a run without failures lasts the requested number of transmissions, each with the time of all states"""
    params = [(1, 1, 1), (1, 1, 3), (2, 1, 2), (3, 1, 2), (3, 2, 2), (3, 4, 1)]
    unroll = 60

    def setup(scenario, chunks, limit):
        return config(scenario, chunks, limit, sure=(0, 1, 2, 3), timed=True)

    def actual(c):
        stats, context, result = run_real(initialize, init_args=(c,), fin=finalize)
        emit('end', stats.sim_time, context.num_transmissions)

    def expected(c):
        t = c.processing_time
        chunks = c.chunks_number if c.scenario == 3 else 1
        emit('end', c.max_transmisions * (t[0] + t[1] + t[2] + chunks * t[3]), c.max_transmisions)
