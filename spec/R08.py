"""Birth, motion and death of tags."""
import numpy as np
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import handlers
from pysim.models.rfid import objects
from spec.base import Case
from spec.rfid import *
from spec.R07 import at


def nursery(limit=-1, now=None, velocity=None):
    m, desk, r = field(2, False, num('now') if now is None else now)
    m.medium.forward = lambda reader, tag, time: None if reader.power is None else -10.0
    g = generator(0, limit)
    m.generators.append(g)
    return m, desk, r, g


def generator(k, limit=-1):
    g = objects.Generator()
    g.pos0 = np.array([num('x%d' % k), num('y%d' % k), num('z%d' % k)])
    g.velocity = num('v%d' % k)
    g.direction = np.array([0.0, 3.0, 4.0])
    g.tag_antenna_direction = np.array([num('a%d' % k), num('b%d' % k), num('c%d' % k)])
    g.travel_distance = num('way%d' % k)
    g.max_tags_generated = limit
    assume(g.velocity > 0, g.travel_distance > 0)
    return g


def intervals(g, name):
    """each call gives the next interval"""
    calls = []

    def nxt(a, b):
        calls.append((a, b))
        return num('%s %d' % (name, len(calls)))
    g.set_interval(nxt, 3, 4)
    return calls


class births(Case):
    """tags are created one interval after another, until the limit"""
    params = [(limit, n) for limit in (-1, -5, 1, 2, 3) for n in (1, 2, 3, 4)]

    def setup(limit, n):
        m, desk, r, g = nursery(limit)
        return m, desk, r, g, intervals(g, 'wait'), limit, n

    def actual(x):
        m, desk, r, g, calls, limit, n = x
        handlers.start_simulation(desk)
        for k in range(n):
            emit('next', desk.due(handlers.generate_tag))
            if len(desk.due(handlers.generate_tag)) > 0:
                desk.fire(handlers.generate_tag)
            emit('tags', len(m.tags), m.statistics.num_tags_created, g.num_tags_generated)
            emit('numbers', [t.tag_id for t in m.tags])

    def expected(x):
        m, desk, r, g, calls, limit, n = x
        t = num('now')
        born = 0
        over = False
        for k in range(n):
            t = t + num('wait %d' % (k + 1))
            emit('next', [] if over else [t])
            if limit < 0 or born < limit:
                born = born + 1
            else:
                over = True
            emit('tags', born, born, born)
            emit('numbers', list(range(born)))


class nobody(Case):
    """a limit of none creates none"""
    def setup():
        m, desk, r, g = nursery(0)
        return m, desk, g

    def actual(x):
        m, desk, g = x
        handlers.generate_tag(desk, g)
        emit('tags', len(m.tags), len(desk.pending), m.statistics.num_tags_created)

    def expected(x):
        emit('tags', 0, 0, 0)


class makeup(Case):
    """a tag has the settings of its generator, each its own"""
    params = [0, 1, 2]

    def setup(n):
        m, desk, r, g = nursery()
        g.antenna_gain = num('gain')
        g.cable_loss = num('cable')
        g.modulation_loss = num('loss')
        g.sensitivity = num('sensitivity')
        g.s1_persistence = num('p1')
        g.s2_persistence = num('p2')
        g.s3_persistence = num('p3')
        for k in range(n):
            handlers.generate_tag(desk, g)
        return m, desk, g, n

    def actual(x):
        m, desk, g, n = x
        handlers.generate_tag(desk, g)
        t = m.tags[-1]
        emit('place', list(t.pos), list(t.direction), t.velocity, t.last_pos_update)
        emit('antenna', list(t.antenna.pos), t.antenna.gain, t.antenna.cable_loss, list(t.antenna.direction_theta))
        emit('power', t.sensitivity, t.modulation_loss, t.power)
        emit('persistence', [t.persistence(s) for s in SESSIONS])
        emit('number', t.tag_id, t.kernel is desk, t.state.name)

    def expected(x):
        m, desk, g, n = x
        p = [num('x0'), num('y0'), num('z0')]
        emit('place', p, [0.0, 3.0, 4.0], num('v0'), num('now'))
        emit('antenna', p, num('gain'), num('cable'), [num('a0'), num('b0'), num('c0')])
        emit('power', num('sensitivity'), num('loss'), None)
        emit('persistence', [None, num('p1'), num('p2'), num('p3')])
        emit('number', n, True, 'OFF')


def counted(prefix, bitlen, k):
    n = -(-(bitlen - 4 * len(prefix)) // 4)
    out = ''
    for i in range(n):
        out = '0123456789ABCDEF'[k % 16] + out
        k = k // 16
    return prefix + out


class identifiers(Case):
    """identifiers have the prefix and length of the settings and are counted up"""
    params = [('AAAA', 96, 'AAAA', 64), ('E2', 96, 'E280', 48), ('', 16, 'BEEF', 128), ('AAAA', 32, 'ABCDE', 34), ('F', 15, 'A', 17)]

    def setup(epc, el, tid, tl):
        m, desk, r, g = nursery()
        g.epc_prefix = epc
        g.epc_bitlen = el
        g.tid_prefix = tid
        g.tid_bitlen = tl
        return m, desk, g, epc, el, tid, tl

    def actual(x):
        m, desk, g, epc, el, tid, tl = x
        for k in range(35):
            t = g.create_tag(m)
            emit('tag', t.tag_id, t.epc, t.tid)

    def expected(x):
        m, desk, g, epc, el, tid, tl = x
        for k in range(35):
            emit('tag', k, counted(epc, el, k), counted(tid, tl, k))


class carries(Case):
    """counting goes on from any suffix"""
    params = ['0', '9', 'E', '0F', '9F', 'FF0', '0FFF', 'A9FF', '12FE', '00FF00FF']

    def setup(s):
        return s

    def actual(s):
        emit('next', objects.inc_hex_string(s))

    def expected(s):
        out = ''
        carry = 1
        for i in range(len(s)):
            d = '0123456789ABCDEF'.index(s[len(s) - 1 - i]) + carry
            carry = d // 16
            out = '0123456789ABCDEF'[d % 16] + out
        emit('next', out)


class two_generators(Case):
    """generators work side by side; tag numbers are common, the counts are their own"""
    params = [(0, 1, 0), (1, 1, 0), (0, 1, 1), (1, 0, 0, 1)]

    def setup(*order):
        m, desk, r, g = nursery(3)
        h = generator(1, 2)
        h.epc_prefix = 'BBBB'
        m.generators.append(h)
        return m, desk, g, h, order

    def actual(x):
        m, desk, g, h, order = x
        for k in order:
            handlers.generate_tag(desk, h if k else g)
        emit('tags', [(t.tag_id, t.epc[:4], t.epc[-1], t.velocity) for t in m.tags])
        emit('counts', g.num_tags_generated, h.num_tags_generated, m.statistics.num_tags_created)

    def expected(x):
        m, desk, g, h, order = x
        c = [0, 0]
        out = []
        for i in range(len(order)):
            k = order[i]
            out.append((i, 'BBBB' if k else 'AAAA', '0123'[c[k]], num('v%d' % k)))
            c[k] = c[k] + 1
        emit('tags', out)
        emit('counts', c[0], c[1], c[0] + c[1])


class lifetimes(Case):
    """a tag lives for its way divided by its velocity, and is then removed, once"""
    params = [1, 2, 3]

    def setup(n):
        m, desk, r, g = nursery()
        intervals(g, 'wait')
        return m, desk, r, g, n

    def actual(x):
        m, desk, r, g, n = x
        desk.schedule(num('first'), handlers.generate_tag, (g,))
        for k in range(n):
            desk.fire(handlers.generate_tag)
        emit('ends', desk.due(handlers.remove_tag))
        tags = list(m.tags)
        for k in range(n):
            desk.fire(handlers.remove_tag)
            emit('left', [t.tag_id for t in m.tags])
            emit('done', m.num_tags_simulated)
        emit('ends', desk.due(handlers.remove_tag))

    def expected(x):
        m, desk, r, g, n = x
        t = num('now') + num('first')
        ends = []
        for k in range(n):
            ends.append(t + num('way0') / num('v0'))
            t = t + num('wait %d' % (k + 1))
        emit('ends', ends)
        for k in range(n):
            emit('left', list(range(k + 1, n)))
            emit('done', k + 1)
        emit('ends', [])


class removed_in_any_order(Case):
    """removing takes out that tag, and no other"""
    params = [(0, 1, 2), (1, 0, 2), (2, 1, 0), (2, 0, 1)]

    def setup(*order):
        m, desk, r, g = nursery()
        for k in range(3):
            handlers.generate_tag(desk, g)
        return m, desk, order

    def actual(x):
        m, desk, order = x
        tags = list(m.tags)
        for k in order:
            handlers.remove_tag(desk, tags[k])
            emit('left', [t.tag_id for t in m.tags])

    def expected(x):
        m, desk, order = x
        left = [0, 1, 2]
        for k in order:
            left = [i for i in left if i != k]
            emit('left', left)


class stopping(Case):
    """the run is stopped when the requested number of tags has been simulated, not before"""
    params = [None, 1, 2, 3, 4]

    def setup(limit):
        m, desk, r, g = nursery()
        m.max_tags_num = limit
        for k in range(3):
            handlers.generate_tag(desk, g)
        return m, desk, limit

    def actual(x):
        m, desk, limit = x
        emit('stopped', desk.stops > 0)
        for k in range(3):
            desk.fire(handlers.remove_tag)
            emit('stopped', desk.stops > 0)

    def expected(x):
        m, desk, limit = x
        for k in range(4):
            emit('stopped', limit is not None and k >= limit)


class on_the_way(Case):
    """a tag moves with its velocity along its direction, whatever makes the reader look at it"""
    params = [(), ('move',), ('move', 'move'), ('on',), ('on', 'response'), ('on', 'off'), ('move', 'on', 'move', 'off', 'move')]

    def setup(*events):
        draws(lambda: 0.5)
        m, desk, r, g = nursery()
        m.update_interval = num('update')
        r.power_on_duration = num('on')
        r.power_off_duration = num('off')
        return m, desk, r, g, events

    def actual(x):
        m, desk, r, g, events = x
        integers(lambda low, high: 0)
        m.transaction = None
        handlers.generate_tag(desk, g)
        t = m.tags[0]
        desk.schedule(num('first update'), handlers.update_positions)
        desk.schedule(num('switch on'), handlers.turn_reader_on, (r,))
        for e in events:
            if e == 'move':
                desk.fire(handlers.update_positions)
            elif e == 'on':
                desk.fire(handlers.turn_reader_on)
            elif e == 'response':
                desk.fire(handlers.update_power_at_response_start)
            else:
                desk.fire(handlers.turn_reader_off)
            s = (desk.now - num('now')) * num('v0')
            emit('place', t.pos[0] == num('x0'), t.pos[1] == num('y0') + 0.6 * s, t.pos[2] == num('z0') + 0.8 * s)
        emit('start', list(g.pos0), list(g.direction))

    def expected(x):
        m, desk, r, g, events = x
        for e in events:
            emit('place', True, True, True)
        emit('start', [num('x0'), num('y0'), num('z0')], [0.0, 3.0, 4.0])


class every_tag(Case):
    """tags of different birth, velocity and direction move each its own way, from the common start"""
    params = [1, 2, 3]

    def setup(n):
        m, desk, r, g = nursery()
        intervals(g, 'wait')
        m.update_interval = num('update')
        return m, desk, g, n

    def actual(x):
        m, desk, g, n = x
        desk.schedule(num('first'), handlers.generate_tag, (g,))
        desk.schedule(0, handlers.update_positions)
        for k in range(n):
            desk.fire(handlers.generate_tag)
            t = m.tags[-1]
            emit('born', list(t.pos))
            if k == 1:
                t.velocity = num('other v')
                t.direction = np.array([-1.0, 0.0, 0.0])
            desk.now = num('moment %d' % k)
            handlers.update_positions(desk)
        for t in m.tags:
            emit('place', list(t.pos))

    def expected(x):
        m, desk, g, n = x
        birth = num('now') + num('first')
        last = num('moment %d' % (n - 1))
        p = [num('x0'), num('y0'), num('z0')]
        for k in range(n):
            emit('born', p)
        births = []
        b = birth
        for k in range(n):
            births.append(b)
            b = num('moment %d' % k) if False else b + num('wait %d' % (k + 1))
        for k in range(n):
            s = (last - births[k])
            if k == 1:
                emit('place', [p[0] - num('other v') * s, p[1], p[2]])
            else:
                emit('place', [p[0], p[1] + 0.6 * num('v0') * s, p[2] + 0.8 * num('v0') * s])


class any_direction(Case):
    """only the direction counts, not its length"""
    params = [(1.0, 0.0, 0.0), (0.0, -2.0, 0.0), (2.0, 3.0, 6.0), (-0.2, 0.4, -0.4)]

    def setup(*d):
        m, desk, r, g = nursery()
        g.direction = np.array(list(d))
        return m, desk, g, d

    def actual(x):
        m, desk, g, d = x
        handlers.generate_tag(desk, g)
        desk.now = num('now') + num('later')
        handlers.update_positions(desk)
        emit('place', [rounded(p, 9) for p in m.tags[0].pos])

    def expected(x):
        m, desk, g, d = x
        length = (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]) ** 0.5
        p = [num('x0'), num('y0'), num('z0')]
        emit('place', [rounded(p[k] + d[k] / length * num('v0') * num('later'), 9) for k in range(3)])


class updates(Case):
    """positions are updated again and again, one interval apart; at each update the tags get the power of the moment"""
    params = [0, 1, 2]

    def setup(n):
        m, desk, r, g = nursery()
        m.update_interval = num('update')
        r.turn_on()
        for k in range(n):
            handlers.generate_tag(desk, g)
        m.medium.forward = lambda reader, tag, time: 1.0 + tag.tag_id + time
        assume(num('now') > 0, num('update') > 0)
        return m, desk, n

    def actual(x):
        m, desk, n = x
        desk.schedule(m.update_interval, handlers.update_positions)
        for k in range(4):
            emit('next', desk.due(handlers.update_positions))
            desk.fire(handlers.update_positions)
            emit('power', [t.power for t in m.tags])

    def expected(x):
        m, desk, n = x
        for k in range(4):
            t = num('now') + (k + 1) * num('update')
            emit('next', [t])
            emit('power', [1.0 + i + t for i in range(n)])


class power_at_birth(Case):
    """a new tag has the power of its place at once"""
    def setup():
        m, desk, r, g = nursery()
        r.turn_on()
        m.medium.forward = lambda reader, tag, time: -1.0 - tag.pos[0] - time
        assume(num('now') > 0, num('now') < 1, num('x0') > 0, num('x0') < 1)
        return m, desk, g

    def actual(x):
        m, desk, g = x
        handlers.generate_tag(desk, g)
        emit('tag', m.tags[0].power, m.tags[0].state.name)

    def expected(x):
        emit('tag', -1.0 - num('x0') - num('now'), 'READY')
