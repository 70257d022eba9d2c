"""Transactions in time, power cycles of the reader and antenna switching."""
import numpy as np
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import handlers
from pysim.models.rfid import objects
from spec.base import Case
from spec.rfid import *

DR = (std.DivideRatio.DR_8, std.DivideRatio.DR_643)
KINDS = ('QUERY', 'QREP', 'QAdjust', 'ACK', 'REQRN', 'READ')


def reader_with(state, dr=std.DivideRatio.DR_8, temp=std.TempRange.NOMINAL, now=0, q=3):
    """a reader with arbitrary symbol times, its command in the given state"""
    m, desk, r = field(q, True, now)
    r.tari = num('tari')
    r.rtcal = num('rtcal')
    r.trcal = num('trcal')
    r.delim = num('delim')
    r.dr = dr
    r.temp = temp
    drive(r, state, 77)
    r.set_state(r.state) if state not in ('OFF',) else None
    return m, desk, r


def times():
    assume(num('tari') > 0, num('rtcal') > num('tari') * 2, num('trcal') > num('rtcal'), num('delim') > 0)


def command_of(r):
    """the command of the current state"""
    return r.set_state(r.state)


def pulses(r, f):
    """length of the command on the air"""
    bits = f.command.encode()
    ones = bits.count('1')
    start = r.delim + r.tari + r.rtcal
    if isinstance(f.command, std.Query):
        start = start + r.trcal
    return start + (len(bits) - ones) * r.tari + ones * (r.rtcal - r.tari)


def tolerance(r):
    """of the link frequency, for the arguments used here"""
    return std.get_frt(r.trcal, r.dr, r.temp)


def t1(r, sign):
    pri = r.trcal / ratio(r.dr)
    return max(r.rtcal, 10 * pri) * (1 + sign * tolerance(r)) + sign * 2e-6


def bits_of(reply):
    if isinstance(reply, std.QueryReply):
        return 16
    if isinstance(reply, std.ReqRNReply):
        return 32
    if isinstance(reply, std.AckReply):
        return 32 + 16 * len(reply.get_epc_string()) // 4
    return 33 + 16 * len(reply.get_memory_string()) // 4


def answer(desk, number, reply, dr, trcal, m, trext):
    """a tag that listened to a Query with these parameters, and its reply"""
    t = somewhere(objects.Tag(number, desk))
    t.set_power(0.0, -10.0)
    d = Dice([0, 1000 + number])
    integers(d.draw)
    t.receive(query_frame(std.Query(dr, m, trext, std.SelFlag.ALL, std.Session.S0, std.InventoryFlag.A, 0), trcal))
    return t, std.TagFrame(std.create_tag_preamble(m, trext), reply)


def look(t):
    emit('command', t.start_time, t.command_duration, t.command_end_time)
    emit('reply', t.reply_start_time, t.reply_duration, t.reply_end_time)
    emit('length', t.duration)
    emit('end', t.finish_time)


def look_like(now, command, start, reply, length):
    emit('command', now, command, now + command)
    emit('reply', None if reply is None else now + command + start, reply, None if reply is None else now + command + start + reply)
    emit('length', length)
    emit('end', now + length)


class replied(Case):
    """with a reply: command, T1, reply, T2, at least command and T4; the reply starts T1 after the command"""
    params = [(s, d, e, m, x) for s in KINDS for d in (0, 1) for e in ('nominal', 'extended')
              for m, x in ((std.TagEncoding.FM0, False), (std.TagEncoding.M8, True))
              if s in ('QUERY', 'QREP') or d == 1 and e == 'nominal']

    def setup(state, d, e, enc, trext):
        times()
        m, desk, r = reader_with(state, DR[d], std.TempRange.EXTENDED if e == 'extended' else std.TempRange.NOMINAL)
        return m, desk, r, d, enc, trext, num('now')

    def actual(x):
        m, desk, r, d, enc, trext, now = x
        a = answer(desk, 1, std.QueryReply(5), DR[d], num('tag trcal'), enc, trext)
        look(objects.Transaction(m.medium, r, command_of(r), [a], now))

    def expected(x):
        m, desk, r, d, enc, trext, now = x
        c = pulses(r, command_of(r))
        reply = tag_time(16, DR[d], num('tag trcal'), enc, trext)
        t2 = 20 * r.trcal / ratio(r.dr)
        look_like(now, c, t1(r, -1), reply, max(c + t1(r, -1) + reply + t2, c + 2 * r.rtcal))


def some_replies(which):
    rate = ((std.DivideRatio.DR_8, 30e-6), (std.DivideRatio.DR_643, 60e-6))
    enc = ((std.TagEncoding.FM0, False), (std.TagEncoding.M4, True), (std.TagEncoding.M2, False))
    content = {'n': std.QueryReply(5), 'e': std.AckReply('E200341201'), 'h': std.ReqRNReply(9), 'm': std.ReadReply('0123456789ABCDEF', rn=4)}
    out = []
    for k in range(len(which)):
        out.append((content[which[k]],) + rate[k % 2] + enc[k % 3])
    return out


class longest(Case):
    """of several replies the longest counts, each at the rate and in the encoding of its tag"""
    params = ['n', 'nn', 'nnn', 'e', 'h', 'm', 'en', 'ne', 'hm', 'mh', 'nem', 'men', 'enm', 'nenmh']

    def setup(which):
        times()
        m, desk, r = reader_with('QUERY')
        return m, desk, r, some_replies(which), num('now')

    def actual(x):
        m, desk, r, rs, now = x
        a = []
        for k in range(len(rs)):
            a.append(answer(desk, k, *rs[k]))
        look(objects.Transaction(m.medium, r, command_of(r), a, now))

    def expected(x):
        m, desk, r, rs, now = x
        reply = 0
        for c, dr, trcal, enc, trext in rs:
            reply = max(reply, tag_time(bits_of(c), dr, trcal, enc, trext))
        c = pulses(r, command_of(r))
        t2 = 20 * r.trcal / ratio(r.dr)
        look_like(now, c, t1(r, -1), reply, max(c + t1(r, -1) + reply + t2, c + 2 * r.rtcal))


class silent(Case):
    """without reply: command, longest T1, T3"""
    params = [(s, d, e) for s in KINDS for d in (0, 1) for e in ('nominal', 'extended')]

    def setup(state, d, e):
        times()
        m, desk, r = reader_with(state, DR[d], std.TempRange.EXTENDED if e == 'extended' else std.TempRange.NOMINAL)
        return m, desk, r, num('now')

    def actual(x):
        m, desk, r, now = x
        look(objects.Transaction(m.medium, r, command_of(r), [], now))

    def expected(x):
        m, desk, r, now = x
        c = pulses(r, command_of(r))
        look_like(now, c, 0, None, c + t1(r, 1))


class Scripted(objects.Tag):
    """a tag that answers by a script; commands are announced"""
    def set_script(self, script, tell=False):
        self.script = list(script)
        self.tell = tell

    def receive(self, frame):
        if self.tell:
            emit('heard', self.tag_id, frame.command.encode()[:4])
        what = self.script.pop(0) if len(self.script) > 0 else None
        if what is None:
            return None
        return tag_frame(what)


def scripted(m, desk, number, script, tell=False):
    t = Scripted(number, desk)
    t.pos = np.array([0.0, 1.0, 2.0])
    t.velocity = 2.0
    t.direction = np.array([0.0, 1.0, 0.0])
    t.last_pos_update = desk.now
    t.set_script(script, tell)
    m.tags.append(t)
    m.statistics.create_tag_record(t)
    return t


def start(scripts, antennas=1, tell=False, mode='PERIODIC'):
    draws(lambda: 0.5)
    assume(num('on') > 0, num('off') > 0, num('antenna time') > 0)
    m, desk, r = field(2, False, num('now'), antennas)
    m.medium.forward = lambda reader, tag, time: -10.0
    m.medium.backward = lambda reader, tag, time: -60.0
    r.power_on_duration = num('on')
    r.power_off_duration = num('off')
    r.antenna_switch_interval = num('antenna time')
    if mode == 'ALWAYS_ON':
        r.power_control_mode = r.PowerControlMode.ALWAYS_ON
    k = 0
    for s in scripts:
        scripted(m, desk, k, s, tell)
        k = k + 1
    return m, desk, r


def at(desk, handler, *expected):
    """is the handler planned at exactly these times?"""
    return desk.due(handler) == list(expected)


EVENTS = (handlers.finish_transaction, handlers.update_power_at_response_start, handlers.turn_reader_off,
          handlers.turn_reader_on, handlers.switch_reader_antenna)


def pending(m, desk):
    """what is planned for the open transaction"""
    t = m.transaction
    emit('finish', at(desk, handlers.finish_transaction, t.finish_time))
    if t.reply_start_time is None:
        emit('response', at(desk, handlers.update_power_at_response_start))
    else:
        emit('response', at(desk, handlers.update_power_at_response_start, t.reply_start_time))
    emit('begun', t.start_time == desk.now)


N = std.QueryReply(5)


class switching_on(Case):
    """the first command is sent at once; its transaction and the switching off are planned"""
    params = [(mode, n, a) for mode in ('PERIODIC', 'ALWAYS_ON') for n in (0, 1, 2, 3) for a in (1, 2)]

    def setup(mode, n, antennas):
        return start([[N] if k < n else [] for k in range(3)], antennas, True, mode), mode, n, antennas

    def actual(x):
        (m, desk, r), mode, n, antennas = x
        handlers.turn_reader_on(desk, r)
        emit('reader', r.state.name, r.power)
        emit('tags', len(m.transaction.replies))
        pending(m, desk)
        emit('off', desk.due(handlers.turn_reader_off))
        emit('antenna', desk.due(handlers.switch_reader_antenna))
        emit('all', len(desk.pending))

    def expected(x):
        (m, desk, r), mode, n, antennas = x
        for k in range(3):
            emit('heard', k, '1000')
        emit('reader', 'QUERY', 31.5)
        emit('tags', n)
        for s in ('finish', 'response', 'begun'):
            emit(s, True)
        emit('off', [num('now') + num('on')] if mode == 'PERIODIC' else [])
        emit('antenna', [num('now') + num('antenna time')] if antennas > 1 else [])
        emit('all', 1 + (1 if n > 0 else 0) + (1 if mode == 'PERIODIC' else 0) + (1 if antennas > 1 else 0))


class course(Case):
    """at the end of a transaction exactly one command follows, whatever the answers, and all tags hear it"""
    params = [(a, b, c) for a in range(3) for b in range(3) for c in range(3)]
    deep = [(a, b, c, d) for a in range(3) for b in range(3) for c in range(3) for d in range(3)]

    def setup(*numbers):
        return start([[N if n > k else None for n in numbers] for k in range(2)], 1, True, 'ALWAYS_ON'), numbers

    def actual(x):
        (m, desk, r), numbers = x
        m.medium.ber = lambda snr: 1.0
        handlers.turn_reader_on(desk, r)
        for n in numbers:
            emit('tags', len(m.transaction.replies))
            pending(m, desk)
            emit('all', len(desk.pending))
            if n > 0:
                desk.fire(handlers.update_power_at_response_start)
            emit('all', len(desk.pending))
            desk.fire(handlers.finish_transaction)
        emit('all', len(desk.pending))

    def expected(x):
        (m, desk, r), numbers = x
        k = 0
        for n in numbers:
            for t in (0, 1):
                emit('heard', t, '1000' if k % 4 == 0 else '0000')
            emit('tags', n)
            for s in ('finish', 'response', 'begun'):
                emit(s, True)
            emit('all', 2 if n > 0 else 1)
            emit('all', 1)
            k = k + 1
        for t in (0, 1):
            emit('heard', t, '1000' if k % 4 == 0 else '0000')
        emit('all', 1)


class acknowledging(Case):
    """an exchange consists of one transaction per command"""
    def setup():
        return start([[N, std.AckReply('E200'), None, None]], 1, True, 'ALWAYS_ON')

    def actual(x):
        m, desk, r = x
        handlers.turn_reader_on(desk, r)
        for k in range(3):
            pending(m, desk)
            emit('state', r.state.name)
            if m.transaction.reply_start_time is not None:
                desk.fire(handlers.update_power_at_response_start)
            desk.fire(handlers.finish_transaction)

    def expected(x):
        for s, c in (('QUERY', '1000'), ('ACK', '0100'), ('QREP', '0000')):
            emit('heard', 0, c)
            for e in ('finish', 'response', 'begun'):
                emit(e, True)
            emit('state', s)
        emit('heard', 0, '0000')


class switching_off(Case):
    """switching off closes the transaction, drops its events and the antenna switching, keeps other events, and plans switching on"""
    params = [(a, n, b, c) for a in (1, 2, 3) for n in (0, 1, 2) for b in (0, 1) for c in (0, 1) if (b == 0 or n > 0) and (c == 0 or a > 1)]

    def setup(antennas, n, begun, switched):
        m, desk, r = start([[N] if k < n else [] for k in range(2)], antennas)
        desk.schedule(num('a'), handlers.update_positions)
        desk.schedule(num('b'), handlers.remove_tag, (m.tags[0],))
        return m, desk, r, begun, switched

    def actual(x):
        m, desk, r, begun, switched = x
        handlers.turn_reader_on(desk, r)
        desk.schedule(num('c'), handlers.remove_tag, (m.tags[1],))
        if begun:
            desk.fire(handlers.update_power_at_response_start)
        if switched:
            desk.fire(handlers.switch_reader_antenna)
        m.medium.forward = lambda reader, tag, time: None if reader.power is None else -10.0
        desk.fire(handlers.turn_reader_off)
        emit('transaction', m.transaction is None)
        emit('reader', r.state.name, r.power)
        emit('tags', [t.power for t in m.tags])
        emit('on', desk.due(handlers.turn_reader_on))
        emit('moves', desk.due(handlers.update_positions))
        emit('ends', desk.due(handlers.remove_tag))
        emit('all', len(desk.pending))

    def expected(x):
        m, desk, r, begun, switched = x
        emit('transaction', True)
        emit('reader', 'OFF', None)
        emit('tags', [None, None])
        off = num('now') + num('on') + num('off')
        emit('on', [off])
        emit('moves', [num('now') + num('a')])
        emit('ends', [num('now') + num('b'), num('now') + num('c')])
        emit('all', 4)


class cycles(Case):
    """on and off again and again; each time starts anew"""
    params = [(a, n) for a in (1, 2) for n in (0, 1)]

    def setup(antennas, n):
        return start([[N] * 3 if k < n else [] for k in range(1)], antennas), antennas, n

    def actual(x):
        (m, desk, r), antennas, n = x
        handlers.turn_reader_on(desk, r)
        for k in range(3):
            emit('on', r.state.name, desk.now)
            pending(m, desk)
            emit('round', r.inventory_round.index, r.inventory_round.slot.index)
            emit('all', len(desk.pending))
            desk.fire(handlers.turn_reader_off)
            emit('off', r.state.name, desk.now)
            emit('all', len(desk.pending))
            desk.fire(handlers.turn_reader_on)

    def expected(x):
        (m, desk, r), antennas, n = x
        now = num('now')
        for k in range(3):
            emit('on', 'QUERY', now)
            for s in ('finish', 'response', 'begun'):
                emit(s, True)
            emit('round', k, 0)
            emit('all', 2 + (1 if n > 0 else 0) + (1 if antennas > 1 else 0))
            now = now + num('on')
            emit('off', 'OFF', now)
            emit('all', 1)
            now = now + num('off')


class antennas_in_turn(Case):
    """antennas are used in turn, each for the switching interval"""
    params = [2, 3, 4]

    def setup(antennas):
        return start([], antennas), antennas

    def actual(x):
        (m, desk, r), antennas = x
        handlers.turn_reader_on(desk, r)
        for k in range(2 * antennas + 1):
            emit('antenna', r.antenna_index, r.antenna is r.get_antenna(r.antenna_index), desk.due(handlers.switch_reader_antenna))
            desk.fire(handlers.switch_reader_antenna)

    def expected(x):
        (m, desk, r), antennas = x
        for k in range(2 * antennas + 1):
            emit('antenna', k % antennas, True, [num('now') + (k + 1) * num('antenna time')])


class first_antenna(Case):
    """switching on starts with the first antenna if so configured"""
    params = [(a, f, k) for a in (2, 3) for f in (True, False) for k in (1, 2, 3)]

    def setup(antennas, first, k):
        m, desk, r = start([], antennas)
        r.always_start_with_first_antenna = first
        return m, desk, r, antennas, first, k

    def actual(x):
        m, desk, r, antennas, first, k = x
        handlers.turn_reader_on(desk, r)
        for i in range(k):
            desk.fire(handlers.switch_reader_antenna)
        desk.fire(handlers.turn_reader_off)
        desk.fire(handlers.turn_reader_on)
        emit('antenna', r.antenna_index, len(desk.due(handlers.switch_reader_antenna)))

    def expected(x):
        m, desk, r, antennas, first, k = x
        emit('antenna', 0 if first else k % antennas, 1)


class powers(Case):
    """tags get the power of the moment: at switching on before the first command, at the start of replies, at switching off"""
    params = [0, 1, 2, 3]

    def setup(n):
        m, desk, r = start([[N] if k < n else [] for k in range(3)])
        m.medium.forward = lambda reader, tag, time: None if reader.power is None else -10.0 - tag.tag_id - time
        assume(num('now') > 0, num('now') < 1, num('on') < 1, num('off') < 1)
        return m, desk, r, n

    def actual(x):
        m, desk, r, n = x
        m.medium.ber = lambda snr: 1.0
        handlers.turn_reader_on(desk, r)
        emit('on', [t.power for t in m.tags])
        if n > 0:
            desk.fire(handlers.update_power_at_response_start)
            now = desk.now
            emit('response', [t.power == -10.0 - t.tag_id - now for t in m.tags])
        desk.fire(handlers.turn_reader_off)
        emit('off', [t.power for t in m.tags])

    def expected(x):
        m, desk, r, n = x
        emit('on', [-10.0 - k - num('now') for k in range(3)])
        if n > 0:
            emit('response', [True] * 3)
        emit('off', [None] * 3)


class reader_powers(Case):
    """the power of a reply at the reader is that of the last moment it was estimated"""
    params = [1, 2]

    def setup(n):
        m, desk, r = start([[N] if k < n else [] for k in range(3)])
        m.medium.backward = lambda reader, tag, time: -60.0 - tag.tag_id - time
        return m, desk, r, n

    def actual(x):
        m, desk, r, n = x
        handlers.turn_reader_on(desk, r)
        t = m.transaction
        power = t.reader_rx_power_map
        emit('start', [power.get(g) for g in m.tags])
        desk.fire(handlers.update_power_at_response_start)
        now = t.reply_start_time
        emit('response', [power.get(g) == -60.0 - g.tag_id - now if k < n else power.get(g) is None for k, g in enumerate(m.tags)])

    def expected(x):
        m, desk, r, n = x
        emit('start', [-60.0 - k - num('now') if k < n else None for k in range(3)])
        emit('response', [True] * 3)


class waiting_order(Case):
    """a transaction that is not the open one cannot end"""
    def setup():
        return start([[N]])

    def actual(x):
        m, desk, r = x
        handlers.turn_reader_on(desk, r)
        handlers.finish_transaction(desk, objects.Transaction(m.medium, r, r.set_state(r.state), [], desk.now))

    def expected(x):
        raise AssertionError()


class beginning(Case):
    """a simulation begins with the reader switched on at once and the positions updated after one interval"""
    params = [0, 1, 2]

    def setup(n):
        m, desk, r = start([])
        m.update_interval = num('update')
        r.kernel = None
        for k in range(n):
            g = objects.Generator()
            g.set_interval(lambda a: a, num('birth %d' % k))
            m.generators.append(g)
        return m, desk, r, n

    def actual(x):
        m, desk, r, n = x
        handlers.start_simulation(desk)
        emit('on', desk.due(handlers.turn_reader_on))
        emit('move', desk.due(handlers.update_positions))
        emit('birth', desk.due(handlers.generate_tag))
        emit('all', len(desk.pending))
        desk.fire(handlers.turn_reader_on)
        emit('reader', r.state.name)

    def expected(x):
        m, desk, r, n = x
        emit('on', [num('now')])
        emit('move', [num('now') + num('update')])
        emit('birth', [num('now') + num('birth %d' % k) for k in range(n)])
        emit('all', 2 + n)
        emit('reader', 'QUERY')
