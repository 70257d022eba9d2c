"""Statistics of rounds, reads and powers."""
import numpy as np
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import handlers
from pysim.models.rfid import objects
from spec.base import Case
from spec.rfid import *
from spec.R07 import scripted, start

NUMBER = std.QueryReply(0x1234)
IDENTIFIER = std.AckReply('E200341201')
HANDLE = std.ReqRNReply(0x77)
MEMORY = std.ReadReply('0123456789ABCDEF', rn=4)


def look_read(x):
    emit('read', x.round_index, x.antenna_index, x.read_tid)
    emit('place', list(x.tag_pos), list(x.reader_antenna_pos))
    emit('quality', x.snr, x.ber)


def look_reads(record):
    emit('reads', len(record.inventory_history))
    for x in record.inventory_history:
        look_read(x)


class records(Case):
    """each tag has one record from birth to removal, which is then in the history"""
    params = [(), (0,), (1, 0), (0, 2, 1), (2, 1, 0), (1,)]

    def setup(*order):
        m, desk, r = field(2, False, num('now'))
        g = objects.Generator()
        g.pos0 = np.array([num('x'), num('y'), num('z')])
        g.tag_antenna_direction = np.array([0.0, 0.0, 1.0])
        m.generators.append(g)
        return m, desk, g, order

    def actual(x):
        m, desk, g, order = x
        for k in range(3):
            handlers.generate_tag(desk, g)
        emit('created', m.statistics.num_tags_created)
        tags = list(m.tags)
        recs = [m.statistics.get_tag_record(t) for t in tags]
        emit('own', [s.tag is t for s, t in zip(recs, tags)])
        emit('new', [(s.num_rounds_attained, len(s.inventory_history), len(s.power_mapping) < 2) for s in recs])
        emit('history', len(m.statistics.tags_history))
        for k in order:
            handlers.remove_tag(desk, tags[k])
            emit('history', [s.tag.tag_id for s in m.statistics.tags_history])
            emit('closed', m.statistics.tags_history[-1] is recs[k])
            emit('current', [m.statistics.get_tag_record(t) is s for t, s in zip(tags, recs)])
        emit('created', m.statistics.num_tags_created)

    def expected(x):
        m, desk, g, order = x
        emit('created', 3)
        emit('own', [True, True, True])
        emit('new', [(0, 0, True), (0, 0, True), (0, 0, True)])
        emit('history', 0)
        gone = []
        for k in order:
            gone.append(k)
            emit('history', list(gone))
            emit('closed', True)
            emit('current', [i not in gone for i in range(3)])
        emit('created', 3)


def crowd(kinds):
    """tags that are out of reach, have been read before, wait or answer"""
    m, desk, r = field(2, False, num('now'))
    r.power_control_mode = r.PowerControlMode.ALWAYS_ON
    assume(num('now') > 0)
    m.medium.forward = lambda reader, tag, time: None if kinds[tag.tag_id] == 'off' or reader.power is None else -5.0
    m.medium.ber = lambda snr: 1.0
    draws(lambda: 0.5)
    k = 0
    for kind in kinds:
        t = objects.Tag(k, desk)
        t.pos = np.array([num('x%d' % k), num('y%d' % k), num('z%d' % k)])
        t.velocity = 0.0
        t.direction = np.array([0.0, 1.0, 0.0])
        t.last_pos_update = desk.now
        t.epc = 'E2003412'
        m.tags.append(t)
        m.statistics.create_tag_record(t)
        k = k + 1
    return m, desk, r


class rounds(Case):
    """at each Query a round is counted for each tag taking part in it, whatever it does there, and at no other command"""
    params = [('off',), ('skip',), ('wait',), ('answer',), ('off', 'skip', 'wait', 'answer'), ('answer', 'answer', 'wait'), ('wait', 'skip'),
              ('answer', 'off'), ()]

    def setup(*kinds):
        m, desk, r = crowd(kinds)
        return m, desk, r, kinds

    def actual(x):
        m, desk, r, kinds = x
        for n in range(9):
            dice = Dice([])
            if n % 4 == 0:
                # slots at Query
                values = []
                for k in kinds:
                    if k == 'wait':
                        values.append(2)
                    elif k == 'answer':
                        values.append(0)
                        values.append(99)
                dice = Dice(values)
            elif n % 4 == 2:
                dice = Dice([99 for k in kinds if k == 'wait'])
            integers(dice.draw)
            if n == 0:
                desk.schedule(0, handlers.turn_reader_on, (r,))
                # tags get their power, and only then their flags
                for k in range(len(kinds)):
                    if kinds[k] != 'off':
                        m.tags[k].set_power(desk.now, -5.0)
                        if kinds[k] == 'skip':
                            m.tags[k].sessions[std.Session.S0] = std.InventoryFlag.B
                desk.fire(handlers.turn_reader_on)
            else:
                desk.fire(handlers.finish_transaction)
            emit('rounds', [m.statistics.get_tag_record(t).num_rounds_attained for t in m.tags])

    def expected(x):
        m, desk, r, kinds = x
        for n in range(9):
            emit('rounds', [0 if k in ('off', 'skip') else 1 + n // 4 for k in kinds])


def reading(scripts, read=True, ends=(), antennas=1, q=2):
    """tags answering by script; which replies arrive is set by ends"""
    m, desk, r = field(q, read, num('now'), antennas)
    r.power_control_mode = r.PowerControlMode.ALWAYS_ON
    assume(num('now') > 0, num('chance') > 0, num('chance') < 1)
    draws(lambda: num('chance'))
    m.statistics.use_power_statistics = False
    m.medium.forward = lambda reader, tag, time: -10.0
    m.medium.backward = lambda reader, tag, time: -60.0
    m.medium.snr = lambda reader, tag, time: 10.0 + tag.tag_id + time
    k = 0
    for s in scripts:
        t = scripted(m, desk, k, s)
        t.pos = np.array([num('x%d' % k), num('y%d' % k), num('z%d' % k)])
        t.velocity = num('v%d' % k)
        k = k + 1
    return m, desk, r


SHORT = ([NUMBER, IDENTIFIER],)
LONG = ([NUMBER, IDENTIFIER, HANDLE, MEMORY],)


class reads(Case):
    """an identifier received opens a record, memory marks it, and the end of the slot puts it into the history"""
    params = [(n, lost) for n in (1, 2, 3, 4) for lost in (False, True)]

    def setup(n, lost):
        m, desk, r = reading([[NUMBER, IDENTIFIER, HANDLE, MEMORY][:n]])
        bad = [n - 1] if lost else []
        count = []

        def ber(snr):
            count.append(0)
            return 1.0 if len(count) - 1 in bad else 0.0
        m.medium.ber = ber
        return m, desk, r, n, lost

    def actual(x):
        m, desk, r, n, lost = x
        handlers.turn_reader_on(desk, r)
        s = m.statistics.get_tag_record(m.tags[0])
        for k in range(n + 1):
            desk.fire(handlers.finish_transaction)
            emit('state', r.state.name)
            emit('reads', [h.read_tid for h in s.inventory_history], s.tag_read_record is not None)

    def expected(x):
        m, desk, r, n, lost = x
        states = ['ACK', 'REQRN', 'READ', 'QREP']
        for k in range(n + 1):
            over = k == n or k == 3 or lost and k == n - 1
            emit('state', 'QREP' if over else states[k])
            got = n - 1 if lost else n
            read = k >= 1 and got >= 2
            emit('reads', [got >= 4] if over and read else [], read and not over)


class contents(Case):
    """the record tells round, antenna, positions and quality of the read"""
    params = [(a, first, memory) for a in (1, 2, 3) for first in (0, 1, 5) for memory in (False, True)]

    def setup(antennas, first, memory):
        m, desk, r = reading([[None] * first + [NUMBER, IDENTIFIER, HANDLE, MEMORY]], memory, antennas=antennas)
        m.medium.ber = lambda snr: 0.0 if snr is None else 1e-30 * 0
        r.antenna_switch_interval = num('antenna time')
        assume(num('antenna time') > 0)
        return m, desk, r, antennas, first, memory

    def actual(x):
        m, desk, r, antennas, first, memory = x
        handlers.turn_reader_on(desk, r)
        for k in range(first + 1):
            desk.fire(handlers.finish_transaction)
        for k in range(antennas - 1):
            r.select_next_antenna()
        m.tags[0].pos += 1.0
        desk.fire(handlers.finish_transaction)
        then = desk.now
        # what is recorded stays
        s = m.statistics.get_tag_record(m.tags[0])
        m.tags[0].pos += 1.0
        r.antenna.pos += 1.0
        r.select_next_antenna()
        emit('reads', len(s.inventory_history))
        for k in range(2 if memory else 0):
            desk.fire(handlers.finish_transaction)
        emit('reads', len(s.inventory_history))
        x = s.inventory_history[0]
        emit('read', x.round_index, x.antenna_index, x.read_tid)
        emit('place', list(x.tag_pos), list(x.reader_antenna_pos))
        emit('quality', x.snr == 10.0 + then, x.ber)

    def expected(x):
        m, desk, r, antennas, first, memory = x
        emit('reads', 0 if memory else 1)
        emit('reads', 1)
        emit('read', first // 4, antennas - 1, memory)
        a = antennas - 1
        emit('place', [num('x0') + 1.0, num('y0') + 1.0, num('z0') + 1.0], [num('ax%d' % a), num('ay%d' % a), num('az%d' % a)])
        emit('quality', True, 0.0)


class one_after_another(Case):
    """tags read in different slots have their own records, a tag read in several rounds one for each"""
    params = [((0,), (1,)), ((0, 4), (2,)), ((0, 4, 8), ()), ((1, 5), (3, 7)), ((4,), (0, 7)), ((), ())]

    def setup(*plan):
        scripts = []
        for slots in plan:
            script = []
            k = 0
            for slot in range(9):
                if slot in slots:
                    script = script + [NUMBER, IDENTIFIER]
                elif any([slot in other for other in plan]):
                    # someone else is being read
                    script = script + [None, None]
                else:
                    script = script + [None]
            scripts.append(script)
        m, desk, r = reading(scripts, False)
        return m, desk, r, plan

    def actual(x):
        m, desk, r, plan = x
        handlers.turn_reader_on(desk, r)
        n = 0
        for k in range(9):
            if any([k in slots for slots in plan]):
                n = n + 1
        for k in range(9 + n):
            desk.fire(handlers.finish_transaction)
        for t in m.tags:
            emit('reads', [h.round_index for h in m.statistics.get_tag_record(t).inventory_history])
            emit('whose', [h.tag_pos[0] for h in m.statistics.get_tag_record(t).inventory_history])

    def expected(x):
        m, desk, r, plan = x
        for k in range(len(plan)):
            emit('reads', [slot // 4 for slot in plan[k]])
            emit('whose', [num('x%d' % k) for slot in plan[k]])


class unread(Case):
    """collisions and lost replies are no reads"""
    params = ['collision', 'lost', 'collision of identifiers', 'lost identifier']

    def setup(what):
        script = [NUMBER, IDENTIFIER]
        other = {'collision': [NUMBER], 'collision of identifiers': [None, IDENTIFIER]}.get(what, [])
        m, desk, r = reading([script, other])
        n = []

        def ber(snr):
            n.append(0)
            return 1.0 if what == 'lost' or what == 'lost identifier' and len(n) > 1 else 0.0
        m.medium.ber = ber
        return m, desk, r, what

    def actual(x):
        m, desk, r, what = x
        handlers.turn_reader_on(desk, r)
        for k in range(2 if 'identifier' in what else 1):
            desk.fire(handlers.finish_transaction)
        emit('state', r.state.name)
        desk.fire(handlers.finish_transaction) if what != 'lost' and what != 'collision' else None
        for t in m.tags:
            s = m.statistics.get_tag_record(t)
            emit('reads', len(s.inventory_history), s.tag_read_record is None)

    def expected(x):
        m, desk, r, what = x
        emit('state', 'QREP')
        for t in m.tags:
            emit('reads', 0, True)


class removed(Case):
    """a tag removed at any moment takes its read with it; nothing else is read by it, and nothing breaks"""
    params = [0, 1, 2, 3, 4, 5]

    def setup(k):
        m, desk, r = reading([[NUMBER, IDENTIFIER, HANDLE, MEMORY, None, None, None],
                              [None, None, None, None, NUMBER, IDENTIFIER, HANDLE, MEMORY]])
        return m, desk, r, k

    def actual(x):
        m, desk, r, k = x
        handlers.turn_reader_on(desk, r)
        tag = m.tags[0]
        other = m.tags[1]
        for i in range(10):
            if i == k:
                s = m.statistics.get_tag_record(tag)
                handlers.remove_tag(desk, tag)
                emit('gone', len(s.inventory_history), [h.read_tid for h in s.inventory_history])
                emit('history', [s.tag.tag_id for s in m.statistics.tags_history])
            desk.fire(handlers.finish_transaction)
        s = m.statistics.tags_history[0]
        emit('reads', [h.read_tid for h in s.inventory_history], len(m.statistics.tags_history))
        s = m.statistics.get_tag_record(other)
        emit('other', [h.read_tid for h in s.inventory_history])

    def expected(x):
        m, desk, r, k = x
        reads = [] if k < 2 else [k >= 4]
        emit('gone', len(reads), reads)
        emit('history', [0])
        emit('reads', reads, 1)
        emit('other', [True])


class removed_again(Case):
    """a tag that has been read before and is removed while it is read again takes both reads with it"""
    params = [(n, k) for n in (1, 2) for k in (1, 2, 3)]

    def setup(n, k):
        m, desk, r = reading([[NUMBER, IDENTIFIER, HANDLE, MEMORY] * n + [NUMBER, IDENTIFIER, HANDLE, MEMORY][:k]])
        return m, desk, r, n, k

    def actual(x):
        m, desk, r, n, k = x
        handlers.turn_reader_on(desk, r)
        tag = m.tags[0]
        for i in range(4 * n + k):
            desk.fire(handlers.finish_transaction)
        s = m.statistics.get_tag_record(tag)
        emit('before', [h.read_tid for h in s.inventory_history])
        handlers.remove_tag(desk, tag)
        emit('reads', [h.read_tid for h in s.inventory_history], s.tag_read_record is None)
        emit('reads', len(m.statistics.tags_history), m.statistics.tags_history[0] is s)

    def expected(x):
        m, desk, r, n, k = x
        emit('before', [True] * n)
        emit('reads', [True] * n + ([False] if k >= 2 else []), True)
        emit('reads', 1, True)


class switched_off(Case):
    """switching off ends the slot: what has been read counts, and the next slot starts afresh"""
    params = [0, 1, 2, 3, 4]

    def setup(k):
        m, desk, r = reading([[NUMBER, IDENTIFIER, HANDLE, MEMORY][:k] + [NUMBER, IDENTIFIER, HANDLE, MEMORY]])
        return m, desk, r, k

    def actual(x):
        m, desk, r, k = x
        handlers.turn_reader_on(desk, r)
        s = m.statistics.get_tag_record(m.tags[0])
        for i in range(k - 1):
            desk.fire(handlers.finish_transaction)
        handlers.turn_reader_off(desk, r)
        emit('reads', [(h.round_index, h.read_tid) for h in s.inventory_history], s.tag_read_record is None)
        m.tags[0].script = [NUMBER, IDENTIFIER, HANDLE, MEMORY]
        handlers.turn_reader_on(desk, r)
        for i in range(4):
            desk.fire(handlers.finish_transaction)
        emit('reads', [(h.round_index, h.read_tid) for h in s.inventory_history], s.tag_read_record is None)
        handlers.turn_reader_off(desk, r)
        emit('reads', len(s.inventory_history))

    def expected(x):
        m, desk, r, k = x
        first = [(0, False)] if k > 2 else []
        emit('reads', first, True)
        emit('reads', first + [(1, True)], True)
        emit('reads', len(first) + 1)


def history(kinds):
    """finished tags, some of them read, some with memory"""
    m, desk, r = field(2)
    k = 0
    for kind in kinds:
        t = somewhere(objects.Tag(k, desk))
        m.tags.append(t)
        m.statistics.create_tag_record(t)
        s = m.statistics.get_tag_record(t)
        for memory in kind:
            s.new_tag_read_record(r, 3)
            s.tag_read_record.read_tid = memory
            s.close_tag_read_record()
        s.num_rounds_attained = nat('rounds %d' % k)
        k = k + 1
    return m, desk, m.statistics


KINDS = ((), (False,), (True,), (False, True), (True, False), (False, False), (True, True, True))


class shares(Case):
    """shares of finished tags, and the average of their rounds"""
    params = [(a,) for a in range(7)] + [(a, b) for a in range(7) for b in range(7)] + \
             [(0, 1, 2), (0, 0, 4), (5, 5, 0), (3, 4, 6), (6, 0, 1), (0, 0, 0), (1, 2, 3, 4), (0, 5, 0, 6), (0, 0, 2, 0, 1, 5)]

    def setup(*kinds):
        m, desk, s = history([KINDS[k] for k in kinds])
        return m, desk, s, [KINDS[k] for k in kinds]

    def actual(x):
        m, desk, s, kinds = x
        for t in list(m.tags):
            s.close_tag_record(t)
        emit('inventory', s.inventory_probability())
        emit('memory', s.read_tid_probability())
        emit('rounds', s.average_rounds_per_tag())

    def expected(x):
        m, desk, s, kinds = x
        n = len(kinds)
        emit('inventory', len([k for k in kinds if len(k) > 0]) / n)
        emit('memory', len([k for k in kinds if True in k]) / n)
        emit('rounds', sum([nat('rounds %d' % k) for k in range(n)]) / n)


class unfinished(Case):
    """tags still alive do not count; asking again changes nothing"""
    params = [(a, b) for a in (0, 1, 2) for b in range(7)]

    def setup(a, b):
        m, desk, s = history([KINDS[a], KINDS[b], KINDS[a], KINDS[b]])
        return m, desk, s, a, b

    def actual(x):
        m, desk, s, a, b = x
        s.close_tag_record(m.tags[2])
        s.close_tag_record(m.tags[0])
        for k in range(2):
            emit('inventory', s.inventory_probability())
            emit('memory', s.read_tid_probability())
            emit('rounds', s.average_rounds_per_tag())

    def expected(x):
        m, desk, s, a, b = x
        for k in range(2):
            emit('inventory', 1 if a > 0 else 0)
            emit('memory', 1 if a == 2 else 0)
            emit('rounds', (nat('rounds 0') + nat('rounds 2')) / 2)


class powers(Case):
    """with power statistics each power update leaves one record per tag with the values of the moment; without, none"""
    params = [(use, near, on) for use in (True, False) for near in (True, False) for on in (True, False)]

    def setup(use, near, on):
        m, desk, r = reading([[], []], antennas=2)
        m.statistics.use_power_statistics = use
        r.max_power = num('max')
        m.medium.forward = lambda reader, tag, time: (-5.0 - tag.tag_id if near and reader.power is not None else None)
        m.medium.backward = lambda reader, tag, time: None if tag.power is None else -70.0 - tag.tag_id
        m.medium.ber = lambda snr: snr / 100
        for t in m.tags:
            t.modulation_loss = -3.0
        if on:
            desk.now = num('then')
            assume(num('then') < num('now'))
            r.turn_on()
            desk.now = num('now')
        r.select_next_antenna()
        return m, desk, r, use, near, on

    def actual(x):
        m, desk, r, use, near, on = x
        m.transaction = None
        handlers.update_positions(desk)
        places = [list(t.pos) for t in m.tags]
        desk.now = desk.now + 1.0
        handlers.update_positions(desk)
        for k in (0, 1):
            p = m.statistics.get_tag_record(m.tags[k]).power_mapping
            emit('number', len(p))
            if use:
                p = p[0]
                emit('time', p.time, p.field_lifetime)
                emit('place', list(p.tag_pos) == places[k], list(p.reader_antenna_pos), p.reader_antenna_index)
                emit('power', p.tag_rx_power, p.tag_tx_power, p.reader_rx_power, p.reader_tx_power)
                emit('quality', p.snr, p.ber, p.reader_tag_pl, p.tag_reader_pl)

    def expected(x):
        m, desk, r, use, near, on = x
        for k in (0, 1):
            emit('number', 2 if use else 0)
            if use:
                now = num('now')
                emit('time', now, now - num('then') if on else float('inf'))
                emit('place', True, [num('ax1'), num('ay1'), num('az1')], 1)
                seen = near and on
                emit('power', -5.0 - k if seen else -120, -8.0 - k if seen else -120, -70.0 - k if seen else -120, num('max') if on else -120)
                snr = 10.0 + k + now
                emit('quality', snr, snr / 100, -40.0 - k, -51.0 - k)


class adjustments(Case):
    """each adjustment that moves the Q of a tag is counted once for that tag, and reported once the tag is finished"""
    params = [(st, q, moves) for st in ('ARBITRATE', 'REPLY', 'READY', 'SKIPPED', 'ACKNOWLEDGED')
              for q, moves in ((3, (1,)), (3, (-1,)), (3, (1, 1, -1)), (1, (-1, -1, -1, 1)), (14, (1, 1, 1)), (0, (-1,)), (15, (1,)))]

    def setup(state, q, moves):
        slot = int_('slot')
        assume(slot > 0)
        t = tag_in(state, std.Session.S2, q=q, slot=slot)[2]
        return t, state, q, moves

    def actual(x):
        t, state, q, moves = x
        s = t.kernel.context.statistics
        other = somewhere(objects.Tag(8, t.kernel))
        s.create_tag_record(other)
        record = s.get_tag_record(t)
        emit('counted', record.num_qadjust_attained)
        for u in moves:
            integers(lambda low, high: 1)
            t.receive(sync_frame(std.QueryAdjust(std.Session.S1, u)))
            t.receive(sync_frame(std.QueryAdjust(std.Session.S2, u)))
            emit('counted', record.num_qadjust_attained, s.get_tag_record(other).num_qadjust_attained)
        emit('reported', list(s.average_changing_q()))
        s.close_tag_record(other)
        emit('reported', list(s.average_changing_q()))
        s.close_tag_record(t)
        emit('reported', list(s.average_changing_q()))

    def expected(x):
        t, state, q, moves = x
        n = 0
        emit('counted', 0)
        for u in moves:
            if state in ('ARBITRATE', 'REPLY') and 0 <= q + u <= 15:
                q = q + u
                n = n + 1
            emit('counted', n, 0)
        emit('reported', [])
        emit('reported', [0])
        emit('reported', [0, n])
