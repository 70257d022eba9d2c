"""Which replies are received, and what the reader does then."""
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import handlers
from pysim.models.rfid import objects
from spec.base import Case
from spec.epcref import bits
from spec.rfid import *
from spec.R07 import scripted, start

REPLIES = {
    'number': (std.QueryReply(0x1234), 16),
    'identifier': (std.AckReply('E200341201'), 32 + 40),
    'long identifier': (std.AckReply('0123456789ABCDEF01234567'), 32 + 96),
    'handle': (std.ReqRNReply(0x77), 32),
    'memory': (std.ReadReply('0123456789ABCDEF', rn=4), 33 + 64),
}


def exchange(replies, state='QUERY', read=True):
    """a transaction with these replies of as many tags"""
    m, desk, r = field(2, read, num('now'))
    m.medium.snr = lambda reader, tag, time: num('snr of %d' % tag.tag_id) + time
    drive(r, state, 0x1234)
    out = []
    k = 0
    for x in replies:
        out.append(stranger(desk, k, REPLIES[x][0]))
        k = k + 1
    return m, desk, r, out


def quality():
    ber = num('ber')
    p = num('chance')
    assume(ber >= 0, ber <= 1, p >= 0, p < 1)
    return ber, p


class chance(Case):
    """the only reply is received with the probability that all its bits are right"""
    params = ['number', 'identifier', 'long identifier', 'handle', 'memory']

    def setup(what):
        ber, p = quality()
        good = (1 - ber) ** REPLIES[what][1]
        assume(p != good)
        draws(lambda: p)
        m, desk, r, replies = exchange([what])
        m.medium.ber = lambda snr: ber
        return m, desk, r, replies, p < good

    def actual(x):
        m, desk, r, replies, good = x
        t = objects.Transaction(m.medium, r, sync_frame(std.QueryRep(r.session)), replies, desk.time)
        tag, f, snr, ber = t.received_tag_frame(m.medium, num('end'))
        emit('received', tag is replies[0][0], f is replies[0][1], snr, ber)
        emit('nothing', tag is None, f is None)

    def expected(x):
        m, desk, r, replies, good = x
        if good:
            emit('received', True, True, num('snr of 0') + num('end'), num('ber'))
            emit('nothing', False, False)
        else:
            emit('received', False, False, None, None)
            emit('nothing', True, True)


class sure(Case):
    """an undisturbed reply is received, a hopeless one is not"""
    params = [(k, b) for k in ('number', 'identifier', 'memory') for b in (0.0, 1.0)]

    def setup(what, ber):
        p = num('chance')
        assume(p > 0, p < 1)
        draws(lambda: p)
        m, desk, r, replies = exchange([what])
        m.medium.ber = lambda snr: ber
        return m, desk, r, replies, ber

    def actual(x):
        m, desk, r, replies, ber = x
        t = objects.Transaction(m.medium, r, sync_frame(std.QueryRep(r.session)), replies, desk.time)
        tag, f, snr, b = t.received_tag_frame(m.medium, num('end'))
        emit('received', tag is replies[0][0], f is replies[0][1])

    def expected(x):
        m, desk, r, replies, ber = x
        emit('received', ber == 0, ber == 0)


class judged(Case):
    """the error rate follows from the signal quality of that tag at that moment"""
    def setup():
        draws(lambda: 0.0)
        m, desk, r, replies = exchange(['number'])
        asked = []

        def ber(snr):
            asked.append(snr)
            return 0.0
        m.medium.ber = ber
        return m, desk, r, replies, asked

    def actual(x):
        m, desk, r, replies, asked = x
        t = objects.Transaction(m.medium, r, sync_frame(std.QueryRep(r.session)), replies, desk.time)
        t.received_tag_frame(m.medium, num('end'))
        emit('asked', all([s == num('snr of 0') + num('end') for s in asked]), len(asked) > 0)

    def expected(x):
        emit('asked', True, True)


class several(Case):
    """of several replies none is received, however good, however different"""
    params = [(), ('number', 'number'), ('identifier', 'number'), ('number', 'identifier', 'handle'), ('memory', 'memory', 'memory', 'memory')]

    def setup(*what):
        draws(lambda: num('chance'))
        m, desk, r, replies = exchange(what)
        m.medium.ber = lambda snr: num('ber')
        return m, desk, r, replies

    def actual(x):
        m, desk, r, replies = x
        t = objects.Transaction(m.medium, r, sync_frame(std.QueryRep(r.session)), replies, desk.time)
        emit('received', list(t.received_tag_frame(m.medium, num('end'))))

    def expected(x):
        emit('received', [None, None, None, None])


class answering(Case):
    """exactly the tags that answer take part, each with its own frame; all hear the command once"""
    params = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]

    def setup(*who):
        m, desk, r = start([])
        k = 0
        for w in who:
            scripted(m, desk, 10 + k, [std.QueryReply(500 + k)] if w else [], True)
            k = k + 1
        return m, desk, r, who

    def actual(x):
        m, desk, r, who = x
        handlers.turn_reader_on(desk, r)
        emit('part', [(t.tag_id, f.reply.rn) for t, f in m.transaction.replies])
        emit('tags', [t.tag_id for t in m.transaction.tags])
        emit('whose', [t is m.tags[t.tag_id - 10] for t, f in m.transaction.replies])

    def expected(x):
        m, desk, r, who = x
        for k in range(3):
            emit('heard', 10 + k, '1000')
        part = [k for k in range(3) if who[k]]
        emit('part', [(10 + k, 500 + k) for k in part])
        emit('tags', [10 + k for k in part])
        emit('whose', [True for k in part])


class later_answers(Case):
    """so it is for the commands that follow"""
    params = [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]

    def setup(*who):
        m, desk, r = start([])
        m.medium.ber = lambda snr: 1.0
        k = 0
        for w in who:
            scripted(m, desk, 10 + k, [None, std.QueryReply(500 + k) if w else None, std.QueryReply(600 + k)], False)
            k = k + 1
        return m, desk, r, who

    def actual(x):
        m, desk, r, who = x
        handlers.turn_reader_on(desk, r)
        emit('part', [t.tag_id for t in m.transaction.tags])
        for k in range(2):
            desk.fire(handlers.finish_transaction)
            emit('part', [(t.tag_id, f.reply.rn) for t, f in m.transaction.replies])

    def expected(x):
        m, desk, r, who = x
        emit('part', [])
        emit('part', [(10 + k, 500 + k) for k in range(3) if who[k]])
        emit('part', [(10 + k, 600 + k) for k in range(3)])


class newcomers(Case):
    """a tag born during an exchange takes part from the next command on, one removed does not"""
    def setup():
        m, desk, r = start([[None, std.QueryReply(1), std.QueryReply(2)], [None, std.QueryReply(3), std.QueryReply(4)]])
        m.medium.ber = lambda snr: 1.0
        return m, desk, r

    def actual(x):
        m, desk, r = x
        handlers.turn_reader_on(desk, r)
        scripted(m, desk, 9, [std.QueryReply(8), std.QueryReply(9)]).set_power(desk.now, -10.0)
        handlers.remove_tag(desk, m.tags[0])
        emit('part', len(list(m.transaction.tags)))
        for k in range(2):
            desk.fire(handlers.finish_transaction)
            emit('part', [(t.tag_id, f.reply.rn) for t, f in m.transaction.replies])

    def expected(x):
        emit('part', 0)
        emit('part', [(1, 3), (9, 8)])
        emit('part', [(1, 4), (9, 9)])


FITTING = {'QUERY': 'number', 'QREP': 'number', 'QAdjust': 'number', 'ACK': 'identifier', 'REQRN': 'handle', 'READ': 'memory'}


def count(slots, name):
    def note(*args, **kwargs):
        slots.append(name)
    return note


class handing_over(Case):
    """a received reply moves the reader on by one step; after a lost one or a collision the next slot follows"""
    params = [(s, e) for s in FITTING for e in ('received', 'lost', 'silence', 'two', 'three')]

    def setup(state, end):
        n = {'received': 1, 'lost': 1, 'silence': 0, 'two': 2, 'three': 3}[end]
        p = num('chance')
        assume(p > 0, p < 1)
        draws(lambda: p)
        m, desk, r, replies = exchange([FITTING[state]] * n, state)
        r.use_query_adjust = False
        ber = 1.0 if end == 'lost' else 0.0
        m.medium.ber = lambda snr: ber
        slots = []
        r.slot_finish_listeners.add(count(slots, 'end'))
        r.slot_start_listeners.add(count(slots, 'begin'))
        for t, f in replies:
            m.statistics.create_tag_record(t)
            m.statistics.get_tag_record(t).new_tag_read_record(r, 0)
        return m, desk, r, replies, slots, state, end

    def actual(x):
        m, desk, r, replies, slots, state, end = x
        t = objects.Transaction(m.medium, r, sync_frame(std.QueryRep(r.session)), replies, desk.time)
        m.transaction = t
        handlers.finish_transaction(desk, t)
        emit('slots', slots)
        emit('state', r.state.name)
        emit('command', m.transaction.command.command.encode())
        emit('next', m.transaction is not t, len(desk.pending))

    def expected(x):
        m, desk, r, replies, slots, state, end = x
        next = {'QUERY': 'ACK', 'QREP': 'ACK', 'QAdjust': 'ACK', 'ACK': 'REQRN', 'REQRN': 'READ', 'READ': 'QREP'}[state]
        if end != 'received':
            next = 'QREP'
        emit('slots', ['end', 'begin'] if next == 'QREP' else [])
        emit('state', next)
        c = {'ACK': '01' + bits(0x1234, 16), 'QREP': '0000'}
        if next == 'REQRN':
            emit('command', std.ReqRN(0x1234).encode())
        elif next == 'READ':
            emit('command', std.Read(std.MemoryBank.TID, 0, 6, 0x77).encode())
        else:
            emit('command', c[next])
        emit('next', True, 1)


class gone(Case):
    """a tag removed during its reply: the reader goes on as with any other reply, and nothing breaks"""
    params = [(s, e) for s in FITTING for e in ('received', 'lost', 'two')]

    def setup(state, end):
        p = num('chance')
        assume(p > 0, p < 1)
        draws(lambda: p)
        m, desk, r, replies = exchange([FITTING[state]] * (2 if end == 'two' else 1), state)
        r.use_query_adjust = False
        ber = 1.0 if end == 'lost' else 0.0
        m.medium.ber = lambda snr: ber
        for t, f in replies:
            m.tags.append(t)
            m.statistics.create_tag_record(t)
        return m, desk, r, replies, state, end

    def actual(x):
        m, desk, r, replies, state, end = x
        t = objects.Transaction(m.medium, r, sync_frame(std.QueryRep(r.session)), replies, desk.time)
        m.transaction = t
        handlers.remove_tag(desk, replies[0][0])
        handlers.finish_transaction(desk, t)
        emit('state', r.state.name)
        emit('tags', [t.tag_id for t in m.tags])

    def expected(x):
        m, desk, r, replies, state, end = x
        next = {'QUERY': 'ACK', 'QREP': 'ACK', 'QAdjust': 'ACK', 'ACK': 'REQRN', 'REQRN': 'READ', 'READ': 'QREP'}[state]
        emit('state', next if end == 'received' else 'QREP')
        emit('tags', [1] if end == 'two' else [])
