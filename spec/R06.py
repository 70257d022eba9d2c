"""Adaptation of Q by the reader and by the tags."""
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import handlers
from pysim.models.rfid import objects
from spec.base import Case
from spec.epcref import bits
from spec.rfid import *

ENDS = ('silence', 'lost reply', 'collision', 'three replies')


def replies(desk, end):
    n = {'silence': 0, 'lost reply': 1, 'collision': 2, 'three replies': 3}[end]
    return [stranger(desk, k) for k in range(n)]


def running(state, q, use=True, read=True):
    """an adapting reader in the state with the given Q; its current transaction is about to end"""
    m, desk, r = field(q if state != 'QREP' else 1, read)
    m.medium.ber = lambda snr: 1.0
    draws(lambda: 0.5)
    r.use_query_adjust = use
    drive(r, state, 77)
    r.q = q
    r.adjust_delta = num('delta')
    r.q_fp = num('float q')
    return m, desk, r


def finish(m, desk, r, end):
    t = objects.Transaction(m.medium, r, sync_frame(std.QueryRep(r.session)), replies(desk, end), desk.time)
    m.transaction = t
    handlers.finish_transaction(desk, t)


def look(m, r):
    emit('q', r.q, r.q_fp)
    emit('state', r.state.name)
    emit('command', m.transaction.command.command.encode())


REGIONS = ('stay', 'step', 'jump')


class adapts(Case):
    """the floating Q moves by the step; Q follows if the rounded value is one away, and the tags are told the direction"""
    params = [(s, e, q, g) for s in ('QUERY', 'QREP') for e in ENDS for q in (1, 2, 7, 14) for g in REGIONS
              if s == 'QREP' or q < 5] + [
        (s, e, q, g) for s in ('QUERY', 'QREP') for e in ENDS for q in (0, 15) for g in REGIONS
        if (q == 15) == (e in ('silence', 'lost reply'))]
    deep = [(s, e, q, g) for s in ('QUERY', 'QREP') for e in ENDS for q in (3, 4, 5, 6, 8, 9, 10, 11, 12, 13) for g in REGIONS
            if s == 'QREP' or q < 5]

    def setup(state, end, q, region):
        f = num('float q')
        d = num('delta')
        # the floating value belongs to Q, the step is positive
        assume(d > 0, f > q - 0.5, f < q + 0.5, f >= 0, f <= 15)
        down = end in ('silence', 'lost reply')
        new = f - d if down else f + d
        k = 0 if region == 'stay' else 1 if region == 'step' else 2
        if down:
            assume(new < q - k + 0.5, new > q - k - 0.5)
        else:
            assume(new > q + k - 0.5, new < q + k + 0.5)
        m, desk, r = running(state, q)
        return m, desk, r, state, end, q, region, down

    def actual(x):
        m, desk, r, state, end, q, region, down = x
        finish(m, desk, r, end)
        look(m, r)

    def expected(x):
        m, desk, r, state, end, q, region, down = x
        f = num('float q')
        d = num('delta')
        new = f - d if down else f + d
        if new < 0:
            new = 0
        if new > 15:
            new = 15
        step = -1 if down else 1
        # a jump beyond the ends lands on the end, which may be one step away
        moved = region == 'step' or region == 'jump' and q + step in (0, 15)
        emit('q', q + step if moved else q, new)
        if moved:
            emit('state', 'QAdjust')
            emit('command', '1001' + '00' + ('011' if down else '110'))
        elif state == 'QUERY' and q > 0:
            emit('state', 'QREP')
            emit('command', '0000')
        else:
            # the last slot is over
            emit('state', 'QUERY')
            emit('command', '10000100' + '00' + '00' + '0' + bits(q, 4) + '00000')


class at_the_ends(Case):
    """Q stays within 0 and 15"""
    params = [(s, e) for s in ('QUERY', 'QREP') for e in ENDS if s == 'QREP' or e in ('silence', 'lost reply')]

    def setup(state, end):
        down = end in ('silence', 'lost reply')
        m, desk, r = running(state, 0 if down else 15)
        f = num('float q')
        d = num('delta')
        assume(d > 0)
        if down:
            assume(f >= 0, f < 0.5)
        else:
            assume(f <= 15, f > 14.5)
        return m, desk, r, end, down

    def actual(x):
        m, desk, r, end, down = x
        finish(m, desk, r, end)
        emit('q', r.q, r.q_fp >= 0, r.q_fp <= 15)
        emit('state', r.state.name in ('QUERY', 'QREP'))

    def expected(x):
        m, desk, r, end, down = x
        emit('q', 0 if down else 15, True, True)
        emit('state', True)


class elsewhere(Case):
    """only slots opened by Query or QueryRep adapt"""
    params = [(s, e) for s in ('QAdjust', 'ACK', 'REQRN', 'READ') for e in ENDS]

    def setup(state, end):
        m, desk, r = running(state, 4)
        return m, desk, r, end

    def actual(x):
        m, desk, r, end = x
        finish(m, desk, r, end)
        look(m, r)

    def expected(x):
        emit('q', 4, num('float q'))
        emit('state', 'QREP')
        emit('command', '0000')


class without(Case):
    """with adaptation off Q never changes"""
    params = [(s, e, u) for s in ('QUERY', 'QREP', 'ACK') for e in ENDS for u in (False, None)]

    def setup(state, end, use):
        m, desk, r = running(state, 3, use)
        return m, desk, r, state, end

    def actual(x):
        m, desk, r, state, end = x
        for k in range(3):
            finish(m, desk, r, end)
            emit('q', r.q, r.q_fp)
            emit('state', r.state.name)

    def expected(x):
        m, desk, r, state, end = x
        for k in range(3):
            emit('q', 3, num('float q'))
            emit('state', 'QUERY' if state == 'QREP' and k == 0 else 'QREP')


class heard(Case):
    """an answered slot does not move Q"""
    params = ['QUERY', 'QREP', 'QAdjust']

    def setup(state):
        m, desk, r = running(state, 4)
        m.medium.ber = lambda snr: 0.0
        return m, desk, r

    def actual(x):
        m, desk, r = x
        finish(m, desk, r, 'lost reply')
        look(m, r)

    def expected(x):
        emit('q', 4, num('float q'))
        emit('state', 'ACK')
        emit('command', '01' + bits(100, 16))


class after_adjusting(Case):
    """the slot goes on after QueryAdjust: an answer is acknowledged, silence leads to the next slot"""
    params = ['answer', 'silence', 'collision']

    def setup(what):
        m, desk, r = running('QREP', 3)
        f = num('float q')
        d = num('delta')
        assume(d > 0, f > 2.5, f < 3.5, f - d < 2.5, f - d > 1.5)
        return m, desk, r, what

    def actual(x):
        m, desk, r, what = x
        finish(m, desk, r, 'silence')
        look(m, r)
        m.medium.ber = lambda snr: 0.0
        finish(m, desk, r, 'lost reply' if what == 'answer' else what)
        look(m, r)

    def expected(x):
        m, desk, r, what = x
        f = num('float q') - num('delta')
        emit('q', 2, f)
        emit('state', 'QAdjust')
        emit('command', '1001' + '00' + '011')
        emit('q', 2, f)
        if what == 'answer':
            emit('state', 'ACK')
            emit('command', '01' + bits(100, 16))
        else:
            emit('state', 'QUERY')
            emit('command', '10000100' + '00' + '00' + '0' + '0010' + '00000')


class of_tags(Case):
    """a tag moves its Q by the announced direction within 0..15, and then draws a new slot"""
    params = [(st, q, u) for st in ('ARBITRATE', 'REPLY') for q in (0, 1, 2, 7, 14, 15) for u in (-1, 0, 1) if 0 <= q + u <= 15]
    deep = [(st, q, u) for st in ('ARBITRATE', 'REPLY') for q in (3, 4, 5, 6, 8, 9, 10, 11, 12, 13) for u in (-1, 0, 1)]

    def setup(state, q, updn):
        slot = int_('slot')
        assume(slot > 0)
        t = tag_in(state, std.Session.S2, q=q, slot=slot)[2]
        d = int_('drawn')
        n = int_('new')
        assume(d >= 0, d < 2 ** (q + updn), n >= 0, n < 0x10000)
        return t, q, updn, d, n

    def actual(x):
        t, q, updn, d, n = x
        dice = Dice([d, n], True)
        integers(dice.draw)
        f = t.receive(sync_frame(std.QueryAdjust(std.Session.S2, updn)))
        emit('silent', f is None)
        if f is not None:
            emit('number', f.reply.rn, t.rn, f.reply.bitlen)
        emit('q', t.q, t.slot_counter)
        emit('state', t.state.name, t.s2)

    def expected(x):
        t, q, updn, d, n = x
        emit('draw', 0, 2 ** (q + updn) - 1)
        if d == 0:
            emit('draw', 0, 0xFFFF)
            emit('silent', False)
            emit('number', n, n, 16)
            emit('q', q + updn, 0)
            emit('state', 'REPLY', flag('flag S2'))
        else:
            emit('silent', True)
            emit('q', q + updn, d)
            emit('state', 'ARBITRATE', flag('flag S2'))


class tag_at_the_ends(Case):
    """beyond the ends a tag keeps its Q and its slot"""
    params = [(q, u, p) for q, u in ((0, -1), (15, 1)) for p in ('waiting', 'passed')]

    def setup(q, updn, turn):
        slot = int_('slot')
        assume(slot > 0)
        t = tag_in('ARBITRATE' if turn == 'waiting' else 'REPLY', std.Session.S2, q=q, slot=slot)[2]
        if turn == 'passed':
            # it answered in its slot and was not acknowledged
            t.receive(sync_frame(std.QueryRep(std.Session.S2)))
        return t, q, updn

    def actual(x):
        t, q, updn = x
        dice = Dice([])
        integers(dice.draw)
        emit('silent', t.receive(sync_frame(std.QueryAdjust(std.Session.S2, updn))) is None)
        emit('q', t.q, t.slot_counter, t.state.name)

    def expected(x):
        t, q, updn = x
        emit('silent', True)
        emit('q', q, t.slot_counter, 'ARBITRATE')


class not_concerned(Case):
    """tags without power, of other sessions or outside the round do not take part"""
    params = [(st, s, u) for st in ('OFF', 'READY', 'SKIPPED', 'ARBITRATE', 'REPLY', 'ACKNOWLEDGED', 'SECURED')
              for s in (std.Session.S0, std.Session.S2) for u in (-1, 1)
              if st in ('OFF', 'READY', 'SKIPPED') or s is std.Session.S0]

    def setup(state, session, updn):
        slot = int_('slot')
        assume(slot > 0)
        return tag_in(state, std.Session.S2, q=5, slot=slot)[2], state, session, updn

    def actual(x):
        t, state, session, updn = x
        dice = Dice([])
        integers(dice.draw)
        emit('silent', t.receive(sync_frame(std.QueryAdjust(session, updn))) is None)
        emit('state', t.state.name)
        if state not in ('OFF', 'READY', 'SKIPPED'):
            emit('q', t.q)

    def expected(x):
        t, state, session, updn = x
        emit('silent', True)
        emit('state', 'READY' if state == 'SKIPPED' else state)
        if state not in ('OFF', 'READY', 'SKIPPED'):
            emit('q', 5)
