"""What a tag answers, and when it keeps silent."""
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects
from spec.base import Case
from spec.rfid import *

OLD = dict(dr=std.DivideRatio.DR_8, enc=std.TagEncoding.FM0)


def a_tag(state, session=std.Session.S1, q=4):
    """a tag of a round of the session with Q = q; when in arbitration, with an unknown slot that is not its turn"""
    slot = int_('slot')
    assume(slot > 0, slot < 2 ** q)
    return tag_in(state, session, OLD['dr'], 31.25e-6, OLD['enc'], False, q, slot)[2]


def command(kind, session=std.Session.S1):
    """commands with fixed contents; numbers 5 and -1 belong to nobody"""
    if kind == 'query':
        return query_frame(std.Query(std.DivideRatio.DR_643, std.TagEncoding.M4, True, std.SelFlag.ALL, session,
                                     std.InventoryFlag.A, 3), 75e-6)
    if kind == 'rep':
        return sync_frame(std.QueryRep(session))
    if kind == 'up':
        return sync_frame(std.QueryAdjust(session, 1))
    if kind == 'down':
        return sync_frame(std.QueryAdjust(session, -1))
    if kind == 'ack':
        return sync_frame(std.Ack(int_('rn')))
    if kind == 'reqrn':
        return sync_frame(std.ReqRN(int_('rn')))
    return sync_frame(std.Read(std.MemoryBank.TID, 0, 2, int_('rn')))


def number(state):
    """the current number of a tag in the state"""
    return int_('handle') if state == 'SECURED' else int_('rn')


def flags():
    return [flag('flag S0'), flag('flag S1'), flag('flag S2'), flag('flag S3')]


def tag(state, f=None, slot=None, rn=None, power=-10.0):
    """the demanded look"""
    if f is None:
        f = flags()
    emit('state', state)
    emit('flags', f)
    emit('flags', f)
    emit('power', power, None if power is None else power - 18.0)
    if state in ('REPLY', 'ACKNOWLEDGED', 'SECURED'):
        emit('number', rn)
    if state == 'ARBITRATE':
        emit('slot', slot)


def reply(m, trext, n):
    """the demanded outside of a reply of n bits"""
    emit('reply', m, preamble_bits(m, trext), preamble_bits(m, trext) + n + 1, n)


def index(session):
    return session.index


class unpowered(Case):
    """a tag without power keeps silent and does not change"""
    params = [(h, k) for h in ('new', 'lost', 'weak') for k in ('query', 'rep', 'up', 'down', 'ack', 'reqrn', 'read')]

    def setup(history, kind):
        if history == 'new':
            t = a_tag('OFF')
        else:
            t = a_tag('REPLY')
            t.set_power(1.0, None if history == 'lost' else -18.5)
        return t, kind

    def actual(x):
        t, kind = x
        d = Dice([0, 9], True)
        integers(d.draw)
        look_frame(t.receive(command(kind)))
        look_tag(t)
        t.set_power(1.5, -9.0)
        emit('state', t.state.name, t.power)

    def expected(x):
        t, kind = x
        emit('silent')
        tag('OFF', power=None)
        emit('state', 'READY', -9.0)


class query(Case):
    """a Query draws a slot of 0..2^Q-1 if both flags match; slot zero answers at once with a fresh number"""
    params = [(st, s, q) for st in ('READY', 'SKIPPED', 'ARBITRATE', 'REPLY') for s in SESSIONS for q in (0, 1, 4)]
    deep = [(st, s, q) for st in ('READY', 'ARBITRATE') for s in SESSIONS for q in (2, 3, 8, 15)]

    def setup(state, session, q):
        t = a_tag(state)
        trcal = num('trcal')
        assume(trcal > 0)
        d = int_('drawn')
        n = int_('new')
        assume(d >= 0, d < 2 ** q, n >= 0, n < 0x10000)
        return t, session, q, d, n, enum(std.DivideRatio, 'dr'), enum(std.TagEncoding, 'm'), boolean('trext'), flag('target'), \
            enum(std.SelFlag, 'sel'), trcal

    def actual(x):
        t, session, q, d, n, dr, m, trext, target, sel, trcal = x
        dice = Dice([d, n], True)
        integers(dice.draw)
        f = t.receive(query_frame(std.Query(dr, m, trext, sel, session, target, q), trcal))
        look_frame(f)
        if f is not None:
            emit('number', f.reply.rn)
            emit('takes', f.get_duration(t.blf))
            emit('rate', t.blf, t.encoding, t.trext)
        look_tag(t)

    def expected(x):
        t, session, q, d, n, dr, m, trext, target, sel, trcal = x
        if flags()[index(session)] is target and sel is not std.SelFlag.SEL:
            emit('draw', 0, 2 ** q - 1)
            if d == 0:
                emit('draw', 0, 0xFFFF)
                reply(m, trext, 16)
                emit('number', n)
                emit('number', n)
                emit('takes', tag_time(16, dr, trcal, m, trext))
                emit('rate', ratio(dr) / trcal, m, trext)
                tag('REPLY', rn=n)
            else:
                emit('silent')
                tag('ARBITRATE', slot=d)
        else:
            emit('silent')
            tag('READY')


class query_rep(Case):
    """each QueryRep of the tag's own session counts down by one; at zero the tag answers with a fresh number"""
    params = [(st, s) for st in ('READY', 'SKIPPED', 'ARBITRATE', 'REPLY') for s in SESSIONS]

    def setup(state, session):
        n = int_('new')
        assume(n >= 0, n < 0x10000)
        return a_tag(state), state, session, n

    def actual(x):
        t, state, session, n = x
        dice = Dice([n], True)
        integers(dice.draw)
        f = t.receive(sync_frame(std.QueryRep(session)))
        look_frame(f)
        if state == 'REPLY' and session is std.Session.S1:
            emit('state', t.state.name, t.sessions[session])
        else:
            look_tag(t)

    def expected(x):
        t, state, session, n = x
        if state in ('READY', 'SKIPPED'):
            emit('silent')
            tag('READY')
        elif session is not std.Session.S1:
            emit('silent')
            tag(state, slot=int_('slot'), rn=int_('rn'))
        elif state == 'REPLY':
            emit('silent')
            emit('state', 'ARBITRATE', flag('flag S1'))
        elif int_('slot') == 1:
            emit('draw', 0, 0xFFFF)
            reply(std.TagEncoding.FM0, False, 16)
            emit('number', n)
            tag('REPLY', rn=n)
        else:
            emit('silent')
            tag('ARBITRATE', slot=int_('slot') - 1)


class whole_round(Case):
    """in a round of 2^Q slots a tag answers exactly once, in the slot it drew, and with the settings of the Query"""
    params = [(q, s) for q in (0, 1, 2, 3) for s in range(2 ** q)]

    def setup(q, s):
        m, kernel, t = tag_in('READY', std.Session.S2)
        return t, q, s

    def actual(x):
        t, q, s = x
        for s_ in SESSIONS:
            t.sessions[s_] = std.InventoryFlag.B
        numbers = []
        for turn in range(2):
            rn = int_('number %d' % turn)
            dice = Dice([s, rn])
            integers(dice.draw)
            f = t.receive(query_frame(std.Query(std.DivideRatio.DR_643, std.TagEncoding.M8, True, std.SelFlag.ALL,
                                                std.Session.S2, std.InventoryFlag.B, q), 75e-6))
            for k in range(2 ** q + 3):
                if k > 0:
                    f = t.receive(sync_frame(std.QueryRep(std.Session.S2)))
                if f is None:
                    emit('silent', t.state.name)
                else:
                    look_frame(f)
                    emit('takes', f.get_duration(t.blf))

    def expected(x):
        t, q, s = x
        for turn in range(2):
            for k in range(2 ** q + 3):
                if k == s:
                    reply(std.TagEncoding.M8, True, 16)
                    emit('number', int_('number %d' % turn))
                    emit('takes', tag_time(16, std.DivideRatio.DR_643, 75e-6, std.TagEncoding.M8, True))
                else:
                    emit('silent', 'ARBITRATE')


class ack(Case):
    """only a tag that has just answered takes an acknowledgement, and only with its number"""
    params = ['READY', 'SKIPPED', 'ARBITRATE', 'REPLY', 'ACKNOWLEDGED', 'SECURED']

    def setup(state):
        return a_tag(state), state, int_('sent')

    def actual(x):
        t, state, sent = x
        dice = Dice([])
        integers(dice.draw)
        f = t.receive(sync_frame(std.Ack(sent)))
        look_frame(f)
        if f is None and state == 'REPLY':
            emit('state', t.state.name)
            for k in range(4):
                look_frame(t.receive(sync_frame(std.QueryRep(std.Session.S1))))
            emit('state', t.state.name, t.sessions[std.Session.S1])
        else:
            look_tag(t)

    def expected(x):
        t, state, sent = x
        if state == 'REPLY':
            if sent == int_('rn'):
                reply(std.TagEncoding.FM0, False, 64)
                emit('identifier', 'E2003412')
                tag('ACKNOWLEDGED', rn=int_('rn'))
            else:
                emit('silent')
                emit('state', 'ARBITRATE')
                for k in range(4):
                    emit('silent')
                emit('state', 'ARBITRATE', flag('flag S1'))
        else:
            emit('silent')
            tag('READY' if state == 'SKIPPED' else state, slot=int_('slot'), rn=number(state))


class request(Case):
    """only an acknowledged tag gives a new handle, and only for its current number"""
    params = ['READY', 'SKIPPED', 'ARBITRATE', 'REPLY', 'ACKNOWLEDGED', 'SECURED']

    def setup(state):
        n = int_('new')
        assume(n >= 0, n < 0x10000)
        return a_tag(state), state, int_('sent'), n

    def actual(x):
        t, state, sent, n = x
        dice = Dice([n], True)
        integers(dice.draw)
        look_frame(t.receive(sync_frame(std.ReqRN(sent))))
        look_tag(t)

    def expected(x):
        t, state, sent, n = x
        if state in ('ACKNOWLEDGED', 'SECURED') and sent == number(state):
            emit('draw', 0, 0xFFFF)
            reply(std.TagEncoding.FM0, False, 32)
            emit('handle', n)
            tag('SECURED', rn=n)
        else:
            emit('silent')
            tag('READY' if state == 'SKIPPED' else state, slot=int_('slot'), rn=number(state))


class read(Case):
    """only a secured tag is read, with its handle: as many words of the bank as asked for"""
    params = [('SECURED', b, n) for b in (std.MemoryBank.EPC, std.MemoryBank.TID, std.MemoryBank.USER) for n in (1, 2, 3, 4, 5, 9)] + \
        [(st, std.MemoryBank.TID, 2) for st in ('READY', 'SKIPPED', 'ARBITRATE', 'REPLY', 'ACKNOWLEDGED')]

    def setup(state, bank, n):
        return a_tag(state), state, bank, n, int_('sent')

    def actual(x):
        t, state, bank, n, sent = x
        dice = Dice([])
        integers(dice.draw)
        look_frame(t.receive(sync_frame(std.Read(bank, 0, n, sent))))
        look_tag(t)

    def expected(x):
        t, state, bank, n, sent = x
        if state == 'SECURED' and sent == number(state):
            memory = 'E2003412'
            if bank is std.MemoryBank.TID:
                memory = 'E280110520007A5B'
            elif bank is std.MemoryBank.USER:
                memory = '0123456789ABCDEF0123'
            memory = memory[:4 * n]
            reply(std.TagEncoding.FM0, False, 33 + 4 * len(memory))
            emit('memory', memory, number(state))
            tag('SECURED', rn=number(state))
        else:
            emit('silent')
            tag('READY' if state == 'SKIPPED' else state, slot=int_('slot'), rn=number(state))


class settings(Case):
    """every reply of a round comes in the encoding and at the rate of its Query"""
    params = [(o, a) for o in ('first', 'second') for a in ('rep', 'query')]

    def setup(order, answer):
        m, kernel, t = tag_in('READY', std.Session.S0)
        trcal = num('trcal')
        assume(trcal > 0)
        return t, order, answer, enum(std.DivideRatio, 'dr'), enum(std.TagEncoding, 'm'), boolean('trext'), trcal

    def actual(x):
        t, order, answer, dr, m, trext, trcal = x
        t.sessions[std.Session.S0] = std.InventoryFlag.A
        if order == 'second':
            dice = Dice([3])
            integers(dice.draw)
            t.receive(command('query', std.Session.S0))
        slot = 1 if answer == 'rep' else 0
        dice = Dice([slot, 10, 11])
        integers(dice.draw)
        f = t.receive(query_frame(std.Query(dr, m, trext, std.SelFlag.ALL, std.Session.S0, std.InventoryFlag.A, 2), trcal))
        if answer == 'rep':
            look_frame(f)
            f = t.receive(sync_frame(std.QueryRep(std.Session.S0)))
        for f in (f, t.receive(sync_frame(std.Ack(10))), t.receive(sync_frame(std.ReqRN(10))),
                  t.receive(sync_frame(std.Read(std.MemoryBank.TID, 0, 4, 11)))):
            emit('reply', f.preamble.encoding, f.preamble.bitlen, f.bitlen, f.get_duration(t.blf))

    def expected(x):
        t, order, answer, dr, m, trext, trcal = x
        if answer == 'rep':
            emit('silent')
        for n in (16, 64, 32, 33 + 64):
            emit('reply', m, preamble_bits(m, trext), preamble_bits(m, trext) + n + 1, tag_time(n, dr, trcal, m, trext))


class many_numbers(Case):
    """numbers are drawn anew for each answer"""
    def setup():
        m, kernel, t = tag_in('READY', std.Session.S0)
        t.sessions[std.Session.S0] = std.InventoryFlag.A
        return t

    def actual(t):
        dice = Dice([0, 101, 0, 102, 1, 103, 104, 105], True)
        integers(dice.draw)
        look_frame(t.receive(command('query', std.Session.S0)))
        look_frame(t.receive(command('query', std.Session.S0)))
        look_frame(t.receive(command('query', std.Session.S0)))
        look_frame(t.receive(command('rep', std.Session.S0)))
        look_frame(t.receive(sync_frame(std.Ack(102))))
        look_frame(t.receive(command('query', std.Session.S0)))

    def expected(t):
        for k in (101, 102):
            emit('draw', 0, 7)
            emit('draw', 0, 0xFFFF)
            reply(std.TagEncoding.M4, True, 16)
            emit('number', k)
        emit('draw', 0, 7)
        emit('silent')
        emit('draw', 0, 0xFFFF)
        reply(std.TagEncoding.M4, True, 16)
        emit('number', 103)
        emit('silent')
        emit('draw', 0, 7)
        emit('silent')
