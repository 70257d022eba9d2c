"""Inventory flags: flipped once per acknowledgement, and only that of the round."""
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects
from spec.base import Case
from spec.rfid import *
from spec.R03 import flags, reply

ACKNOWLEDGED = ('ACKNOWLEDGED', 'SECURED')
OTHERS = ('READY', 'SKIPPED', 'ARBITRATE', 'REPLY')


def a_tag(state, session):
    slot = int_('slot')
    assume(slot > 0, slot < 4)
    return tag_in(state, session, q=2, slot=slot)[2]


def flipped(f, session):
    out = []
    for s in SESSIONS:
        v = f[s.index]
        if s is session:
            v = std.InventoryFlag.B if v is std.InventoryFlag.A else std.InventoryFlag.A
        out.append(v)
    return out


def query(session, target, sel=std.SelFlag.ALL, q=2):
    return query_frame(std.Query(std.DivideRatio.DR_8, std.TagEncoding.FM0, False, sel, session, target, q), 31.25e-6)


def look(t):
    emit('flags', t.state.name, [t.sessions[s] for s in SESSIONS], [t.s0, t.s1, t.s2, t.s3])


def like(state, f):
    emit('flags', state, f, f)


class by_query(Case):
    """the next Query flips the flag of the round that has ended, before the flags are compared with the new target"""
    params = [(st, a, b) for st in ACKNOWLEDGED for a in SESSIONS for b in SESSIONS]

    def setup(state, old, new):
        return a_tag(state, old), old, new, flag('target'), enum(std.SelFlag, 'sel')

    def actual(x):
        t, old, new, target, sel = x
        dice = Dice([3])
        integers(dice.draw)
        emit('answer', t.receive(query(new, target, sel)) is None)
        look(t)

    def expected(x):
        t, old, new, target, sel = x
        f = flipped(flags(), old)
        emit('answer', True)
        if f[new.index] is target and sel is not std.SelFlag.SEL:
            like('ARBITRATE', f)
        else:
            like('READY', f)


def opens(kind, session):
    if kind == 'rep':
        return sync_frame(std.QueryRep(session))
    return sync_frame(std.QueryAdjust(session, 1 if kind == 'up' else -1 if kind == 'down' else 0))


class by_slot(Case):
    """the next QueryRep or QueryAdjust of the session flips it; those of other sessions do not concern the tag"""
    params = [(st, a, b, k) for st in ACKNOWLEDGED for a in SESSIONS for b in SESSIONS for k in ('rep', 'up', 'down')]

    def setup(state, old, new, kind):
        return a_tag(state, old), state, old, new, kind

    def actual(x):
        t, state, old, new, kind = x
        dice = Dice([])
        integers(dice.draw)
        emit('answer', t.receive(opens(kind, new)) is None)
        look(t)

    def expected(x):
        t, state, old, new, kind = x
        emit('answer', True)
        if old is new:
            like('READY', flipped(flags(), old))
        else:
            like(state, flags())


class not_acknowledged(Case):
    """tags that were not acknowledged keep their flags"""
    params = [(st, k) for st in OTHERS for k in ('query', 'rep', 'up', 'down', 'ack', 'reqrn', 'read')]

    def setup(state, kind):
        session = enum(std.Session, 'other')
        t = a_tag(state, std.Session.S2)
        return t, kind, session

    def actual(x):
        t, kind, session = x
        dice = Dice([3, 4, 5, 6])
        integers(dice.draw)
        for s in SESSIONS:
            if s is session:
                if kind == 'query':
                    t.receive(query(s, std.InventoryFlag.B))
                elif kind == 'ack':
                    t.receive(sync_frame(std.Ack(5)))
                elif kind == 'reqrn':
                    t.receive(sync_frame(std.ReqRN(5)))
                elif kind == 'read':
                    t.receive(sync_frame(std.Read(std.MemoryBank.TID, 0, 1, 5)))
                else:
                    t.receive(opens(kind, s))
        emit('flags', [t.sessions[s] for s in SESSIONS])

    def expected(x):
        emit('flags', flags())


class once(Case):
    """one acknowledgement, one flip"""
    params = [(st, a, b) for st in ACKNOWLEDGED for a in ('query', 'rep', 'up') for b in ('query', 'rep', 'down')]

    def setup(state, first, second):
        return a_tag(state, std.Session.S1), first, second

    def actual(x):
        t, first, second = x
        # the flag stays away from the target after the flip
        t.sessions[std.Session.S1] = std.InventoryFlag.A
        dice = Dice([])
        integers(dice.draw)
        for k in (first, second, 'rep', 'query', 'down', 'rep', 'query'):
            f = query(std.Session.S1, std.InventoryFlag.A) if k == 'query' else opens(k, std.Session.S1)
            emit('answer', t.receive(f) is None)
            look(t)
            emit('answer', t.receive(sync_frame(std.Ack(int_('rn')))) is None)

    def expected(x):
        f = flags()
        f[1] = std.InventoryFlag.B
        for k in range(7):
            emit('answer', True)
            like('READY', f)
            emit('answer', True)


class round_trip(Case):
    """through both targets: A to B, B to A, each with its own acknowledgement"""
    params = [s for s in SESSIONS]

    def setup(session):
        return a_tag('READY', session), session

    def actual(x):
        t, session = x
        t.sessions[session] = std.InventoryFlag.A
        for target in (std.InventoryFlag.A, std.InventoryFlag.B, std.InventoryFlag.A):
            dice = Dice([0, 17, 0, 18])
            integers(dice.draw)
            emit('answer', t.receive(query(session, target)) is None)
            emit('answer', t.receive(sync_frame(std.Ack(17))) is None)
            emit('answer', t.receive(sync_frame(std.QueryRep(session))) is None)
            look(t)
            emit('answer', t.receive(query(session, target)) is None)
            look(t)

    def expected(x):
        t, session = x
        for target in (std.InventoryFlag.A, std.InventoryFlag.B, std.InventoryFlag.A):
            f = flags()
            f[session.index] = std.InventoryFlag.B if target is std.InventoryFlag.A else std.InventoryFlag.A
            emit('answer', False)
            emit('answer', False)
            emit('answer', True)
            like('READY', f)
            emit('answer', True)
            like('READY', f)


class wrong_number(Case):
    """an acknowledgement with a wrong number flips nothing"""
    params = ['query', 'rep', 'up']

    def setup(kind):
        sent = int_('sent')
        assume(sent != int_('rn'))
        return a_tag('REPLY', std.Session.S2), kind, sent

    def actual(x):
        t, kind, sent = x
        dice = Dice([3, 3])
        integers(dice.draw)
        t.receive(sync_frame(std.Ack(sent)))
        t.receive(query(std.Session.S2, std.InventoryFlag.A) if kind == 'query' else opens(kind, std.Session.S2))
        emit('flags', [t.sessions[s] for s in SESSIONS])

    def expected(x):
        emit('flags', flags())


class power_loss(Case):
    """losing power before the flip: the persistence rule decides, and nothing is flipped later"""
    params = [(st, s) for st in ACKNOWLEDGED for s in SESSIONS]

    def setup(state, session):
        t = a_tag(state, session)
        t.s1_persistence = num('p1')
        t.s2_persistence = num('p2')
        t.s3_persistence = num('p3')
        since = num('since')
        wait = num('wait')
        assume(wait >= 0)
        return t, session, since, wait

    def actual(x):
        t, session, since, wait = x
        t.set_power(since, None)
        t.set_power(since + wait, -5.0)
        look(t)
        emit('answer', t.receive(sync_frame(std.QueryRep(session))) is None)
        look(t)
        dice = Dice([2])
        integers(dice.draw)
        emit('answer', t.receive(query(session, std.InventoryFlag.A)) is None)
        emit('flags', [t.sessions[s] for s in SESSIONS])

    def expected(x):
        t, session, since, wait = x
        f = [std.InventoryFlag.A]
        for k in (1, 2, 3):
            f.append(std.InventoryFlag.A if wait > num('p%d' % k) else flags()[k])
        like('READY', f)
        emit('answer', True)
        like('READY', f)
        emit('answer', True)
        emit('flags', f)
