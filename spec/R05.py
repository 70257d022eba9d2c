"""Power of a tag: thresholds and bookkeeping."""
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects
from spec.base import Case
from spec.rfid import *
from spec.R03 import flags

POWERED = ('READY', 'SKIPPED', 'ARBITRATE', 'REPLY', 'ACKNOWLEDGED', 'SECURED')


def a_tag(state, session=std.Session.S1):
    slot = int_('slot')
    assume(slot > 0, slot < 4)
    t = tag_in(state, session, q=2, slot=slot)[2]
    t.sensitivity = num('sensitivity')
    t.modulation_loss = num('loss')
    t.s1_persistence = num('p1')
    t.s2_persistence = num('p2')
    t.s3_persistence = num('p3')
    return t


def look(t):
    emit('state', t.state.name, t.power, t.tx_power)
    emit('flags', [t.sessions[s] for s in SESSIONS])


def like(state, power, f):
    emit('state', state, power, None if power is None else power + num('loss'))
    emit('flags', f)


def rule(wait, f):
    out = [std.InventoryFlag.A]
    for k in (1, 2, 3):
        out.append(std.InventoryFlag.A if wait > num('p%d' % k) else f[k])
    return out


def shown(state):
    return 'READY' if state == 'SKIPPED' else state


class up(Case):
    """an unpowered tag powers up exactly above its sensitivity"""
    params = ['new', 'lost']

    def setup(history):
        t = a_tag('OFF' if history == 'new' else 'READY')
        since = num('since')
        wait = num('wait')
        assume(wait >= 0)
        if history == 'lost':
            t.set_power(since, None)
        return t, history, since, wait, opt(num('power'))

    def actual(x):
        t, history, since, wait, power = x
        t.set_power(since + wait if history == 'lost' else since, power)
        look(t)

    def expected(x):
        t, history, since, wait, power = x
        if power is not None and power > num('sensitivity'):
            if history == 'lost':
                like('READY', power, rule(wait, flags()))
            else:
                f = [std.InventoryFlag.A]
                for k in (1, 2, 3):
                    f.append(std.InventoryFlag.A if since > num('p%d' % k) else flags()[k])
                like('READY', power, f)
        else:
            like('OFF', None, flags())


class first_time(Case):
    """a tag that never had power starts with flags A"""
    def setup():
        m, kernel = world()
        return make_tag(m, kernel), num('since')

    def actual(x):
        t, since = x
        emit('before', t.state.name, t.power, t.tx_power, t.sl)
        t.set_power(since, -17.5)
        emit('after', t.state.name, t.power, t.sl)
        emit('flags', [t.sessions[s] for s in SESSIONS])

    def expected(x):
        emit('before', 'OFF', None, None, False)
        emit('after', 'READY', -17.5, False)
        emit('flags', [std.InventoryFlag.A] * 4)


class down(Case):
    """a powered tag drops out exactly without or below its sensitivity; otherwise only the power is updated"""
    params = POWERED

    def setup(state):
        return a_tag(state), state, num('t'), opt(num('power'))

    def actual(x):
        t, state, time, power = x
        t.set_power(time, power)
        look_tag(t)

    def expected(x):
        t, state, time, power = x
        if power is None or power < num('sensitivity'):
            emit('state', 'OFF')
            emit('flags', flags())
            emit('flags', flags())
            emit('power', None, None)
            return
        emit('state', shown(state))
        emit('flags', flags())
        emit('flags', flags())
        emit('power', power, power + num('loss'))
        if state in ('REPLY', 'ACKNOWLEDGED'):
            emit('number', int_('rn'))
        if state == 'SECURED':
            emit('number', int_('handle'))
        if state == 'ARBITRATE':
            emit('slot', int_('slot'))


class outage(Case):
    """the persistence rule is applied with the whole length of the outage, whatever happens meanwhile, to all sessions"""
    params = [(st, k) for st in POWERED for k in (0, 1, 2)]

    def setup(state, meanwhile):
        since = num('since')
        wait = num('wait')
        power = num('power')
        assume(wait >= 0, power > num('sensitivity'))
        return a_tag(state), meanwhile, since, wait, power

    def actual(x):
        t, meanwhile, since, wait, power = x
        t.set_power(since, None)
        for k in range(meanwhile):
            t.set_power(since + wait / 2, None if k == 0 else t.sensitivity - 1)
            look(t)
        t.set_power(since + wait, power)
        look(t)

    def expected(x):
        t, meanwhile, since, wait, power = x
        for k in range(meanwhile):
            like('OFF', None, flags())
        like('READY', power, rule(wait, flags()))


class second_outage(Case):
    """each outage is measured from its own beginning"""
    def setup():
        since = num('since')
        a = num('a')
        b = num('b')
        c = num('c')
        assume(a >= 0, b >= 0, c >= 0)
        return a_tag('SECURED'), since, a, b, c

    def actual(x):
        t, since, a, b, c = x
        t.sensitivity = -18.0
        t.set_power(since, None)
        t.set_power(since + a, -10.0)
        for s in SESSIONS:
            t.sessions[s] = std.InventoryFlag.B
        t.set_power(since + a + b, -15.0)
        t.set_power(since + a + b, -18.5)
        t.set_power(since + a + b + c, -17.0)
        look(t)

    def expected(x):
        t, since, a, b, c = x
        like('READY', -17.0, rule(c, [std.InventoryFlag.B] * 4))


class forgets(Case):
    """powering down forgets the current round"""
    params = [(st, k) for st in ('ARBITRATE', 'REPLY', 'ACKNOWLEDGED', 'SECURED') for k in ('rep', 'up', 'ack', 'reqrn', 'read')]

    def setup(state, kind):
        return a_tag(state), kind

    def actual(x):
        t, kind = x
        t.sensitivity = -18.0
        t.set_power(4.0, None)
        t.set_power(4.0, -10.0)
        for s in SESSIONS:
            t.sessions[s] = std.InventoryFlag.A
        dice = Dice([])
        integers(dice.draw)
        f = std.QueryRep(std.Session.S1)
        if kind == 'up':
            f = std.QueryAdjust(std.Session.S1, 1)
        elif kind == 'ack':
            f = std.Ack(int_('rn'))
        elif kind == 'reqrn':
            f = std.ReqRN(int_('rn'))
        elif kind == 'read':
            f = std.Read(std.MemoryBank.TID, 0, 1, int_('handle'))
        for k in range(5):
            look_frame(t.receive(sync_frame(f)))
            look(t)

    def expected(x):
        for k in range(5):
            emit('silent')
            like('READY', -10.0, [std.InventoryFlag.A] * 4)


class transmit(Case):
    """transmit power is received power plus modulation loss, at any time"""
    params = POWERED

    def setup(state):
        power = num('power')
        assume(power >= num('sensitivity'))
        return a_tag(state), power

    def actual(x):
        t, power = x
        t.set_power(9.0, power)
        emit('power', t.power, t.tx_power)
        t.modulation_loss = num('other')
        emit('power', t.power, t.tx_power)
        t.set_power(9.5, None)
        emit('power', t.power, t.tx_power)

    def expected(x):
        t, power = x
        emit('power', power, power + num('loss'))
        emit('power', power, power + num('other'))
        emit('power', None, None)


class set_up(Case):
    """setting a tag up clears flags, selection, power-off time and round, with or without power"""
    params = [(st, on) for st in ('OFF', 'READY', 'ARBITRATE', 'REPLY', 'ACKNOWLEDGED', 'SECURED') for on in (True, False)]

    def setup(state, on):
        t = a_tag(state)
        assume(num('now') > 1, num('t') > num('now'))
        return t, on

    def actual(x):
        t, on = x
        t.setup(num('now'), on)
        emit('state', t.state.name, t.sl, t.slot_counter, t.rn)
        emit('flags', [t.sessions[s] for s in SESSIONS])
        # it belongs to no round
        emit('silent', t.receive(sync_frame(std.QueryRep(std.Session.S1))) is None)
        emit('state', t.state.name)
        for s in SESSIONS:
            t.sessions[s] = flag('flag ' + s.string)
        t.set_power(num('t'), -100.0 if on else 100.0)
        emit('state', t.state.name)
        emit('flags', [t.sessions[s] for s in SESSIONS])

    def expected(x):
        t, on = x
        emit('state', 'READY' if on else 'OFF', False, 0, 0)
        emit('flags', [std.InventoryFlag.A] * 4)
        emit('silent', True)
        emit('state', 'READY' if on else 'OFF')
        if on:
            emit('state', 'OFF' if -100 < num('sensitivity') else 'READY')
            emit('flags', flags())
        else:
            up = 100 > num('sensitivity')
            emit('state', 'READY' if up else 'OFF')
            emit('flags', rule(num('t') - num('now'), flags()) if up else flags())
