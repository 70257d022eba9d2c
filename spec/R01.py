"""The reader's protocol: next state and next command after every event."""
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects
from spec.base import Case
from spec.epcref import *
from spec.rfid import *

BUSY = ('QUERY', 'QREP', 'QAdjust', 'ACK', 'REQRN', 'READ')
OPENING = ('QUERY', 'QREP', 'QAdjust')


def watch(r):
    r.state_change_listeners.add(lambda old, new: emit('change', old.name, new.name))


def ready(state, read=False, q=2):
    m, kernel, r = make_reader(q, read)
    r.session = std.Session.S1
    drive(r, state, int_('rn1'))
    watch(r)
    return m, kernel, r


def look(r, f):
    emit('state', r.state.name)
    emit('command', None if f is None else f.command.encode())
    emit('power', r.power, r.tx_power)


def follow(r, old, new, code):
    emit('change', old, new)
    emit('state', new)
    emit('command', code)
    emit('power', 31.5, 31.5)


class opening_reply(Case):
    """a number received after Query, QueryRep or QueryAdjust is acknowledged"""
    params = OPENING

    def setup(state):
        rn = int_('rn2')
        return ready(state)[2], state, rn

    def actual(x):
        r, state, rn = x
        look(r, r.receive(tag_frame(std.QueryReply(rn))))

    def expected(x):
        r, state, rn = x
        follow(r, state, 'ACK', '01' + bits(rn, 16))


class identifier(Case):
    """after an identifier the handle is requested if memory is to be read, otherwise the next slot follows"""
    params = [True, False]

    def setup(read):
        return ready('ACK', read)[2], read

    def actual(x):
        r, read = x
        look(r, r.receive(tag_frame(std.AckReply('E2003412'))))

    def expected(x):
        r, read = x
        if read:
            follow(r, 'ACK', 'REQRN', '11000001' + bits(int_('rn1'), 16) + '0' * 16)
        else:
            follow(r, 'ACK', 'QREP', '0001')


class handle(Case):
    """memory is read with the handle"""
    def setup():
        rn = int_('rn2')
        return ready('REQRN', True)[2], rn

    def actual(x):
        r, rn = x
        look(r, r.receive(tag_frame(std.ReqRNReply(rn))))

    def expected(x):
        r, rn = x
        follow(r, 'REQRN', 'READ', '11000010' + '10' + '00000000' + '00000110' + bits(rn, 16) + '0' * 16)


class memory(Case):
    """after a read the next slot follows"""
    def setup():
        return ready('READ', True)[2]

    def actual(r):
        look(r, r.receive(tag_frame(std.ReadReply('E280'))))

    def expected(r):
        follow(r, 'READ', 'QREP', '0001')


class timeout(Case):
    """after any timeout the next slot follows"""
    params = BUSY

    def setup(state):
        return ready(state, True)[2], state

    def actual(x):
        r, state = x
        look(r, r.timeout())

    def expected(x):
        r, state = x
        follow(r, state, 'QREP', '0001')


class last_slot(Case):
    """after the last slot the next round is opened"""
    params = [(s, e) for s in BUSY for e in ('timeout', 'reply') if e == 'timeout' or s == 'READ'] + [('ACK', 'no read')]

    def setup(state, event):
        m, kernel, r = ready(state, event != 'no read', 0 if state != 'QREP' else 1)
        return r, state, event

    def actual(x):
        r, state, event = x
        if event == 'timeout':
            f = r.timeout()
        elif event == 'reply':
            f = r.receive(tag_frame(std.ReadReply('E280')))
        else:
            f = r.receive(tag_frame(std.AckReply('E280')))
        look(r, f)

    def expected(x):
        r, state, event = x
        follow(r, state, 'QUERY', '1000' + '0' + '10' + '0' + '00' + '01' + '0' + ('0000' if state != 'QREP' else '0001') + '00000')


POSSIBLE = {'QUERY': ('query',), 'QREP': ('query',), 'QAdjust': ('query',), 'ACK': ('ack',), 'REQRN': ('reqrn',), 'READ': ('read',)}


def reply(kind):
    if kind == 'query':
        return std.QueryReply(1)
    if kind == 'ack':
        return std.AckReply('E200')
    if kind == 'reqrn':
        return std.ReqRNReply(2)
    return std.ReadReply('E280')


class impossible(Case):
    """a reply that is impossible in the state is an error"""
    params = [(s, k) for s in BUSY for k in ('query', 'ack', 'reqrn', 'read') if k not in POSSIBLE[s]]

    def setup(state, kind):
        return ready(state, True)[2], kind

    def actual(x):
        r, kind = x
        r.receive(tag_frame(reply(kind)))

    def expected(x):
        raise RuntimeError()


class off_replies(Case):
    """in the off state all replies are ignored"""
    params = [(h, k) for h in ('new', 'used') for k in ('query', 'ack', 'reqrn', 'read')]

    def setup(history, kind):
        m, kernel, r = make_reader()
        if history == 'used':
            r.turn_on()
            r.turn_off()
        watch(r)
        return r, kind

    def actual(x):
        r, kind = x
        look(r, r.receive(tag_frame(reply(kind))))
        emit('number', r.last_rn)

    def expected(x):
        emit('state', 'OFF')
        emit('command', None)
        emit('power', None, None)
        emit('number', None)


class turning_off(Case):
    """from any state to the off state, without transmitter power, round and number"""
    params = BUSY

    def setup(state):
        return ready(state, True)[2], state

    def actual(x):
        r, state = x
        look(r, r.turn_off())
        emit('number', r.last_rn)
        emit('round', r.inventory_round is None)
        emit('since', r.time_last_turned_on)

    def expected(x):
        r, state = x
        emit('change', state, 'OFF')
        emit('state', 'OFF')
        emit('command', None)
        emit('power', None, None)
        emit('number', None)
        emit('round', True)
        emit('since', None)


class off_again(Case):
    """turning off twice changes nothing"""
    def setup():
        return ready('OFF')[2]

    def actual(r):
        look(r, r.turn_off())

    def expected(r):
        emit('state', 'OFF')
        emit('command', None)
        emit('power', None, None)


class turning_on(Case):
    """a reader that is turned on opens a round with full power; timeout of the off state does the same"""
    params = [(h, w) for h in ('new', 'used') for w in ('turn on', 'timeout')]

    def setup(history, way):
        m, kernel, r = make_reader(3)
        r.max_power = num('power')
        r.session = std.Session.S3
        r.target = std.InventoryFlag.B
        if history == 'used':
            r.turn_on()
            r.timeout()
            r.turn_off()
        watch(r)
        return r, way

    def actual(x):
        r, way = x
        f = r.turn_on() if way == 'turn on' else r.timeout()
        look(r, f)
        emit('since', r.time_last_turned_on)

    def expected(x):
        r, way = x
        emit('change', 'OFF', 'QUERY')
        emit('state', 'QUERY')
        emit('command', '1000' + '0' + '10' + '0' + '00' + '11' + '1' + '0011' + '00000')
        emit('power', num('power'), num('power'))
        emit('since', num('now'))


class on_again(Case):
    """turning on a reader that is on does not disturb the exchange"""
    params = BUSY

    def setup(state):
        return ready(state, True)[2], state

    def actual(x):
        r, state = x
        look(r, r.turn_on())

    def expected(x):
        r, state = x
        emit('state', state)
        emit('command', None)
        emit('power', 31.5, 31.5)


class listeners(Case):
    """each state change is announced once to every listener, before the reader is in the new state"""
    def setup():
        return ready('OFF', True)[2]

    def actual(r):
        r.state_change_listeners.add(lambda old, new, who: emit('told', who, old.name, new.name), who='first')
        r.state_change_listeners.add(lambda old, new, who: emit('told', who, old.name, new.name), who='second')
        r.turn_on()
        r.receive(tag_frame(std.QueryReply(9)))
        r.receive(tag_frame(std.AckReply('E200')))
        r.receive(tag_frame(std.ReqRNReply(10)))
        r.receive(tag_frame(std.ReadReply('E280')))
        r.turn_off()

    def expected(r):
        s = ('OFF', 'QUERY', 'ACK', 'REQRN', 'READ', 'QREP', 'OFF')
        for k in range(6):
            emit('change', s[k], s[k + 1])
            emit('told', 'first', s[k], s[k + 1])
            emit('told', 'second', s[k], s[k + 1])


class power_listeners(Case):
    """switching on and off is announced"""
    def setup():
        return ready('OFF')[2]

    def actual(r):
        r.power_on_listeners.add(lambda: emit('on'))
        r.power_off_listeners.add(lambda: emit('off'))
        for k in range(2):
            r.turn_on()
            r.turn_off()

    def expected(r):
        for k in range(2):
            emit('on')
            emit('change', 'OFF', 'QUERY')
            emit('off')
            emit('change', 'QUERY', 'OFF')


class exchange(Case):
    """whole exchanges, round after round"""
    params = [True, False]

    def setup(read):
        return ready('OFF', read, 1)[2], read, [int_('n%d' % k) for k in range(4)], [int_('h%d' % k) for k in range(4)]

    def actual(x):
        r, read, n, h = x
        f = r.turn_on()
        for k in range(4):
            emit('open', f.command.encode())
            f = r.receive(tag_frame(std.QueryReply(n[k])))
            emit('ack', f.command.encode())
            f = r.receive(tag_frame(std.AckReply('E2')))
            if read:
                emit('request', f.command.encode())
                f = r.receive(tag_frame(std.ReqRNReply(h[k])))
                emit('read', f.command.encode())
                f = r.receive(tag_frame(std.ReadReply('E280')))
        look(r, f)

    def expected(x):
        r, read, n, h = x
        query = '1000' + '0' + '10' + '0' + '00' + '01' + '0' + '0001' + '00000'
        last = 'OFF'
        for k in range(4):
            new = 'QREP' if k % 2 else 'QUERY'
            emit('change', last, new)
            emit('open', '0001' if k % 2 else query)
            emit('change', new, 'ACK')
            emit('ack', '01' + bits(n[k], 16))
            last = 'ACK'
            if read:
                emit('change', 'ACK', 'REQRN')
                emit('request', '11000001' + bits(n[k], 16) + '0' * 16)
                emit('change', 'REQRN', 'READ')
                emit('read', '11000010' + '10' + '00000000' + '00000110' + bits(h[k], 16) + '0' * 16)
                last = 'READ'
        emit('change', last, 'QUERY')
        emit('state', 'QUERY')
        emit('command', query)
        emit('power', 31.5, 31.5)


class targets(Case):
    """with alternating targets each of the flags is the target for the configured number of rounds, starting with A"""
    params = [(n, k) for n in (1, 2, 3) for k in ('new', 'used')]
    deep = [(n, k) for n in (4, 5) for k in ('new', 'used')]

    def setup(n, history):
        m, kernel, r = make_reader(0, False, 'switch')
        r.rounds_per_target = n
        r.target = flag('first target')
        if history == 'used':
            r.turn_on()
            r.timeout()
            r.turn_off()
        return r, n

    def actual(x):
        r, n = x
        f = r.turn_on()
        for k in range(3 * n + 2):
            emit('target', f.command.target)
            f = r.timeout()

    def expected(x):
        r, n = x
        for k in range(3 * n + 2):
            emit('target', std.InventoryFlag.B if k // n % 2 else std.InventoryFlag.A)


class constant_target(Case):
    """without alternation the target stays"""
    def setup():
        m, kernel, r = make_reader(0)
        r.target = flag('target')
        return r

    def actual(r):
        f = r.turn_on()
        for k in range(3):
            emit('target', f.command.target)
            f = r.timeout()

    def expected(r):
        for k in range(3):
            emit('target', r.target)
