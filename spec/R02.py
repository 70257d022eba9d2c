"""Rounds and slots: how many there are, how they are opened, who is told."""
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects
from spec.base import Case
from spec.epcref import *
from spec.rfid import *


def listen(r):
    """announce all four notifications"""
    r.round_start_listeners.add(lambda n: emit('round starts', n))
    r.round_finish_listeners.add(lambda n: emit('round ends', n))
    r.slot_start_listeners.add(lambda n, k: emit('slot starts', n, k))
    r.slot_finish_listeners.add(lambda n, k: emit('slot ends', n, k))


def fresh(q, read=False):
    m, kernel, r = make_reader(q, read)
    listen(r)
    return r


def opened(r, f):
    emit('opens', r.state.name, f.command.encode()[:4], r.inventory_round.index, r.inventory_round.slot.index)


def query_code(q):
    return '1000'


class Rounds:
    """the demanded course: rounds of 2^Q slots, numbered on"""
    def __init__(self, q):
        self.q = q
        self.round = -1
        self.slot = None

    def next(self):
        if self.slot is not None:
            emit('slot ends', self.round, self.slot)
        if self.slot is None or self.slot + 1 == 2 ** self.q:
            if self.slot is not None:
                emit('round ends', self.round)
            self.round = self.round + 1
            self.slot = 0
            emit('round starts', self.round)
            emit('slot starts', self.round, 0)
            emit('opens', 'QUERY', '1000', self.round, 0)
        else:
            self.slot = self.slot + 1
            emit('slot starts', self.round, self.slot)
            emit('opens', 'QREP', '0000', self.round, self.slot)

    def stop(self):
        if self.slot is not None:
            emit('slot ends', self.round, self.slot)
            emit('round ends', self.round)
        self.slot = None


class slots(Case):
    """round after round of 2^Q slots when nobody answers"""
    params = [0, 1, 2, 3, 4]
    deep = [5, 6]

    def setup(q):
        return fresh(q), q

    def actual(x):
        r, q = x
        opened(r, r.turn_on())
        for k in range(2 * 2 ** q + 1):
            opened(r, r.timeout())

    def expected(x):
        r, q = x
        c = Rounds(q)
        for k in range(2 * 2 ** q + 2):
            c.next()


class answered(Case):
    """slots with an exchange count the same"""
    params = [(q, read, upto) for q in (0, 1, 2) for read in (False, True) for upto in ('number', 'identifier', 'handle', 'memory')
              if read or upto in ('number', 'identifier')]

    def setup(q, read, upto):
        return fresh(q, read), q, upto

    def actual(x):
        r, q, upto = x
        opened(r, r.turn_on())
        for k in range(2 * 2 ** q):
            r.receive(tag_frame(std.QueryReply(17)))
            if upto == 'number':
                opened(r, r.timeout())
                continue
            f = r.receive(tag_frame(std.AckReply('E200')))
            if r.read_tid_bank:
                if upto != 'identifier':
                    f = r.receive(tag_frame(std.ReqRNReply(18)))
                    if upto == 'memory':
                        f = r.receive(tag_frame(std.ReadReply('E280')))
                    else:
                        f = r.timeout()
                else:
                    f = r.timeout()
            opened(r, f)

    def expected(x):
        r, q, upto = x
        c = Rounds(q)
        for k in range(2 * 2 ** q + 1):
            c.next()


class switched_off(Case):
    """switching off in any slot ends slot and round; the next round has the next number"""
    params = [(q, k, s) for q in (0, 1, 2) for k in range(2 ** q) for s in ('open', 'acknowledged')]

    def setup(q, k, s):
        return fresh(q), q, k, s

    def actual(x):
        r, q, k, s = x
        for turn in range(2):
            opened(r, r.turn_on())
            for i in range(k):
                opened(r, r.timeout())
            if s != 'open':
                r.receive(tag_frame(std.QueryReply(17)))
            r.turn_off()
            emit('off', r.inventory_round is None)
        r.turn_off()
        emit('off', r.inventory_round is None)

    def expected(x):
        r, q, k, s = x
        c = Rounds(q)
        for turn in range(2):
            for i in range(k + 1):
                c.next()
            c.stop()
            emit('off', True)
        emit('off', True)


class by_hand(Case):
    """the same, through the slot interface"""
    params = [0, 1, 2]

    def setup(q):
        return fresh(q), q

    def actual(x):
        r, q = x
        r.stop_round()
        for turn in range(2):
            for k in range(2 ** q + 1):
                s = r.next_slot()
                emit('slot', s.index, s.owner.index, s.first_state.name, s is r.inventory_round.slot)
            r.stop_round()
            r.stop_round()
            emit('none', r.inventory_round is None)

    def expected(x):
        r, q = x
        n = 0
        for turn in range(2):
            emit('round starts', n)
            for k in range(2 ** q):
                emit('slot starts', n, k)
                emit('slot', k, n, 'QUERY' if k == 0 else 'QREP', True)
                emit('slot ends', n, k)
            emit('round ends', n)
            n = n + 1
            emit('round starts', n)
            emit('slot starts', n, 0)
            emit('slot', 0, n, 'QUERY', True)
            emit('slot ends', n, 0)
            emit('round ends', n)
            emit('none', True)
            n = n + 1


class changed_q(Case):
    """a Q that changes after the first slot counts from the next round on"""
    params = [(a, b, k) for a in (1, 2, 3) for b in (a - 1, a + 1) for k in (2, 3, 5) if k <= 2 ** a]

    def setup(a, b, k):
        return fresh(a), a, b, k

    def actual(x):
        r, a, b, k = x
        opened(r, r.turn_on())
        for i in range(2 ** a + 2 ** b):
            if i == k - 1:
                r.q = b
            opened(r, r.timeout())

    def expected(x):
        r, a, b, k = x
        c = Rounds(a)
        for i in range(2 ** a + 2 ** b + 1):
            if i == 2 ** a:
                c.slot = 2 ** a - 1
                c.q = a
            c.next()
            if i == 2 ** a:
                c.q = b


class changed_in_first(Case):
    """a Q that changes within the first slot sets the length of this round already"""
    params = [(a, b, adjusted) for a in (0, 1, 2, 3) for b in (a - 1, a + 1) if b >= 0 for adjusted in (False, True)]

    def setup(a, b, adjusted):
        return fresh(a), a, b, adjusted

    def actual(x):
        r, a, b, adjusted = x
        opened(r, r.turn_on())
        r.q = b
        if adjusted:
            r.updn = b - a
            emit('code', r.set_state(r.State.QAdjust).command.encode()[:4])
        for i in range(2 ** b + 2):
            opened(r, r.timeout())

    def expected(x):
        r, a, b, adjusted = x
        c = Rounds(b)
        c.next()
        if adjusted:
            emit('code', '1001')
        for i in range(2 ** b + 2):
            c.next()


class adjusting(Case):
    """QueryAdjust opens no slot of its own"""
    def setup():
        return fresh(2)

    def actual(r):
        opened(r, r.turn_on())
        opened(r, r.timeout())
        r.updn = 1
        r.q = 3
        emit('code', r.set_state(r.State.QAdjust).command.encode()[:4])
        for k in range(4):
            opened(r, r.timeout())

    def expected(r):
        c = Rounds(2)
        c.next()
        c.next()
        emit('code', '1001')
        c.next()
        c.next()
        c.next()
        c.q = 3
        c.next()


class own_arguments(Case):
    """each listener gets the numbers and its own arguments, in the order of addition, until removed"""
    params = ['slot_start_listeners', 'slot_finish_listeners', 'round_start_listeners', 'round_finish_listeners',
              'power_on_listeners', 'power_off_listeners', 'state_change_listeners']

    def setup(which):
        m, kernel, r = make_reader(0)
        r.slot_finish_listeners.add(lambda n, k: None)
        return r, which, any_('a'), any_('b'), any_('c')

    def actual(x):
        r, which, a, b, c = x
        l = r.state_change_listeners
        if which == 'slot_start_listeners':
            l = r.slot_start_listeners
        elif which == 'slot_finish_listeners':
            l = r.slot_finish_listeners
        elif which == 'round_start_listeners':
            l = r.round_start_listeners
        elif which == 'round_finish_listeners':
            l = r.round_finish_listeners
        elif which == 'power_on_listeners':
            l = r.power_on_listeners
        elif which == 'power_off_listeners':
            l = r.power_off_listeners

        def tell(*numbers, who, extra=None):
            emit('told', who, extra)
        i = l.add(tell, who=a)
        j = l.add(tell, who=b, extra=c)
        k = l.add(tell, who=c)
        emit('ids', i != j, j != k, i != k)
        for step in range(4):
            emit('step')
            r.turn_on()
            r.turn_off()
            if step == 0:
                l.remove(j)
            elif step == 1:
                j = l.add(tell, who=b)
                emit('ids', i != j, j != k)
                l.remove(i)
            elif step == 2:
                l.remove(i)
                l.clear()

    def expected(x):
        r, which, a, b, c = x
        times = 2 if which == 'state_change_listeners' else 1
        emit('ids', True, True, True)
        emit('step')
        for t in range(times):
            emit('told', a, None)
            emit('told', b, c)
            emit('told', c, None)
        emit('step')
        for t in range(times):
            emit('told', a, None)
            emit('told', c, None)
        emit('ids', True, True)
        emit('step')
        for t in range(times):
            emit('told', c, None)
            emit('told', b, None)
        emit('step')


class removes_itself(Case):
    """a listener that removes itself while it is told, as the read records do, leaves the others alone"""
    params = [0, 1, 2]

    def setup(place):
        m, kernel, r = make_reader(1)
        return r, place

    def actual(x):
        r, place = x
        l = r.slot_finish_listeners
        box = []

        def once(n, k, who):
            emit('told', who, n, k)
            l.remove(box[0])

        def always(n, k, who):
            emit('told', who, n, k)
        for p in range(3):
            if p == place:
                box.append(l.add(once, who=p))
            else:
                l.add(always, who=p)
        r.turn_on()
        r.timeout()
        r.timeout()
        r.timeout()

    def expected(x):
        r, place = x
        for n, k in ((0, 0), (0, 1), (1, 0)):
            for p in range(3):
                if p != place or (n, k) == (0, 0):
                    emit('told', p, n, k)
