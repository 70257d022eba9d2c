"""Tags and readers in every state, reached through their public interface."""
import numpy as np
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects

TAG_STATES = ('OFF', 'READY', 'SKIPPED', 'ARBITRATE', 'REPLY', 'ACKNOWLEDGED', 'SECURED')
READER_STATES = ('OFF', 'QUERY', 'QREP', 'QAdjust', 'ACK', 'REQRN', 'READ')
SESSIONS = (std.Session.S0, std.Session.S1, std.Session.S2, std.Session.S3)


class Dice:
    """answers integer draws with the given values, in order; announces them if asked to"""
    def __init__(self, values, tell=False):
        self.values = list(values)
        self.tell = tell

    def draw(self, low, high):
        if self.tell:
            emit('draw', low, high)
        return self.values.pop(0)


def flag(name):
    return enum(std.InventoryFlag, name)


def world():
    m = objects.Model()
    return m, simulator(m)


def query_frame(command, trcal):
    return std.ReaderFrame(std.ReaderPreamble(6.25e-6, 18.75e-6, trcal, 12.5e-6), command)


def sync_frame(command):
    return std.ReaderFrame(std.ReaderSync(6.25e-6, 18.75e-6, 12.5e-6), command)


def frame_of(command, trcal=31.25e-6):
    return query_frame(command, trcal) if isinstance(command, std.Query) else sync_frame(command)


def make_tag(m, kernel, number=7):
    t = objects.Tag(number, kernel)
    t.pos = np.array([num('x'), num('y'), num('z')])
    t.epc = 'E2003412'
    t.tid = 'E280110520007A5B'
    t.user_mem = '0123456789ABCDEF0123'
    m.tags.append(t)
    m.statistics.create_tag_record(t)
    return t


def tag_in(state, session, dr=None, trcal=31.25e-6, enc=None, trext=False, q=4, slot=None):
    """a tag of a round of the session; its flags are arbitrary afterwards"""
    m, kernel = world()
    t = make_tag(m, kernel)
    rn = int_('rn')
    handle = int_('handle')
    assume(rn >= 0, rn < 0x10000, handle >= 0, handle < 0x10000)
    if state != 'OFF':
        t.set_power(0.5, -10.0)
        target = std.InventoryFlag.B if state == 'SKIPPED' else std.InventoryFlag.A
        if state != 'READY':
            d = Dice([slot if state == 'ARBITRATE' else 0, rn])
            integers(d.draw)
            t.receive(query_frame(std.Query(dr, enc, trext, std.SelFlag.ALL, session, target, q), trcal))
        if state in ('ACKNOWLEDGED', 'SECURED'):
            t.receive(sync_frame(std.Ack(rn)))
        if state == 'SECURED':
            d = Dice([handle])
            integers(d.draw)
            t.receive(sync_frame(std.ReqRN(rn)))
    for s in SESSIONS:
        t.sessions[s] = flag('flag ' + s.string)
    return m, kernel, t


def look_tag(t):
    """what can be seen of a tag"""
    state = t.state.name
    emit('state', state)
    emit('flags', [t.sessions[s] for s in SESSIONS])
    emit('flags', [t.s0, t.s1, t.s2, t.s3])
    emit('power', t.power, t.tx_power)
    if state in ('REPLY', 'ACKNOWLEDGED', 'SECURED'):
        emit('number', t.rn)
    if state == 'ARBITRATE':
        emit('slot', t.slot_counter)


def look_frame(f):
    if f is None:
        emit('silent')
        return
    if isinstance(f.preamble, std.Reply) or isinstance(f.reply, std.TagPreamble):
        emit('misplaced parts')
        return
    r = f.reply
    emit('reply', f.preamble.encoding, f.preamble.bitlen, f.bitlen, r.bitlen)
    if isinstance(r, std.QueryReply):
        emit('number', r.rn)
    elif isinstance(r, std.AckReply):
        emit('identifier', r.get_epc_string())
    elif isinstance(r, std.ReqRNReply):
        emit('handle', r.rn)
    else:
        emit('memory', r.get_memory_string(), r.rn)


def make_reader(q=2, read=False, strategy='const', antennas=1):
    m, kernel = world()
    r = m.reader
    r.kernel = kernel
    r.q = q
    r.tag_encoding = std.TagEncoding.M4
    r.read_tid_bank = read
    r.read_tid_words_num = 6
    r.target_strategy = strategy
    for k in range(antennas):
        a = objects.Antenna()
        a.pos = np.array([num('ax%d' % k), num('ay%d' % k), num('az%d' % k)])
        r.attach_antenna(a)
    return m, kernel, r


def tag_frame(reply):
    return std.TagFrame(std.create_tag_preamble(std.TagEncoding.M4, False), reply)


def drive(r, state, rn):
    """turn on and go to the state"""
    if state == 'OFF':
        return
    r.turn_on()
    if state == 'QREP':
        r.timeout()
    elif state == 'QAdjust':
        r.updn = 1
        r.set_state(r.State.QAdjust)
    elif state != 'QUERY':
        r.receive(tag_frame(std.QueryReply(rn)))
        if state != 'ACK':
            r.receive(tag_frame(std.AckReply('E200')))
            if state != 'REQRN':
                r.receive(tag_frame(std.ReqRNReply(rn)))


def preamble_bits(m, trext):
    """pilot tone, preamble"""
    if m is std.TagEncoding.FM0:
        return 18 if trext else 6
    return 22 if trext else 10


def tag_time(n, dr, trcal, m, trext):
    """time on the air of a reply of n bits"""
    return (preamble_bits(m, trext) + n + 1) * symbols(m) * trcal / ratio(dr)


def ratio(dr):
    return 64.0 / 3 if dr is std.DivideRatio.DR_643 else 8.0


def symbols(m):
    if m is std.TagEncoding.M2:
        return 2
    if m is std.TagEncoding.M4:
        return 4
    if m is std.TagEncoding.M8:
        return 8
    return 1


class Desk:
    """a simulator whose events are brought about one by one, by their handlers"""
    def __init__(self, context, now=0):
        self.context = context
        self.now = now
        self.pending = []
        self.number = 0
        self.logger = logger()
        self.stops = 0

    @property
    def time(self):
        return self.now

    def schedule(self, delay, handler, args=(), msg=''):
        self.number = self.number + 1
        if delay is None:
            return None
        self.pending.append((self.now + delay, handler, tuple(args), self.number))
        return self.number

    def call(self, handler, args=(), msg=''):
        return self.schedule(0, handler, args, msg)

    def cancel(self, number):
        n = len(self.pending)
        self.pending = [e for e in self.pending if e[3] != number]
        return n - len(self.pending)

    def stop(self, msg=''):
        self.stops = self.stops + 1

    def due(self, handler):
        """when the handler is to be called"""
        return [e[0] for e in self.pending if e[1] is handler]

    def fire(self, handler, k=0):
        """let the k-th pending event of the handler happen"""
        e = [e for e in self.pending if e[1] is handler][k]
        self.pending = [d for d in self.pending if d[3] != e[3]]
        self.now = e[0]
        handler(self, *e[2])

    def agenda(self, *handlers):
        """all that is planned"""
        for h in handlers:
            emit('planned', self.due(h))
        emit('planned in all', len(self.pending))


class Air(objects.Medium):
    """a medium with chosen powers and qualities: functions of tag and time"""
    def __init__(self):
        super().__init__()
        self.forward = lambda reader, tag, time: None
        self.backward = lambda reader, tag, time: None
        self.snr = lambda reader, tag, time: 10.0
        self.ber = lambda snr: 0.0

    def estimate_tag_rx_power(self, reader, tag, time):
        if isinstance(tag, objects.Reader):
            return 1000.0
        return self.forward(reader, tag, time)

    def estimate_reader_rx_power(self, reader, tag, time):
        if isinstance(tag, objects.Reader):
            return 1000.0
        return self.backward(reader, tag, time)

    def get_forward_path_loss(self, reader, tag, time):
        return 0.0 if isinstance(tag, objects.Reader) else -40.0 - tag.tag_id

    def get_backward_path_loss(self, reader, tag, time):
        return 0.0 if isinstance(tag, objects.Reader) else -51.0 - tag.tag_id

    def estimate_reader_rx_snr(self, reader, tag, tags, time):
        if isinstance(tag, objects.Reader):
            return -1000.0
        return self.snr(reader, tag, time)

    def estimate_reader_rx_ber(self, reader, tag, tags, snr):
        return self.ber(snr)


def field(q=2, read=False, now=0, antennas=1):
    """a model at its desk, the reader not yet switched on"""
    m, kernel, r = make_reader(q, read, antennas=antennas)
    desk = Desk(m, now)
    r.kernel = desk
    m.medium = Air()
    return m, desk, r


def somewhere(t):
    """the tag has a place and a direction, as every tag of a generator"""
    t.pos = np.array([0.5, 1.5 + t.tag_id, 2.5])
    t.direction = np.array([0.0, 1.0, 0.0])
    t.velocity = 0.0
    t.last_pos_update = 0.0
    return t


def stranger(desk, number, reply=None):
    """a reply of a tag that is not in the field"""
    t = somewhere(objects.Tag(number, desk))
    return t, tag_frame(std.QueryReply(100 + number) if reply is None else reply)
