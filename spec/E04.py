"""Each kind of command and reply has its own handling."""
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects
from spec.base import Case
from spec.rfid import *

COMMANDS = ('query', 'rep', 'adjust', 'ack', 'reqrn', 'read')
REPLIES = ('query', 'ack', 'reqrn', 'read')


def command(kind, session, rn):
    if kind == 'query':
        return std.Query(q=3, session=session)
    if kind == 'rep':
        return std.QueryRep(session)
    if kind == 'adjust':
        return std.QueryAdjust(session, -1)
    if kind == 'ack':
        return std.Ack(rn)
    if kind == 'reqrn':
        return std.ReqRN(rn)
    return std.Read(std.MemoryBank.TID, 0, 2, rn)


class tags(Case):
    """a tag handles each kind of command as that kind, in each state"""
    params = [(s, c) for s in TAG_STATES for c in COMMANDS]

    def setup(state, kind):
        m, kernel, t = tag_in(state, std.Session.S2, slot=1)
        slot, number = int_('new slot'), int_('new number')
        assume(slot >= 0, slot < 32)
        return t, kind, frame_of(command(kind, std.Session.S2, t.rn)), [slot, number]

    def actual(x):
        t, kind, f, values = x
        d = Dice(values, True)
        integers(d.draw)
        look_frame(t.receive(f))
        look_tag(t)

    def expected(x):
        t, kind, f, values = x
        d = Dice(values, True)
        integers(d.draw)
        if kind == 'query':
            r = t.process_query(f)
        elif kind == 'rep':
            r = t.process_query_rep(f)
        elif kind == 'adjust':
            r = t.process_query_adjust(f)
        elif kind == 'ack':
            r = t.process_ack(f)
        elif kind == 'reqrn':
            r = t.process_reqrn(f)
        else:
            r = t.process_read(f)
        look_frame(r)
        look_tag(t)


class unknown_command(Case):
    """a tag rejects other commands, in each state"""
    params = TAG_STATES

    def setup(state):
        m, kernel, t = tag_in(state, std.Session.S2, slot=1)
        return t

    def actual(t):
        t.receive(sync_frame(std.Command(std.CommandCode.ACK)))

    def expected(t):
        raise TypeError()


def reply(kind):
    if kind == 'query':
        return std.QueryReply(int_('rn2'))
    if kind == 'ack':
        return std.AckReply('E200')
    if kind == 'reqrn':
        return std.ReqRNReply(int_('rn2'))
    return std.ReadReply('E280', rn=int_('rn2'))


def look_reader(r, f):
    emit('state', r.state.name)
    emit('number', r.last_rn)
    emit('command', None if f is None else (f.command.encode(), f.duration))


class readers(Case):
    """a reader handles each kind of reply as that kind, in each state"""
    params = [(s, k, read) for s in READER_STATES for k in REPLIES for read in (True, False) if read or s not in ('REQRN', 'READ')]

    def setup(state, kind, read):
        m, kernel, r = make_reader(2, read)
        drive(r, state, int_('rn1'))
        return r, kind, tag_frame(reply(kind))

    def actual(x):
        r, kind, f = x
        look_reader(r, r.receive(f))

    def expected(x):
        r, kind, f = x
        if kind == 'query':
            c = r.state.handle_query_reply(r, f)
        elif kind == 'ack':
            c = r.state.handle_ack_reply(r, f)
        elif kind == 'reqrn':
            c = r.state.handle_reqrn_reply(r, f)
        else:
            c = r.state.handle_read_reply(r, f)
        look_reader(r, c)


class unknown_reply(Case):
    """a reader rejects other replies, in each state"""
    params = READER_STATES

    def setup(state):
        m, kernel, r = make_reader(2, True)
        drive(r, state, int_('rn1'))
        return r

    def actual(r):
        r.receive(tag_frame(std.Reply(std.ReplyType.ACK_REPLY)))

    def expected(r):
        raise ValueError()


class states(Case):
    """each state of the reader is the one of its name: what it is called, what it sends and how long it waits"""
    params = READER_STATES

    def setup(state):
        m, kernel, r = make_reader(2, True)
        r.power_off_duration = num('pause')
        r.last_rn = 0x1234
        r.updn = -1
        return r, state

    def actual(x):
        r, state = x
        s = r.State[state]
        emit('name', str(s))
        emit('timeout', s.get_timeout(r))
        f = s.enter(r)
        emit('command', None if f is None else f.command.encode())

    def expected(x):
        r, state = x
        emit('name', {'QAdjust': 'QADJUST'}.get(state, state))
        commands = {
            'QUERY': std.Query(r.dr, r.tag_encoding, r.trext, r.sel, r.session, r.target, r.q),
            'QREP': std.QueryRep(r.session),
            'QAdjust': std.QueryAdjust(r.session, -1),
            'ACK': std.Ack(0x1234),
            'REQRN': std.ReqRN(0x1234),
            'READ': std.Read(std.MemoryBank.TID, 0, 6, 0x1234),
        }
        if state == 'OFF':
            emit('timeout', r.power_off_duration)
            emit('command', None)
        else:
            c = commands[state]
            emit('timeout', std.reader_frame_duration(c, r.tari, r.rtcal, r.trcal, r.delim) + std.link_t1_max(r.rtcal, r.trcal, r.dr, r.temp))
            emit('command', c.encode())


class command_codes(Case):
    """every command code has its own duration"""
    params = ['QUERY', 'QUERY_REP', 'QUERY_ADJUST', 'ACK', 'REQ_RN', 'READ']

    def setup(code):
        return code, num('tari'), num('rtcal'), num('trcal'), num('delim')

    def actual(x):
        code, tari, rtcal, trcal, delim = x
        emit('time', std.command_duration(std.CommandCode[code], tari, rtcal, trcal, delim))

    def expected(x):
        code, tari, rtcal, trcal, delim = x
        c = {'QUERY': std.Query(), 'QUERY_REP': std.QueryRep(), 'QUERY_ADJUST': std.QueryAdjust(), 'ACK': std.Ack(None),
             'REQ_RN': std.ReqRN(), 'READ': std.Read()}[code]
        emit('time', std.reader_frame_duration(c, tari, rtcal, trcal, delim))


class reply_codes(Case):
    """every reply type has its own duration"""
    params = ['QUERY_REPLY', 'ACK_REPLY', 'REQRN_REPLY', 'READ_REPLY']

    def setup(code):
        trcal = num('trcal')
        assume(trcal > 0)
        return code, enum(std.DivideRatio, 'dr'), trcal, enum(std.TagEncoding, 'm'), boolean('trext')

    def actual(x):
        code, dr, trcal, m, trext = x
        emit('time', std.reply_duration(std.ReplyType[code], dr, trcal, m, trext, 8, 6))

    def expected(x):
        code, dr, trcal, m, trext = x
        c = {'QUERY_REPLY': std.QueryReply(), 'ACK_REPLY': std.AckReply('00' * 8), 'REQRN_REPLY': std.ReqRNReply(), 'READ_REPLY': std.ReadReply('00' * 12)}[code]
        emit('time', std.tag_frame_duration(c, std.get_blf(dr, trcal), m, trext))


class unknown_codes(Case):
    """other codes are rejected"""
    params = [(w, v) for w in ('command', 'reply') for v in ('none', 'text', 'number', 'other')]

    def setup(which, v):
        other = std.ReplyType.ACK_REPLY if which == 'command' else std.CommandCode.ACK
        return which, None if v == 'none' else '01' if v == 'text' else 1 if v == 'number' else other

    def actual(x):
        which, v = x
        if which == 'command':
            std.command_duration(v)
        else:
            std.reply_duration(v)

    def expected(x):
        raise ValueError()
