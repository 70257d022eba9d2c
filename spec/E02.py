"""Air time of frames and every way to compute it."""
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects
from spec.base import Case
from spec.epcref import *


def sync_time(tari, rtcal, delim):
    return delim + tari + rtcal


def body_time(bits, tari, rtcal):
    t = 0
    for b in bits:
        t = t + (rtcal - tari if b == '1' else tari)
    return t


def reader_time(bits, tari, rtcal, trcal, delim):
    """None stands for the default"""
    tari = 6.25e-6 if tari is None else tari
    rtcal = 1.5625e-05 if rtcal is None else rtcal
    trcal = 3.125e-05 if trcal is None else trcal
    delim = 12.5e-6 if delim is None else delim
    t = sync_time(tari, rtcal, delim) + body_time(bits, tari, rtcal)
    if bits.startswith('1000'):
        t = t + trcal
    return t


def preamble_bits(m, trext):
    if m is None or m is std.TagEncoding.FM0:
        return 18 if trext else 6
    return 22 if trext else 10


def tag_time(n, dr, trcal, m, trext):
    trcal = 3.125e-05 if trcal is None else trcal
    blf = (64.0 / 3 if dr is std.DivideRatio.DR_643 else 8.0) / trcal
    return (preamble_bits(m, trext) + n + 1) * symbols(m) / blf


def us(x):
    """times are compared as microseconds with six places"""
    return rounded(x * 1000000, 6)


class sync(Case):
    """data-0, data-1 and the two preambles"""
    def setup():
        return num('tari'), num('rtcal'), num('trcal'), num('delim')

    def actual(x):
        tari, rtcal, trcal, delim = x
        s = std.ReaderSync(tari, rtcal, delim)
        emit('sync', (s.data0, s.data1, s.duration))
        s = std.ReaderPreamble(tari, rtcal, trcal, delim)
        emit('preamble', (s.data0, s.data1, s.duration))
        emit('delim', (std.ReaderSync(tari, rtcal).delim, std.ReaderPreamble(tari, rtcal, trcal).delim))

    def expected(x):
        tari, rtcal, trcal, delim = x
        emit('sync', (tari, rtcal - tari, delim + tari + rtcal))
        emit('preamble', (tari, rtcal - tari, delim + tari + rtcal + trcal))
        emit('delim', (12.5e-6, 12.5e-6))


class frame(Case):
    """preamble plus the sum of the symbol times"""
    params = ['', '0', '1', '01', '10', '111', '000', '0110100101', '1000', '00' * 20 + '1', '1' * 33 + '0']

    def setup(bits):
        return bits, num('tari'), num('rtcal'), num('trcal'), num('delim')

    def actual(x):
        bits, tari, rtcal, trcal, delim = x
        c = record('command', encode=lambda: bits)
        for p in (std.ReaderSync(tari, rtcal, delim), std.ReaderPreamble(tari, rtcal, trcal, delim)):
            f = std.ReaderFrame(p, c)
            emit('frame', (f.preamble_duration, f.body_duration, f.duration))
            f = std.ReaderFrame(p, bits)
            emit('frame', (f.preamble_duration, f.body_duration, f.duration))
        emit('helper', std.reader_frame_duration(bits, tari, rtcal, trcal, delim))

    def expected(x):
        bits, tari, rtcal, trcal, delim = x
        body = body_time(bits, tari, rtcal)
        for p in (delim + tari + rtcal, delim + tari + rtcal + trcal):
            emit('frame', (p, body, p + body))
            emit('frame', (p, body, p + body))
        emit('helper', reader_time(bits, tari, rtcal, trcal, delim))


def command_of(kind, a):
    """a command, its bits, and the arguments of its helper and of the dispatcher"""
    dr = (None, std.DivideRatio.DR_8, std.DivideRatio.DR_643)[a % 3]
    m = (None, std.TagEncoding.FM0, std.TagEncoding.M2, std.TagEncoding.M4, std.TagEncoding.M8)[a % 5]
    trext = (None, True, False)[a % 3]
    sel = (None, std.SelFlag.ALL, std.SelFlag.SEL, std.SelFlag.NOT_SEL)[(a + 1) % 4]
    session = (None, std.Session.S0, std.Session.S1, std.Session.S2, std.Session.S3)[(a * 2) % 5]
    target = (None, std.InventoryFlag.A, std.InventoryFlag.B)[(a + 1) % 3]
    q = (None, 0, 1, 7, 15)[a % 5]
    rn = (None, 0, 1, 0xffff, 0x8000, 0x1234)[a % 6]
    crc5 = (None, 0, 31, 5)[a % 4]
    crc16 = (None, 0, 0xffff, 0x0ff0)[(a + 2) % 4]
    bank = (None, std.MemoryBank.RESERVED, std.MemoryBank.EPC, std.MemoryBank.TID, std.MemoryBank.USER)[a % 5]
    ptr = (None, 0, 1, 127, 128, 70000)[a % 6]
    count = (None, 0, 4, 6, 255)[(a + 3) % 5]
    updn = (1, 0, -1)[a % 3]
    if kind == 'query':
        args = dict(dr=dr, m=m, trext=trext, sel=sel, session=session, target=target, q=q)
        return (std.Query(crc=crc5, **args), std.CommandCode.QUERY, dict(crc=crc5, **args), dict(crc5=crc5, **args),
                '1000' + DR(dr) + M(m) + bit(trext) + SEL(sel) + SESSION(session) + TARGET(target) + bits(q, 4, 4) + bits(crc5, 5))
    if kind == 'rep':
        return std.QueryRep(session), std.CommandCode.QUERY_REP, dict(session=session), dict(session=session), '00' + SESSION(session)
    if kind == 'adjust':
        args = dict(session=session, updn=updn)
        return std.QueryAdjust(**args), std.CommandCode.QUERY_ADJUST, args, args, '1001' + SESSION(session) + ('000', '110', '011')[updn]
    if kind == 'ack':
        return std.Ack(rn), std.CommandCode.ACK, dict(rn=rn), dict(rn=rn), '01' + bits(rn, 16)
    if kind == 'reqrn':
        return std.ReqRN(rn, crc16), std.CommandCode.REQ_RN, dict(rn=rn, crc=crc16), dict(rn=rn, crc16=crc16), '11000001' + bits(rn, 16) + bits(crc16, 16)
    args = dict(bank=bank, word_ptr=ptr, word_count=count, rn=rn)
    return (std.Read(crc=crc16, **args), std.CommandCode.READ, dict(crc=crc16, **args), dict(crc16=crc16, **args),
            '11000010' + BANK(bank) + EBV(0 if ptr is None else ptr) + bits(count, 8, 4) + bits(rn, 16) + bits(crc16, 16))


KINDS = ('query', 'rep', 'adjust', 'ack', 'reqrn', 'read')


class commands(Case):
    """frame object, frame helper, command helper and dispatcher agree"""
    params = [(k, a) for k in KINDS for a in range(6)]
    deep = [(k, a) for k in KINDS for a in range(6, 30)]

    def setup(kind, a):
        return kind, a, num('tari'), num('rtcal'), num('trcal'), num('delim')

    def actual(x):
        kind, a, tari, rtcal, trcal, delim = x
        c, code, helper, dispatch, bits = command_of(kind, a)
        times = dict(tari=tari, rtcal=rtcal, delim=delim)
        emit('bits', c.encode())
        emit('frame', std.reader_frame_duration(c, tari, rtcal, trcal, delim))
        emit('text', std.reader_frame_duration(c.encode(), tari, rtcal, trcal, delim))
        if kind == 'query':
            f = std.ReaderFrame(std.ReaderPreamble(tari, rtcal, trcal, delim), c)
        else:
            f = std.ReaderFrame(std.ReaderSync(tari, rtcal, delim), c)
        emit('object', f.duration)
        if kind == 'adjust':
            emit('helper', std.query_adjust_duration(delim, tari, rtcal, **helper))
            emit('helper', std.query_adjust_duration(tari=tari, rtcal=rtcal, delim=delim, **helper))
        elif kind == 'query':
            emit('helper', std.query_duration(tari, rtcal, trcal, delim, **helper))
            emit('helper', std.query_duration(trcal=trcal, **times, **helper))
        elif kind == 'rep':
            emit('helper', std.query_rep_duration(tari, rtcal, trcal, delim, **helper))
            emit('helper', std.query_rep_duration(trcal=trcal, **times, **helper))
        elif kind == 'ack':
            emit('helper', std.ack_duration(tari, rtcal, trcal, delim, **helper))
            emit('helper', std.ack_duration(trcal=trcal, **times, **helper))
        elif kind == 'reqrn':
            emit('helper', std.reqrn_duration(tari, rtcal, trcal, delim, **helper))
            emit('helper', std.reqrn_duration(trcal=trcal, **times, **helper))
        else:
            emit('helper', std.read_duration(tari, rtcal, trcal, delim, **helper))
            emit('helper', std.read_duration(trcal=trcal, **times, **helper))
        emit('dispatch', std.command_duration(code, tari, rtcal, trcal, delim, **dispatch))
        emit('dispatch', std.command_duration(code, trcal=trcal, **times, **dispatch))

    def expected(x):
        kind, a, tari, rtcal, trcal, delim = x
        bits = command_of(kind, a)[4]
        t = reader_time(bits, tari, rtcal, trcal, delim)
        emit('bits', bits)
        for what in ('frame', 'text', 'object', 'helper', 'helper', 'dispatch', 'dispatch'):
            emit(what, t)


class command_defaults(Case):
    """each link parameter that is omitted is the default one"""
    params = [(k, i) for k in KINDS for i in range(5)]

    def setup(kind, i):
        return kind, [None if k == i or i == 4 else num(n) for k, n in enumerate(('tari', 'rtcal', 'trcal', 'delim'))]

    def actual(x):
        kind, (tari, rtcal, trcal, delim) = x
        c, code, helper, dispatch, bits = command_of(kind, 2)
        emit('frame', us(std.reader_frame_duration(c, tari, rtcal, trcal, delim)))
        emit('dispatch', us(std.command_duration(code, tari, rtcal, trcal, delim, **dispatch)))

    def expected(x):
        kind, (tari, rtcal, trcal, delim) = x
        t = us(reader_time(command_of(kind, 2)[4], tari, rtcal, trcal, delim))
        emit('frame', t)
        emit('dispatch', t)


class tag_preambles(Case):
    """6 or 18 bits for FM0, 10 or 22 for Miller encodings"""
    def setup():
        blf = num('blf')
        assume(blf > 0)
        return enum(std.TagEncoding, 'm'), boolean('trext'), blf

    def actual(x):
        m, trext, blf = x
        p = std.create_tag_preamble(m, trext)
        emit('object', (p.bitlen, p.encoding is m, p.extended, p.get_duration(blf)))
        emit('helper', (std.tag_preamble_bitlen(m, trext), std.tag_preamble_duration(blf, m, trext)))
        p = std.create_tag_preamble(m)
        emit('default', (p.bitlen, p.extended))

    def expected(x):
        m, trext, blf = x
        n = preamble_bits(m, trext)
        emit('object', (n, True, trext, n * symbols(m) / blf))
        emit('helper', (n, n * symbols(m) / blf))
        emit('default', (preamble_bits(m, False), False))


class miller(Case):
    """Miller preambles are for M2, M4 and M8 only"""
    params = [0, 1, 2, 3, 4, 8, 16]

    def setup(m):
        return m

    def actual(m):
        p = std.MillerPreamble(m, True)
        emit('p', (p.m, p.bitlen, p.encoding.symbols_per_bit))

    def expected(m):
        if m != 2 and m != 4 and m != 8:
            raise ValueError()
        emit('p', (m, 22, m))


class tag_frames(Case):
    """preamble, reply and one bit"""
    def setup():
        blf = num('blf')
        assume(blf > 0)
        return enum(std.TagEncoding, 'm'), boolean('trext'), blf, nat('n')

    def actual(x):
        m, trext, blf, n = x
        r = record('reply', bitlen=n)
        f = std.TagFrame(std.create_tag_preamble(m, trext), r)
        emit('object', (f.bitlen, f.get_duration(blf), f.get_body_duration(blf)))
        emit('helper', std.tag_frame_duration(r, blf, m, trext))

    def expected(x):
        m, trext, blf, n = x
        k = preamble_bits(m, trext) + n + 1
        emit('object', (k, k * symbols(m) / blf, n * symbols(m) / blf))
        emit('helper', k * symbols(m) / blf)


REPLIES = ('query', 'ack', 'reqrn', 'read')


def reply_of(kind, n):
    if kind == 'query':
        return std.QueryReply(5), std.ReplyType.QUERY_REPLY, 16
    if kind == 'ack':
        return std.AckReply([1] * n), std.ReplyType.ACK_REPLY, 32 + 8 * n
    if kind == 'reqrn':
        return std.ReqRNReply(5), std.ReplyType.REQRN_REPLY, 32
    return std.ReadReply([1] * (2 * n)), std.ReplyType.READ_REPLY, 33 + 16 * n


class replies(Case):
    """frame object, frame helper, reply helper and dispatcher agree"""
    params = [(k, n) for k in REPLIES for n in (0, 2, 12)]
    deep = [(k, n) for k in REPLIES for n in (1, 6, 31)]

    def setup(kind, n):
        trcal = num('trcal')
        assume(trcal > 0)
        return kind, n, enum(std.DivideRatio, 'dr'), trcal, enum(std.TagEncoding, 'm'), boolean('trext')

    def actual(x):
        kind, n, dr, trcal, m, trext = x
        r, code, bits = reply_of(kind, n)
        blf = std.get_blf(dr, trcal)
        emit('frame', us(std.tag_frame_duration(r, blf, m, trext)))
        emit('object', us(std.TagFrame(std.create_tag_preamble(m, trext), r).get_duration(blf)))
        if kind == 'query':
            t = std.query_reply_duration(dr, trcal, m, trext)
            u = std.reply_duration(code, dr, trcal, m, trext)
        elif kind == 'ack':
            t = std.ack_reply_duration(dr, trcal, m, trext, n)
            u = std.reply_duration(code, dr, trcal, m, trext, n)
        elif kind == 'reqrn':
            t = std.reqrn_reply_duration(dr, trcal, m, trext)
            u = std.reply_duration(code, dr, trcal, m, trext)
        else:
            t = std.read_reply_duration(dr, trcal, m, trext, n)
            u = std.reply_duration(code, dr, trcal, m, trext, words_count=n)
        emit('helper', us(t))
        emit('dispatch', us(u))

    def expected(x):
        kind, n, dr, trcal, m, trext = x
        t = us(tag_time(reply_of(kind, n)[2], dr, trcal, m, trext))
        for what in ('frame', 'object', 'helper', 'dispatch'):
            emit(what, t)


class reply_defaults(Case):
    """each parameter that is omitted is the default one"""
    params = [0, 1, 2, 3, 4]

    def setup(i):
        trcal = num('trcal')
        assume(trcal > 0)
        x = enum(std.DivideRatio, 'dr'), trcal, enum(std.TagEncoding, 'm'), boolean('trext')
        return [None if k == i or i == 4 else v for k, v in enumerate(x)]

    def actual(x):
        dr, trcal, m, trext = x
        emit('query', us(std.query_reply_duration(dr, trcal, m, trext)))
        emit('ack', us(std.ack_reply_duration(dr, trcal, m, trext)))
        emit('reqrn', us(std.reqrn_reply_duration(dr, trcal, m, trext)))
        emit('read', us(std.read_reply_duration(dr, trcal, m, trext)))
        emit('bits', std.tag_preamble_bitlen(m, trext))

    def expected(x):
        dr, trcal, m, trext = x
        emit('query', us(tag_time(16, dr, trcal, m, trext)))
        emit('ack', us(tag_time(32 + 12 * 8, dr, trcal, m, trext)))
        emit('reqrn', us(tag_time(32, dr, trcal, m, trext)))
        emit('read', us(tag_time(33 + 4 * 16, dr, trcal, m, trext)))
        emit('bits', preamble_bits(m, trext))


class tag_frame_defaults(Case):
    """rate, encoding and extension of a tag frame by default"""
    def setup():
        return None

    def actual(x):
        r = std.QueryReply(1)
        emit('rate', us(std.tag_frame_duration(r)))
        emit('rate', us(std.tag_frame_duration(r, encoding=std.TagEncoding.M4, trext=True)))
        emit('preamble', us(std.tag_preamble_duration()))
        emit('preamble', us(std.tag_preamble_duration(encoding=std.TagEncoding.M4, trext=True)))

    def expected(x):
        emit('rate', us(23 * 3.125e-05 / 8))
        emit('rate', us(39 * 4 * 3.125e-05 / 8))
        emit('preamble', us(6 * 3.125e-05 / 8))
        emit('preamble', us(22 * 4 * 3.125e-05 / 8))


class reader_frames(Case):
    """the reader sends Query with the full preamble and all other commands with frame-sync, at its own timing"""
    params = ['QUERY', 'QREP', 'QAdjust', 'ACK', 'REQRN', 'READ']

    def setup(state):
        r = objects.Reader()
        r.tari, r.rtcal, r.trcal, r.delim = num('tari'), num('rtcal'), num('trcal'), num('delim')
        r.dr, r.trext = enum(std.DivideRatio, 'dr'), boolean('trext')
        r.tag_encoding = std.TagEncoding.M4
        r.q = 5
        r.last_rn = 0x1234
        r.read_tid_words_num = 6
        r.updn = 1
        return state, r

    def actual(x):
        state, r = x
        f = r.State[state].enter(r)
        emit('preamble', f.preamble_duration)
        emit('symbols', (f.preamble.data0, f.preamble.data1))
        emit('code', f.command.encode())
        emit('duration', f.duration)

    def expected(x):
        state, r = x
        code = {
            'QUERY': '1000' + DR(r.dr) + '10' + bit(r.trext) + '00' + '00' + '0' + '0101' + '00000',
            'QREP': '0000',
            'QAdjust': '1001' + '00' + '110',
            'ACK': '01' + digits(0x1234, 16),
            'REQRN': '11000001' + digits(0x1234, 16) + '0' * 16,
            'READ': '11000010' + '10' + '00000000' + '00000110' + digits(0x1234, 16) + '0' * 16,
        }[state]
        p = r.delim + r.tari + r.rtcal
        if state == 'QUERY':
            p = p + r.trcal
        emit('preamble', p)
        emit('symbols', (r.tari, r.rtcal - r.tari))
        emit('code', code)
        emit('duration', p + body_time(code, r.tari, r.rtcal))
