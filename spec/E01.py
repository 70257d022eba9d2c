"""Bit layout of commands, lengths of replies."""
from pysim.models.rfid import epcstd as std
from spec.base import Case
from spec.epcref import *




class query(Case):
    """1000 DR M TRext Sel Session Target Q(4) CRC(5)"""
    def setup():
        return [enum(std.DivideRatio, 'dr'), enum(std.TagEncoding, 'm'), boolean('trext'), enum(std.SelFlag, 'sel'), enum(std.Session, 'session'), enum(std.InventoryFlag, 'target'), int_('q'), int_('crc')]

    def actual(x):
        c = std.Query(*x)
        emit('bits', c.encode())
        emit('length', c.bitlen)
        dr, m, trext, sel, session, target, q, crc = x
        c = std.Query(crc=crc, q=q, target=target, session=session, sel=sel, trext=trext, m=m, dr=dr)
        emit('bits', c.encode())

    def expected(x):
        dr, m, trext, sel, session, target, q, crc = x
        code = '1000' + DR(dr) + M(m) + bit(trext) + SEL(sel) + SESSION(session) + TARGET(target) + bits(q, 4) + bits(crc, 5)
        emit('bits', code)
        emit('length', 22)
        emit('bits', code)


class query_defaults(Case):
    """each omitted parameter is the default, each given one is used, also zero or False"""
    params = [0, 1, 2, 3, 4, 5, 6, 7]

    def setup(i):
        x = [opt(enum(std.DivideRatio, 'dr_')), opt(enum(std.TagEncoding, 'm_')), opt(boolean('trext_')), opt(enum(std.SelFlag, 'sel_')),
             opt(enum(std.Session, 'session_')), opt(enum(std.InventoryFlag, 'target_')), opt(int_('q_')), opt(int_('crc_'))]
        return [x[k] if k == i else None for k in range(8)]

    def actual(x):
        emit('bits', std.Query(*x).encode())

    def expected(x):
        dr, m, trext, sel, session, target, q, crc = x
        emit('bits', '1000' + DR(dr) + M(m) + bit(trext) + SEL(sel) + SESSION(session) + TARGET(target) + bits(q, 4, 4) + bits(crc, 5))


class query_values(Case):
    """field values wrap to the field width"""
    params = list(range(-2, 34))

    def setup(v):
        return v

    def actual(v):
        emit('bits', std.Query(std.DivideRatio.DR_643, std.TagEncoding.M8, True, std.SelFlag.SEL, std.Session.S2, std.InventoryFlag.B, v, v).encode())

    def expected(v):
        emit('bits', '1000' + '1' + '11' + '1' + '11' + '10' + '1' + digits(v, 4) + digits(v, 5))


class query_rep(Case):
    """00 Session"""
    def setup():
        return opt(enum(std.Session, 'session_'))

    def actual(s):
        c = std.QueryRep(s)
        emit('bits', c.encode())
        emit('length', c.bitlen)
        emit('default', std.QueryRep().encode())

    def expected(s):
        emit('bits', '00' + SESSION(s))
        emit('length', 4)
        emit('default', '0000')


class query_adjust(Case):
    """1001 Session UpDn, other directions are rejected"""
    def setup():
        return opt(enum(std.Session, 'session_')), int_('updn')

    def actual(x):
        s, d = x
        c = std.QueryAdjust(s, d)
        emit('bits', c.encode())
        emit('length', c.bitlen)
        emit('default', std.QueryAdjust().encode())

    def expected(x):
        s, d = x
        if d == 1:
            u = '110'
        elif d == 0:
            u = '000'
        elif d == -1:
            u = '011'
        else:
            raise ValueError()
        emit('bits', '1001' + SESSION(s) + u)
        emit('length', 9)
        emit('default', '1001' + '00' + '000')


class ack(Case):
    """01 RN(16)"""
    def setup():
        return opt(int_('rn_'))

    def actual(rn):
        c = std.Ack(rn)
        emit('bits', c.encode())
        emit('length', c.bitlen)

    def expected(rn):
        emit('bits', '01' + bits(rn, 16))
        emit('length', 18)


class req_rn(Case):
    """11000001 RN(16) CRC(16)"""
    def setup():
        return opt(int_('rn_')), opt(int_('crc_'))

    def actual(x):
        c = std.ReqRN(*x)
        emit('bits', c.encode())
        emit('length', c.bitlen)
        emit('default', std.ReqRN().encode())

    def expected(x):
        rn, crc = x
        emit('bits', '11000001' + bits(rn, 16) + bits(crc, 16))
        emit('length', 40)
        emit('default', '11000001' + '0' * 32)


class read(Case):
    """11000010 Bank WordPtr(EBV) WordCount(8) RN(16) CRC(16)"""
    params = [0, 1, 3, 127, 128, 129, 255, 1000, 16383, 16384, 20000, 2097152]
    deep = [2, 64, 126, 130, 16382, 16385, 2097151, 300000000]

    def setup(ptr):
        return opt(enum(std.MemoryBank, 'bank_')), ptr, opt(int_('count_')), opt(int_('rn_')), opt(int_('crc_'))

    def actual(x):
        c = std.Read(*x)
        emit('bits', c.encode())
        emit('length', c.bitlen)

    def expected(x):
        bank, ptr, count, rn, crc = x
        p = EBV(ptr)
        emit('bits', '11000010' + BANK(bank) + p + bits(count, 8, 4) + bits(rn, 16) + bits(crc, 16))
        emit('length', 50 + len(p))


class read_defaults(Case):
    """the default pointer is 0"""
    def setup():
        return None

    def actual(x):
        emit('bits', std.Read().encode())
        emit('bits', std.Read(word_ptr=0, word_count=0).encode())

    def expected(x):
        emit('bits', '11000010' + '10' + '00000000' + '00000100' + '0' * 32)
        emit('bits', '11000010' + '10' + '00000000' + '00000000' + '0' * 32)


class words(Case):
    """values of 8 and 16 bit fields"""
    params = [-65537, -1, 0, 1, 2, 0x80, 0xff, 0x100, 0x1234, 0x5555, 0x7fff, 0x8000, 0xaaaa, 0xfffe, 0xffff, 0x10000, 0x10001, 0x12345]

    def setup(v):
        return v

    def actual(v):
        emit('ack', std.Ack(v).encode())
        emit('req', std.ReqRN(v, v + 1).encode())
        emit('read', std.Read(std.MemoryBank.USER, 5, v, v, v + 1).encode())

    def expected(v):
        emit('ack', '01' + digits(v, 16))
        emit('req', '11000001' + digits(v, 16) + digits(v + 1, 16))
        emit('read', '11000010' + '11' + '00000101' + digits(v, 8) + digits(v, 16) + digits(v + 1, 16))


class helpers(Case):
    """field encoders"""
    params = [-1, 0, 1, 5, 127, 128, 255, 256, 65535, 65536]

    def setup(v):
        return v

    def actual(v):
        emit('word', std.encode_word(v))
        emit('byte', std.encode_byte(v))
        emit('int', std.encode_int(v, 3))
        emit('bool', std.encode_bool(v))
        if v >= 0:
            emit('ebv', std.encode_ebv(v))

    def expected(v):
        emit('word', digits(v, 16))
        emit('byte', digits(v, 8))
        emit('int', digits(v, 3))
        emit('bool', '0' if v == 0 else '1')
        if v >= 0:
            emit('ebv', EBV(v))


class reply_lengths(Case):
    """16, 32 + EPC, 32 and 33 + memory bits"""
    params = [0, 1, 2, 12, 31]

    def setup(n):
        return n, int_('rn'), int_('crc'), int_('pc'), boolean('header')

    def actual(x):
        n, rn, crc, pc, header = x
        emit('query', std.QueryReply(rn).bitlen)
        emit('req', std.ReqRNReply(rn, crc).bitlen)
        emit('ack', std.AckReply('A5' * n, pc, crc).bitlen)
        emit('ack', std.AckReply([7] * n, pc, crc).bitlen)
        emit('read', std.ReadReply('A5' * n, rn, crc, header).bitlen)
        emit('read', std.ReadReply([0xa5] * n, rn, crc, header).bitlen)
        emit('empty', (std.AckReply().bitlen, std.ReadReply().bitlen))

    def expected(x):
        n, rn, crc, pc, header = x
        emit('query', 16)
        emit('req', 32)
        emit('ack', 32 + 8 * n)
        emit('ack', 32 + 8 * n)
        emit('read', 33 + 8 * n)
        emit('read', 33 + 8 * n)
        emit('empty', (32, 33))


class reply_fields(Case):
    """replies carry what they were given"""
    def setup():
        return int_('rn'), int_('crc'), int_('pc'), boolean('header')

    def actual(x):
        rn, crc, pc, header = x
        emit('query', std.QueryReply(rn).rn)
        r = std.ReqRNReply(rn, crc)
        emit('req', (r.rn, r.crc))
        r = std.AckReply('00FF10', pc, crc)
        emit('ack', (list(r.epc), r.pc, r.crc, r.get_epc_string(), r.get_epc_string('-')))
        r = std.ReadReply([1, 254, 0], rn, crc, header)
        emit('read', (list(r.memory), r.rn, r.crc, r.header, r.get_memory_string(), r.get_memory_string(':')))
        emit('types', (std.QueryReply().reply_type is std.ReplyType.QUERY_REPLY, std.AckReply().reply_type is std.ReplyType.ACK_REPLY,
                       std.ReqRNReply().reply_type is std.ReplyType.REQRN_REPLY, std.ReadReply().reply_type is std.ReplyType.READ_REPLY))
        emit('codes', (std.Query().code is std.CommandCode.QUERY, std.QueryRep().code is std.CommandCode.QUERY_REP, std.QueryAdjust().code is std.CommandCode.QUERY_ADJUST,
                       std.Ack(0).code is std.CommandCode.ACK, std.ReqRN().code is std.CommandCode.REQ_RN, std.Read().code is std.CommandCode.READ))

    def expected(x):
        rn, crc, pc, header = x
        emit('query', rn)
        emit('req', (rn, crc))
        emit('ack', ([0, 255, 16], pc, crc, '00FF10', '00-FF-10'))
        emit('read', ([1, 254, 0], rn, crc, header, '01FE00', '01:FE:00'))
        emit('types', (True, True, True, True))
        emit('codes', (True, True, True, True, True, True))


class collections(Case):
    """hexadecimal text and collections of bytes are equivalent"""
    params = ['text', 'spaced', 'lower', 'list', 'tuple', 'bytes', 'generator', 'nothing']

    def setup(kind):
        return kind

    def actual(kind):
        if kind == 'text':
            v = '00FF10'
        elif kind == 'spaced':
            v = '00 FF 10'
        elif kind == 'lower':
            v = '00ff10'
        elif kind == 'list':
            v = [0, 255, 16]
        elif kind == 'tuple':
            v = (0, 255, 16)
        elif kind == 'bytes':
            v = b'\x00\xff\x10'
        elif kind == 'generator':
            v = (b for b in [0, 255, 16])
        else:
            v = []
        emit('bytes', list(std.to_bytes(v)))

    def expected(kind):
        emit('bytes', [] if kind == 'nothing' else [0, 255, 16])


class bad_bytes(Case):
    """anything else is rejected"""
    params = ['negative', 'large', 'float', 'string', 'last', 'number', 'none', 'text']

    def setup(kind):
        return kind

    def actual(kind):
        if kind == 'negative':
            v = [1, -1]
        elif kind == 'large':
            v = [256]
        elif kind == 'float':
            v = [1.5]
        elif kind == 'string':
            v = ['a']
        elif kind == 'last':
            v = (1, 2, 3, 256)
        elif kind == 'number':
            v = 17
        elif kind == 'none':
            v = None
        else:
            v = 'xyz'
        std.AckReply(v)

    def expected(kind):
        raise ValueError()


class any_byte(Case):
    """exactly the integers 0..255 are bytes"""
    def setup():
        return int_('b'), int_('c')

    def actual(x):
        b, c = x
        emit('bytes', list(std.to_bytes([b, c])))

    def expected(x):
        b, c = x
        if 0 <= b and b <= 255 and 0 <= c and c <= 255:
            emit('bytes', [b, c])
        else:
            raise ValueError()
