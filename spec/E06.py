"""Durations of slots and the table of elementary timings."""
from pysim.models.rfid import epcstd as std
from spec.base import Case
from spec.epcref import *

T = std.SlotType


def us(x):
    """times are compared as microseconds with six places"""
    return rounded(x * 1000000, 6)


def ratio(dr):
    return 64.0 / 3 if dr is std.DivideRatio.DR_643 else 8.0


def reader(text, tari, rtcal, trcal, delim):
    """air time of a command with these bits"""
    t = delim + tari + rtcal
    if text.startswith('1000'):
        t = t + trcal
    for b in text:
        t = t + (rtcal - tari if b == '1' else tari)
    return t


def tag(n, dr, trcal, m, trext):
    """air time of a reply of n bits"""
    if m is std.TagEncoding.FM0:
        pre = 18 if trext else 6
    else:
        pre = 22 if trext else 10
    return (pre + n + 1) * symbols(m) * trcal / ratio(dr)


def query(dr, m, trext, sel, session, target, q, crc):
    return '1000' + DR(dr) + M(m) + bit(trext) + SEL(sel) + SESSION(session) + TARGET(target) + bits(q, 4, 4) + bits(crc, 5)


def t1(rtcal, trcal, dr, temp):
    """least and greatest time before a reply"""
    f = std.get_frt(trcal, dr, temp)
    base = max(rtcal, 10 * trcal / ratio(dr))
    return base * (1 - f) - 2e-6, base * (1 + f) + 2e-6


def slot(kind, ops, tari, rtcal, trcal, delim, dr, temp, m, trext, sel, session, target, q, rn, epc, crc5, crc16, first):
    """what a slot of the kind takes on the air"""
    low, high = t1(rtcal, trcal, dr, temp)
    t2 = 3 * trcal / ratio(dr)
    t4 = 2 * rtcal
    text = query(dr, m, trext, sel, session, target, q, crc5) if first else '00' + SESSION(session)
    t = reader(text, tari, rtcal, trcal, delim)
    if kind is T.EMPTY:
        return t + max(high, t4)
    t = t + max(low + tag(16, dr, trcal, m, trext) + t2, t4)
    if kind is T.COLLISION:
        return t
    t = t + reader('01' + bits(rn, 16), tari, rtcal, trcal, delim)
    t = t + max(low + tag(32 + 8 * epc, dr, trcal, m, trext) + t2, t4)
    if kind is T.INVENTORY or ops is None:
        return t
    for bank, ptr, count in ops:
        t = t + reader('11000010' + BANK(bank) + EBV(ptr) + bits(count, 8) + bits(rn, 16) + bits(crc16, 16), tari, rtcal, trcal, delim)
        t = t + max(low + tag(33 + 16 * count, dr, trcal, m, trext) + t2, t4)
    return t


def read_op(bank, ptr, count):
    o = std.TagReadOp()
    o.bank = bank
    o.word_ptr = ptr
    o.word_count = count
    return o


def link():
    tari, rtcal, trcal, delim = num('tari'), num('rtcal'), num('trcal'), num('delim')
    assume(tari > 0, rtcal > 0, trcal > 0, delim > 0)
    return tari, rtcal, trcal, delim


KINDS = ('EMPTY', 'COLLISION', 'INVENTORY', 'ACCESS', 'none')
VARIANTS = (0, 1, 2, 3, 4, 5)
OPS = (None, (), ((std.MemoryBank.TID, 0, 4),), ((std.MemoryBank.USER, 200, 0), (std.MemoryBank.EPC, 3, 17)))


def options(i):
    """dr, temp, m, trext, sel, session, target, q, rn, epc, crc5, crc16, first"""
    return ((std.DivideRatio.DR_8, std.DivideRatio.DR_643)[i % 2], (std.TempRange.NOMINAL, std.TempRange.EXTENDED)[i // 2 % 2],
            (std.TagEncoding.FM0, std.TagEncoding.M2, std.TagEncoding.M4, std.TagEncoding.M8)[i % 4], i % 3 == 1,
            (std.SelFlag.ALL, std.SelFlag.SEL, std.SelFlag.NOT_SEL)[i % 3],
            (std.Session.S0, std.Session.S1, std.Session.S2, std.Session.S3)[(i + 1) % 4],
            (std.InventoryFlag.A, std.InventoryFlag.B)[i // 3 % 2], (0, 15, 4, 7)[i % 4], (0, 0xffff, 0x1234, 1)[i % 4],
            (12, 0, 1, 62)[i % 4], (0, 31, 5)[i % 3], (0, 0xffff, 0x0ff0)[(i + 1) % 3], i % 2 == 0 if i < 4 else i % 2 == 1)


class slots(Case):
    """query, reply, acknowledgement and accesses, each with its waiting times"""
    params = [(k, i, o) for k in KINDS for i in VARIANTS for o in range(4)
              if (o == (i % 3 if k != 'ACCESS' else o)) and not (k == 'none' and o)]
    deep = [(k, i, o) for k in KINDS for i in range(6, 24) for o in range(4) if k == 'ACCESS' or o == i % 4]

    def setup(k, i, o):
        return k, options(i), OPS[o], link()

    def actual(x):
        k, (dr, temp, m, trext, sel, session, target, q, rn, epc, crc5, crc16, first), ops, (tari, rtcal, trcal, delim) = x
        emit('slot', us(std.slot_duration(
            None if k == 'none' else T[k], None if ops is None else [read_op(*o) for o in ops], tari=tari, rtcal=rtcal, trcal=trcal,
            delim=delim, dr=dr, temp=temp, m=m, trext=trext, sel=sel, session=session, target=target, q=q, rn=rn, epc=epc,
            crc5=crc5, crc16=crc16, is_first=first)))

    def expected(x):
        k, (dr, temp, m, trext, sel, session, target, q, rn, epc, crc5, crc16, first), ops, (tari, rtcal, trcal, delim) = x
        if k == 'none':
            raise AssertionError()
        emit('slot', us(slot(T[k], ops, tari, rtcal, trcal, delim, dr, temp, m, trext, sel, session, target, q, rn, epc, crc5, crc16, first)))


class unknown(Case):
    """operations of other kinds are refused"""
    params = ['object', 'base', 'second']

    def setup(what):
        return what, link()

    def actual(x):
        what, (tari, rtcal, trcal, delim) = x
        other = std.TagOp() if what == 'base' else 'read'
        ops = [std.TagReadOp(), other] if what == 'second' else [other]
        std.slot_duration(T.ACCESS, ops, tari, rtcal, trcal, delim, rn=1)

    def expected(x):
        raise ValueError()


class bounds(Case):
    """the least duration is that of the shortest frames, the greatest that of the longest"""
    params = [(e, k, i, o) for e in ('min', 'max') for k in KINDS[:-1] for i in (0, 1) for o in ((0, 3) if k == 'ACCESS' else (0,))]

    def setup(e, k, i, o):
        return e, k, i, OPS[o], link()

    def actual(x):
        e, k, i, ops, (tari, rtcal, trcal, delim) = x
        dr, temp = options(i)[0], options(2 * i)[1]
        f = std.slot_duration_min if e == 'min' else std.slot_duration_max
        ops = None if ops is None else [read_op(*o) for o in ops]
        emit('bound', us(f(T[k], ops, tari, rtcal, trcal, delim, dr, temp, 12, i == 0)))
        emit('named', us(f(slot_type=T[k], access_ops=ops, tari=tari, rtcal=rtcal, trcal=trcal, delim=delim, dr=dr, temp=temp, epc=12)))

    def expected(x):
        e, k, i, ops, (tari, rtcal, trcal, delim) = x
        dr, temp = options(i)[0], options(2 * i)[1]
        if e == 'min':
            rest = (std.TagEncoding.FM0, False, std.SelFlag.ALL, std.Session.S0, std.InventoryFlag.A, 0, 0, 12, 0, 0)
        else:
            rest = (std.TagEncoding.M8, True, std.SelFlag.SEL, std.Session.S3, std.InventoryFlag.B, 15, 0xffff, 12, 31, 0xffff)
        emit('bound', us(slot(T[k], ops, tari, rtcal, trcal, delim, dr, temp, *(rest + (i == 0,)))))
        emit('named', us(slot(T[k], ops, tari, rtcal, trcal, delim, dr, temp, *(rest + (False,)))))


class slot_defaults(Case):
    """omitted parameters are the default ones"""
    params = [(k, first) for k in KINDS[:-1] for first in (False, True)]

    def setup(k, first):
        return k, first

    def actual(x):
        k, first = x
        emit('slot', us(std.slot_duration(T[k], [std.TagReadOp()], rn=5, is_first=first)))

    def expected(x):
        k, first = x
        emit('slot', us(slot(T[k], [(std.MemoryBank.TID, 0, 0)], 6.25e-6, 1.5625e-05, 3.125e-05, 12.5e-6, std.DivideRatio.DR_8,
                             std.TempRange.NOMINAL, std.TagEncoding.FM0, False, std.SelFlag.ALL, std.Session.S0, std.InventoryFlag.A,
                             4, 5, 12, 0, 0, first)))


class random_number(Case):
    """without a number, one of 16 bits is drawn for the acknowledgement"""
    params = [0, 1, 0x8000, 0xffff]

    def setup(n):
        seen = []

        def draw(low, high):
            seen.append((low, high))
            return n
        integers(draw)
        return n, seen, link()

    def actual(x):
        n, seen, (tari, rtcal, trcal, delim) = x
        emit('slot', us(std.slot_duration(T.INVENTORY, None, tari, rtcal, trcal, delim, std.DivideRatio.DR_8, std.TempRange.NOMINAL, epc=12)))
        emit('range', seen[0])

    def expected(x):
        n, seen, (tari, rtcal, trcal, delim) = x
        emit('slot', us(slot(T.INVENTORY, None, tari, rtcal, trcal, delim, std.DivideRatio.DR_8, std.TempRange.NOMINAL, std.TagEncoding.FM0,
                             False, std.SelFlag.ALL, std.Session.S0, std.InventoryFlag.A, 4, n, 12, 0, 0, False)))
        emit('range', (0, 0xffff))


FIELDS = ('Tari', 'TRcal', 'RTcal', 'Delim', 'TempRange', 'TRext', 'Q', 'DR', 'M', 'Target', 'Sel', 'Session', 'Bank', 'WordPtr', 'WordCount')
FRAMES = ('Query', 'QueryRep', 'ACK', 'ReqRN', 'Read', 'RN16', 'Response', 'Handle', 'Data')


def table(tari, rtcal, trcal, delim, temp, dr, m, trext, sel, session, target, q, bank, ptr, count, rn, crc, epc, mem):
    """settings, air times and link times"""
    frames = (query(dr, m, trext, sel, session, target, q, crc), '00' + SESSION(session), '01' + bits(rn, 16),
              '11000001' + bits(rn, 16) + bits(crc, 16),
              '11000010' + BANK(bank) + EBV(ptr) + bits(count, 8) + bits(rn, 16) + bits(crc, 16))
    times = [us(reader(f, tari, rtcal, trcal, delim)) for f in frames]
    times = times + [us(tag(n, dr, trcal, m, trext)) for n in (16, 32 + 8 * epc, 32, 33 + 8 * mem)]
    low, high = t1(rtcal, trcal, dr, temp)
    pri = trcal / ratio(dr)
    links = [(low, high), (3 * pri, 20 * pri), (0, None), (2 * rtcal, None), (low, 0.02), (low, 0.02), (max(20 * pri, 250e-6), 0.02)]
    return (tari, trcal, rtcal, delim, temp, trext, q, dr, m, target, sel, session, bank, ptr, count), times, links


def show(d):
    for f in FIELDS:
        emit(f, d[f])
    for f in FRAMES:
        emit(f, us(d[f]))
    for i in range(1, 8):
        emit('T', i, us(d['T%d(min)' % i]), d['T%d(max)' % i] == float('inf') if i in (3, 4) else us(d['T%d(max)' % i]))
    emit('n', len(d))


def demand(t):
    settings, times, links = t
    for f, v in zip(FIELDS, settings):
        emit(f, v)
    for f, v in zip(FRAMES, times):
        emit(f, v)
    for i in range(7):
        low, high = links[i]
        emit('T', i + 1, us(low), True if high is None else us(high))
    emit('n', len(FIELDS) + len(FRAMES) + 14)


class timings(Case):
    """every entry follows from the given parameters"""
    params = [0, 1, 2, 3]
    deep = [4, 5, 6, 7, 8, 9, 10, 11]

    def setup(i):
        return i, link()

    def actual(x):
        i, (tari, rtcal, trcal, delim) = x
        dr, temp, m, trext, sel, session, target, q, rn, epc, crc, _, _ = options(i)
        bank, ptr, count = (OPS[2] + OPS[3])[i % 3]
        show(std.get_elementary_timings(
            tari=tari, rtcal=rtcal, trcal=trcal, delim=delim, temp=temp, dr=dr, m=m, trext=trext, sel=sel, session=session,
            target=target, q=q, bank=bank, word_ptr=ptr, word_count=count, rn=rn, crc=crc, epc='5A' * epc, mem='A5' * (2 * i), pc=i))

    def expected(x):
        i, (tari, rtcal, trcal, delim) = x
        dr, temp, m, trext, sel, session, target, q, rn, epc, crc, _, _ = options(i)
        bank, ptr, count = (OPS[2] + OPS[3])[i % 3]
        demand(table(tari, rtcal, trcal, delim, temp, dr, m, trext, sel, session, target, q, bank, ptr, count, rn, crc, epc, 2 * i))


class timing_defaults(Case):
    """omitted parameters are the default ones"""
    def setup():
        return 0

    def actual(x):
        show(std.get_elementary_timings())

    def expected(x):
        demand(table(6.25e-6, 1.5625e-05, 3.125e-05, 12.5e-6, std.TempRange.NOMINAL, std.DivideRatio.DR_8, std.TagEncoding.FM0, False,
                     std.SelFlag.ALL, std.Session.S0, std.InventoryFlag.A, 4, std.MemoryBank.TID, 0, 4, 0, 0, 12, 6))


ORDER = ('Tari', 'RTcal', 'TRcal', 'Delim', 'TempRange', 'TRext', 'Q', 'DR', 'M', 'Target', 'Sel', 'Session', 'Bank', 'WordPtr', 'WordCount',
         'T1(min)', 'T1(max)', 'T2(min)', 'T2(max)', 'T3(min)', 'T3(max)', 'T4(min)', 'T4(max)', 'T5(min)', 'T5(max)', 'T6(min)', 'T6(max)',
         'T7(min)', 'T7(max)') + FRAMES


def plain(k):
    return k in FIELDS and k not in ('Tari', 'RTcal', 'TRcal', 'Delim')


class printed(Case):
    """one line for each entry: its name and its value, times in microseconds"""
    def setup():
        d = {}
        for i, k in enumerate(ORDER):
            d[k] = 100 + i if plain(k) else (i + 1) * 1e-6
        return d

    def actual(d):
        emit('lines', std.prettify_elementary_timings(d).split('\n'))

    def expected(d):
        out = []
        for i, k in enumerate(ORDER):
            name = k + ' ' * (12 - len(k)) + ': '
            if plain(k):
                out.append(name + str(100 + i))
            else:
                value = str(i + 1) + '.00000000'
                out.append(name + ' ' * (14 - len(value)) + value + ' us')
        emit('lines', out)
