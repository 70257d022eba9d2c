"""Flags, sessions and code tables."""
from pysim.models.rfid import epcstd as std
from spec.base import Case
from spec.epcref import *

A = std.InventoryFlag.A
B = std.InventoryFlag.B


class invert(Case):
    """inverting gives the other flag"""
    def setup():
        return enum(std.InventoryFlag, 'flag')

    def actual(f):
        emit('other', f.invert())
        emit('same', f.invert().invert())

    def expected(f):
        emit('other', B if f is A else A)
        emit('same', f)


class select(Case):
    """ALL matches every tag, SL the selected ones, ~SL the others"""
    def setup():
        return enum(std.SelFlag, 'sel'), boolean('selected')

    def actual(x):
        sel, selected = x
        emit('match', 1 if sel.match(selected) else 0)

    def expected(x):
        sel, selected = x
        if sel is std.SelFlag.SEL:
            r = selected
        elif sel is std.SelFlag.NOT_SEL:
            r = not selected
        else:
            r = True
        emit('match', 1 if r else 0)


class power_loss(Case):
    """S0 is A, the others keep the flag for the persistence time, an unset flag is A"""
    def setup():
        interval, persistence = num('interval'), num('persistence')
        assume(interval >= 0, persistence >= 0)
        return enum(std.Session, 'session'), interval, persistence, opt(enum(std.InventoryFlag, 'stored'), 'flag was set')

    def actual(x):
        s, interval, persistence, stored = x
        emit('flag', s.power_on_value(interval, persistence, stored))

    def expected(x):
        s, interval, persistence, stored = x
        if s is std.Session.S0 or interval > persistence or stored is None:
            emit('flag', A)
        else:
            emit('flag', stored)


class session0(Case):
    """S0 has no persistence time"""
    def setup():
        return num('interval'), enum(std.InventoryFlag, 'stored')

    def actual(x):
        interval, stored = x
        emit('flag', std.Session.S0.power_on_value(interval, None, stored))

    def expected(x):
        emit('flag', A)


class sessions(Case):
    def setup():
        return enum(std.Session, 'session')

    def actual(s):
        emit('session', s.code, s.index, s.string, str(s))

    def expected(s):
        i = 1 if s is std.Session.S1 else 2 if s is std.Session.S2 else 3 if s is std.Session.S3 else 0
        emit('session', ('00', '01', '10', '11')[i], i, ('S0', 'S1', 'S2', 'S3')[i], ('S0', 'S1', 'S2', 'S3')[i])


class targets(Case):
    def setup():
        return None

    def actual(x):
        emit('codes', A.code, B.code, str(A), str(B))

    def expected(x):
        emit('codes', '0', '1', 'A', 'B')


class selects(Case):
    def setup():
        return None

    def actual(x):
        emit('codes', [(s.code, str(s)) for s in (std.SelFlag.ALL, std.SelFlag.NOT_SEL, std.SelFlag.SEL)])

    def expected(x):
        emit('codes', [('00', 'ALL'), ('10', '~SL'), ('11', 'SL')])


class encodings(Case):
    def setup():
        return enum(std.TagEncoding, 'm')

    def actual(m):
        emit('encoding', m.code, m.symbols_per_bit, str(m))
        emit('found', std.TagEncoding.get(m.symbols_per_bit) is m)

    def expected(m):
        emit('encoding', M(m), symbols(m), 'M2' if symbols(m) == 2 else 'M4' if symbols(m) == 4 else 'M8' if symbols(m) == 8 else 'FM0')
        emit('found', True)


class encoding_of(Case):
    """only 1, 2, 4 and 8 symbols per bit exist"""
    def setup():
        return int_('m')

    def actual(m):
        emit('encoding', std.TagEncoding.get(m))

    def expected(m):
        if m == 1:
            emit('encoding', std.TagEncoding.FM0)
        elif m == 2:
            emit('encoding', std.TagEncoding.M2)
        elif m == 4:
            emit('encoding', std.TagEncoding.M4)
        elif m == 8:
            emit('encoding', std.TagEncoding.M8)
        else:
            raise ValueError()


class ratios(Case):
    def setup():
        return None

    def actual(x):
        a, b = std.DivideRatio.DR_8, std.DivideRatio.DR_643
        emit('codes', a.code, b.code, rounded(a.eval(), 9), rounded(b.eval(), 9), str(a), str(b))

    def expected(x):
        emit('codes', '0', '1', 8, rounded(64.0 / 3, 9), '8', '64/3')


class banks(Case):
    def setup():
        return None

    def actual(x):
        k = std.MemoryBank
        emit('codes', [(b.code, str(b)) for b in (k.RESERVED, k.EPC, k.TID, k.USER)])

    def expected(x):
        emit('codes', [('00', 'Reserved'), ('01', 'EPC'), ('10', 'TID'), ('11', 'User')])


class commands(Case):
    def setup():
        return None

    def actual(x):
        k = std.CommandCode
        emit('codes', [(c.code, str(c)) for c in (k.QUERY, k.QUERY_REP, k.QUERY_ADJUST, k.ACK, k.REQ_RN, k.READ)])

    def expected(x):
        emit('codes', [('1000', 'Query'), ('00', 'QueryRep'), ('1001', 'QueryAdjust'), ('01', 'ACK'), ('11000001', 'Req_RN'), ('11000010', 'Read')])


class ranges(Case):
    def setup():
        return None

    def actual(x):
        emit('ranges', [(1 if r.extended else 0, str(r)) for r in (std.TempRange.NOMINAL, std.TempRange.EXTENDED)])

    def expected(x):
        emit('ranges', [(0, 'nominal'), (1, 'extended')])


class distinct(Case):
    """members of each kind are different, and there are no others"""
    def setup():
        return None

    def actual(x):
        for e in (std.Session, std.InventoryFlag, std.SelFlag, std.TagEncoding, std.DivideRatio, std.MemoryBank, std.CommandCode, std.TempRange, std.ReplyType):
            emit('members', len(e), len(set(list(e))))

    def expected(x):
        for n in (4, 2, 3, 4, 2, 4, 6, 2, 4):
            emit('members', n, n)
