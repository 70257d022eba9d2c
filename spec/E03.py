"""Rates, link timings and frequency tolerance."""
from pysim.models.rfid import epcstd as std
from spec.base import Case
from spec.epcref import symbols


def us(x):
    """times are compared as microseconds with six places"""
    return rounded(x * 1000000, 6)


def ratio(dr):
    return 64.0 / 3 if dr is std.DivideRatio.DR_643 else 8.0


def link():
    trcal, rtcal = num('trcal'), num('rtcal')
    assume(trcal > 0, rtcal > 0)
    return rtcal, trcal, enum(std.DivideRatio, 'dr'), enum(std.TempRange, 'temp')


class rates(Case):
    """frequency DR/TRcal, rate frequency per symbols of a bit, interval TRcal/DR"""
    def setup():
        trcal = num('trcal')
        assume(trcal > 0)
        return enum(std.DivideRatio, 'dr'), trcal, enum(std.TagEncoding, 'm')

    def actual(x):
        dr, trcal, m = x
        emit('blf', rounded(std.get_blf(dr, trcal), 6))
        emit('blf', rounded(std.get_blf(trcal=trcal, dr=dr), 6))
        emit('rate', rounded(std.tag_bitrate(dr, trcal, m), 6))
        emit('pri', us(std.get_pri(trcal, dr)))

    def expected(x):
        dr, trcal, m = x
        emit('blf', rounded(ratio(dr) / trcal, 6))
        emit('blf', rounded(ratio(dr) / trcal, 6))
        emit('rate', rounded(ratio(dr) / trcal / symbols(m), 6))
        emit('pri', us(trcal / ratio(dr)))


class rate_defaults(Case):
    """omitted parameters are the default ones"""
    def setup():
        trcal = num('trcal')
        assume(trcal > 0)
        return enum(std.DivideRatio, 'dr'), trcal, enum(std.TagEncoding, 'm')

    def actual(x):
        dr, trcal, m = x
        emit('blf', [rounded(v, 3) for v in (std.get_blf(), std.get_blf(dr), std.get_blf(None, trcal))])
        emit('rate', [rounded(v, 3) for v in (std.tag_bitrate(), std.tag_bitrate(dr), std.tag_bitrate(None, trcal), std.tag_bitrate(None, None, m))])
        emit('pri', [us(v) for v in (std.get_pri(), std.get_pri(trcal), std.get_pri(None, dr))])

    def expected(x):
        dr, trcal, m = x
        t = 3.125e-05
        emit('blf', [rounded(v, 3) for v in (8 / t, ratio(dr) / t, 8 / trcal)])
        emit('rate', [rounded(v, 3) for v in (8 / t, ratio(dr) / t, 8 / trcal, 8 / t / symbols(m))])
        emit('pri', [us(v) for v in (t / 8, trcal / 8, t / ratio(dr))])


# (largest TRcal in microseconds, tolerance)
TOLERANCE = {
    (True, False): [(33.633, 15), (66.033, 22), (67.367, 10), (82.467, 12), (131.967, 10), (198.0, 7), (227.25, 5)],
    (True, True): [(33.633, 15), (66.033, 22), (82.467, 15), (84.133, 10), (131.967, 12), (198.0, 7), (227.25, 5)],
    (False, False): [(24.75, 19), (25.25, 10), (30.9375, 12), (49.5, 10), (75.0, 7), (202.0, 4)],
    (False, True): [(24.75, 19), (30.9375, 15), (49.5, 10), (75.0, 7), (202.0, 4)],
}


def dr_of(high):
    return std.DivideRatio.DR_643 if high else std.DivideRatio.DR_8


def temp_of(ext):
    return std.TempRange.EXTENDED if ext else std.TempRange.NOMINAL


class tolerance(Case):
    """tolerance by divide ratio, temperature and range of TRcal"""
    params = [(d, t) for d in (True, False) for t in (True, False)]

    def setup(d, t):
        table = TOLERANCE[(d, t)]
        out = []
        low = 5.0
        for high, f in table:
            for v in (low * 1.0001, (low + high) / 2, high * 0.9999):
                out.append((v, f))
            low = high
        for i in range(len(table)):
            # a bound belongs to the range above it
            out.append((table[i][0], table[min(i + 1, len(table) - 1)][1]))
        out.append((low * 1.0001, table[-1][1]))
        out.append((low * 2, table[-1][1]))
        return d, t, out

    def actual(x):
        d, t, points = x
        for v, f in points:
            emit('tolerance', rounded(std.get_frt(v / 1000000, dr_of(d), temp_of(t)) * 100, 6))
            emit('tolerance', rounded(std.get_frt(temp_range=temp_of(t), dr=dr_of(d), trcal=v / 1000000) * 100, 6))

    def expected(x):
        d, t, points = x
        for v, f in points:
            emit('tolerance', rounded(f, 6))
            emit('tolerance', rounded(f, 6))


class tolerance_defaults(Case):
    """omitted parameters are the default ones"""
    def setup():
        return [10, 24, 25, 28, 40, 60, 100, 210]

    def actual(x):
        emit('all', rounded(std.get_frt() * 100, 6))
        for v in x:
            emit('dr', rounded(std.get_frt(v / 1000000, None, std.TempRange.EXTENDED) * 100, 6))
            emit('temp', rounded(std.get_frt(v / 1000000, std.DivideRatio.DR_8) * 100, 6))
        emit('trcal', rounded(std.get_frt(None, std.DivideRatio.DR_643, std.TempRange.NOMINAL) * 100, 6))

    def expected(x):
        emit('all', rounded(10, 6))
        for v, e, n in zip(x, (19, 19, 15, 15, 10, 7, 4, 4), (19, 19, 10, 12, 10, 7, 4, 4)):
            emit('dr', rounded(e, 6))
            emit('temp', rounded(n, 6))
        emit('trcal', rounded(15, 6))


def demanded(rtcal, trcal, dr, temp):
    """least and greatest T1 .. T7"""
    pri = trcal / ratio(dr)
    f = std.get_frt(trcal, dr, temp)
    base = max(rtcal, 10 * pri)
    t1 = base * (1 - f) - 2e-6
    t2 = 20 * pri
    return [(t1, base * (1 + f) + 2e-6), (3 * pri, t2), (0.0, None), (2 * rtcal, None), (t1, 0.02), (t1, 0.02), (max(t2, 250e-6), 0.02)]


def fix(low, high):
    return us(low), 'inf' if high is None or high == float('inf') else us(high)


class timings(Case):
    """every timing and every accessor of it"""
    params = [1, 2, 3, 4, 5, 6, 7]

    def setup(i):
        return (i,) + link()

    def actual(x):
        i, rtcal, trcal, dr, temp = x
        emit('single', fix(std.min_link_t(i, rtcal, trcal, dr, temp), std.max_link_t(i, rtcal, trcal, dr, temp)))
        low, high = std.link_t(i, rtcal, trcal, dr, temp)
        emit('pair', fix(low, high))
        emit('list', fix(std.min_link_t(None, rtcal, trcal, dr, temp)[i - 1], std.max_link_t(None, rtcal, trcal, dr, temp)[i - 1]))
        low, high = std.link_t(None, rtcal, trcal, dr, temp)[i - 1]
        emit('pairs', fix(low, high))

    def expected(x):
        i, rtcal, trcal, dr, temp = x
        t = fix(*demanded(rtcal, trcal, dr, temp)[i - 1])
        for what in ('single', 'pair', 'list', 'pairs'):
            emit(what, t)


class lengths(Case):
    """seven timings"""
    def setup():
        return link()

    def actual(x):
        emit('n', (len(std.min_link_t(None, *x)), len(std.max_link_t(None, *x)), len(std.link_t(None, *x))))

    def expected(x):
        emit('n', (7, 7, 7))


class accessors(Case):
    """named accessors"""
    params = [1, 2, 3, 4, 5, 6, 7]

    def setup(i):
        return (i,) + link()

    def actual(x):
        i, rtcal, trcal, dr, temp = x
        if i == 1:
            r = (std.link_t1_min(rtcal, trcal, dr, temp), std.link_t1_max(rtcal, trcal, dr, temp))
        elif i == 2:
            r = (std.link_t2_min(trcal, dr), std.link_t2_max(trcal, dr))
        elif i == 3:
            r = (std.link_t3(), None)
        elif i == 4:
            r = (std.link_t4(rtcal), None)
        elif i == 5:
            r = (std.link_t5_min(rtcal, trcal, dr, temp), std.link_t5_max())
        elif i == 6:
            r = (std.link_t6_min(rtcal, trcal, dr, temp), std.link_t6_max())
        else:
            r = (std.link_t7_min(trcal, dr), std.link_t7_max())
        emit('accessor', fix(*r))

    def expected(x):
        i, rtcal, trcal, dr, temp = x
        emit('accessor', fix(*demanded(rtcal, trcal, dr, temp)[i - 1]))


class timing_defaults(Case):
    """each omitted parameter is the default one"""
    params = [(i, k) for i in (1, 2, 3, 4, 5, 6, 7) for k in (0, 1, 2, 3, 4)]

    def setup(i, k):
        return i, [None if j == k or k == 4 else v for j, v in enumerate(link())]

    def actual(x):
        i, p = x
        emit('single', fix(std.min_link_t(i, *p), std.max_link_t(i, *p)))
        low, high = std.link_t(i, *p)
        emit('pair', fix(low, high))

    def expected(x):
        i, (rtcal, trcal, dr, temp) = x
        t = fix(*demanded(1.5625e-05 if rtcal is None else rtcal, 3.125e-05 if trcal is None else trcal,
                          std.DivideRatio.DR_8 if dr is None else dr, std.TempRange.NOMINAL if temp is None else temp)[i - 1])
        emit('single', t)
        emit('pair', t)


class bad_index(Case):
    """other indices are rejected"""
    params = [(i, k) for i in (-1, 0, 8, 9, 100) for k in ('min', 'max', 'both')]

    def setup(i, k):
        return (i, k) + link()

    def actual(x):
        i, k, rtcal, trcal, dr, temp = x
        if k == 'min':
            std.min_link_t(i, rtcal, trcal, dr, temp)
        elif k == 'max':
            std.max_link_t(i, rtcal, trcal, dr, temp)
        else:
            std.link_t(i, rtcal, trcal, dr, temp)

    def expected(x):
        raise ValueError()
