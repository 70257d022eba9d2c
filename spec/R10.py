"""Link budgets and signal quality."""
import numpy as np
from pysim.models.rfid import channel
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects
from spec.base import Case
from spec.rfid import *

C = 299792458.0


def norm(v):
    return np.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def pattern(cosine):
    """of a dipole"""
    if cosine > 1e-9:
        return np.abs(np.cos(np.pi / 2 * (1 - cosine ** 2) ** 0.5) / cosine)
    return 0.0


def wall(m, cosine, polarization):
    """reflection coefficient of the wall x = 0"""
    if m.ground_reflection_type == 'const':
        return -1.0
    sine = (1 - cosine ** 2) ** 0.5
    eta = m.permittivity - 60j * (C / m.frequency) * m.conductivity
    root = (eta - cosine ** 2) ** 0.5
    out = polarization * (sine - root) / (sine + root)
    if polarization != 1:
        out = out + (1 - polarization) * (sine - root / eta) / (sine + root / eta)
    return out


def decibel(x):
    if x >= 1e-15:
        return 10 * np.log10(x)
    return float('-inf')


def ray_sum(m, time, tx, tx_dir, tx_v, rx, rx_dir, rx_v, polarization):
    """the direct ray and the ray reflected by the wall"""
    k = 2 * np.pi / (C / m.frequency)
    v = [rx_v[i] - tx_v[i] for i in range(3)]
    e = [rx[i] - tx[i] for i in range(3)]
    d = norm(e)
    e = [x / d for x in e]
    direct = pattern(dot(e, tx_dir)) * pattern(-dot(e, rx_dir)) / d * np.exp(-1j * k * (d - time * dot(e, v)))
    # the image of the receiver behind the wall
    s = [-rx[0] - tx[0], rx[1] - tx[1], rx[2] - tx[2]]
    c = norm(s)
    s = [x / c for x in s]
    # seen from the receiver
    back = [s[0], s[1], -s[2]]
    reflected = wall(m, s[0], polarization) * pattern(dot(s, tx_dir)) * pattern(dot(back, rx_dir)) / c * np.exp(-1j * k * (c - time * dot(s, v)))
    return decibel(np.abs(0.5 / k * (direct + reflected)) ** 2)


def unit(v):
    n = norm(v)
    return [x / n for x in v]


def setting(reflection='const', doppler=True, wide=False):
    m, desk, r = field(2, False, num('t0'))
    a = objects.Medium()
    a.frequency = num('frequency')
    a.permittivity = num('permittivity')
    a.conductivity = num('conductivity')
    a.polarization_loss = num('polarization loss')
    a.ground_reflection_type = reflection
    a.use_doppler = doppler
    a.bandwidth = num('bandwidth')
    assume(num('frequency') > 0, num('bandwidth') > 0)
    ant = r.antenna
    ant.direction_theta = np.array([num('rdx') if wide else 0.0, 0.0, num('rdz')])
    ant.gain = num('reader gain')
    ant.cable_loss = num('reader cable')
    r.max_power = num('max')
    r.noise = num('noise')
    t = objects.Tag(3, desk)
    t.pos = np.array([num('x'), num('y'), num('z')])
    t.antenna.direction_theta = np.array([num('tdx') if wide else 0.0, 0.0, num('tdz')])
    t.antenna.gain = num('tag gain')
    t.antenna.cable_loss = num('tag cable')
    t.velocity = num('v')
    t.direction = np.array([num('vx'), num('vy'), num('vz')])
    t.modulation_loss = num('modulation')
    return a, desk, r, t


def forward(m, r, t, since):
    v = [num('v') * x for x in unit([num('vx'), num('vy'), num('vz')])]
    return num('polarization loss') + ray_sum(m, since, r.antenna.pos, unit(r.antenna.direction_theta), [0, 0, 0], t.pos, unit(t.antenna.direction_theta), v, 0.5)


def backward(m, r, t, since):
    v = [num('v') * x for x in unit([num('vx'), num('vy'), num('vz')])]
    return num('polarization loss') + ray_sum(m, since, t.pos, unit(t.antenna.direction_theta), v, r.antenna.pos, unit(r.antenna.direction_theta), [0, 0, 0], 1.0)


class losses(Case):
    """path losses of both directions"""
    params = [(way, reflection, doppler) for way in ('forward', 'backward') for reflection in ('const', 'reflection') for doppler in (True, False)]

    def setup(way, reflection, doppler):
        m, desk, r, t = setting(reflection, doppler)
        r.turn_on()
        t.set_power(desk.now, 0.0)
        return m, r, t, way, doppler

    def actual(x):
        m, r, t, way, doppler = x
        emit('loss', m.get_forward_path_loss(r, t, num('t')) if way == 'forward' else m.get_backward_path_loss(r, t, num('t')))

    def expected(x):
        m, r, t, way, doppler = x
        since = num('t') - num('t0') if doppler else 0.0
        emit('loss', forward(m, r, t, since) if way == 'forward' else backward(m, r, t, since))


class no_field(Case):
    """without field there is no power, and the losses are total"""
    params = ['never', 'off', 'tag only']

    def setup(what):
        m, desk, r, t = setting()
        if what == 'off':
            r.turn_on()
            r.turn_off()
        if what == 'tag only':
            r.turn_on()
        return m, r, t, what

    def actual(x):
        m, r, t, what = x
        if what != 'tag only':
            emit('tag', m.estimate_tag_rx_power(r, t, num('t')), m.get_forward_path_loss(r, t, num('t')))
        emit('reader', m.estimate_reader_rx_power(r, t, num('t')), m.get_backward_path_loss(r, t, num('t')))
        emit('quality', m.estimate_reader_rx_snr(r, t, [t], num('t')))

    def expected(x):
        m, r, t, what = x
        if what != 'tag only':
            emit('tag', None, -120)
        emit('reader', None, -120)
        emit('quality', 0)


class budgets(Case):
    """powers of the two directions"""
    params = [(way, k) for way in ('tag', 'reader') for k in (0, 1)]

    def setup(way, k):
        m, desk, r, t = setting()
        r.always_start_with_first_antenna = False
        # another antenna of another place, direction and gain
        b = objects.Antenna()
        b.pos = np.array([num('bx'), num('by'), num('bz')])
        b.direction_theta = np.array([0.0, 0.0, num('bdz')])
        b.gain = num('other gain')
        b.cable_loss = num('other cable')
        r.attach_antenna(b)
        r.turn_on()
        if k:
            r.select_next_antenna()
        t.set_power(desk.now, num('tag power'))
        assume(num('tag power') > -18)
        return m, r, t, way, k

    def actual(x):
        m, r, t, way, k = x
        emit('power', m.estimate_tag_rx_power(r, t, num('t')) if way == 'tag' else m.estimate_reader_rx_power(r, t, num('t')))

    def expected(x):
        m, r, t, way, k = x
        own = (num('other gain') + num('other cable') if k else num('reader gain') + num('reader cable')) + num('tag gain') + num('tag cable')
        since = num('t') - num('t0')
        if way == 'tag':
            emit('power', num('max') + own + forward(m, r, t, since))
        else:
            emit('power', num('tag power') + num('modulation') + own + backward(m, r, t, since))


RATES = [(d, m, x) for d in (std.DivideRatio.DR_8, std.DivideRatio.DR_643)
         for m in (std.TagEncoding.FM0, std.TagEncoding.M2, std.TagEncoding.M4, std.TagEncoding.M8) for x in (False, True)]


class quality(Case):
    """the ratio of that power to the noise, for the encoding, rate and preamble of the reply"""
    params = RATES

    def setup(dr, enc, trext):
        m, desk, r, t = setting()
        r.turn_on()
        t.set_power(desk.now, num('tag power'))
        assume(num('tag power') > -18, num('trcal') > 0)
        integers(lambda low, high: 0)
        t.receive(query_frame(std.Query(dr, enc, trext, std.SelFlag.ALL, std.Session.S0, std.InventoryFlag.A, 0), num('trcal')))
        return m, r, t, dr, enc, trext

    def actual(x):
        m, r, t, dr, enc, trext = x
        emit('noise', m.estimate_reader_rx_snr(r, t, [t], num('t')))

    def expected(x):
        m, r, t, dr, enc, trext = x
        raw = 10 ** ((m.estimate_reader_rx_power(r, t, num('t')) - num('noise')) / 10)
        if raw < 1e-8:
            emit('noise', m.estimate_reader_rx_snr(r, t, [t], num('t')))
        else:
            cycle = num('trcal') / ratio(dr)
            n = preamble_bits(enc, trext) * symbols(enc)
            emit('noise', symbols(enc) * raw * cycle * num('bandwidth') * np.cos((raw * n * cycle * num('bandwidth')) ** -0.5) ** 2)


class errors(Case):
    """error rates of the two models"""
    params = ['rayleigh', 'awgn']

    def setup(model):
        m, desk, r, t = setting()
        m.ber_distribution = model
        assume(num('snr') > 0)
        return m, r, t, model

    def actual(x):
        m, r, t, model = x
        emit('errors', m.estimate_reader_rx_ber(r, t, [t], num('snr')))

    def expected(x):
        m, r, t, model = x
        s = num('snr')
        if s < 1e-8:
            emit('errors', 0.5)
        elif model == 'rayleigh':
            u = (1 + 2 / s) ** 0.5
            emit('errors', 0.5 - 1 / u + 2 / np.pi * np.arctan(u) / u)
        else:
            from scipy import special
            u = 0.5 - 0.5 * special.erf(s ** 0.5 / 2 ** 0.5)
            emit('errors', 2 * u * (1 - u))


class hopeless(Case):
    """without signal every other bit is wrong"""
    params = [(d, s) for d in ('rayleigh', 'awgn') for s in (0.0, 1e-9)]

    def setup(model, s):
        m, desk, r, t = setting()
        m.ber_distribution = model
        return m, r, t, s

    def actual(x):
        m, r, t, s = x
        emit('errors', m.estimate_reader_rx_ber(r, t, [t], s))

    def expected(x):
        emit('errors', 0.5)


class inverse(Case):
    """conversions to and from decibel undo each other"""
    params = [False, True]

    def setup(dbm):
        assume(num('p') >= 1e-15)
        return dbm

    def actual(dbm):
        emit('power', channel.from_log(channel.to_log(num('p'), dbm=dbm), dbm=dbm))
        emit('unit', channel.to_log(1.0), channel.to_log(1.0, dbm=True), channel.to_log(0.001, dbm=True), channel.to_log(100.0))
        emit('unit', channel.from_log(0), channel.from_log(30, dbm=True), channel.from_log(0, dbm=True), channel.from_log(-20))

    def expected(dbm):
        emit('power', num('p'))
        emit('unit', 0, 30, 0, 20)
        emit('unit', 1, 1, 0.001, 0.01)


class nothing(Case):
    """no power has no level"""
    params = [(0.0, False), (0.0, True), (1e-16, False)]

    def setup(p, dbm):
        return p, dbm

    def actual(x):
        p, dbm = x
        emit('level', channel.to_log(p, dbm=dbm))

    def expected(x):
        emit('level', float('-inf'))


class levels(Case):
    """of a level, the power and the level again"""
    params = [False, True]

    def setup(dbm):
        assume(num('level') >= -100)
        return dbm

    def actual(dbm):
        p = channel.from_log(num('level'), dbm=dbm)
        if p >= 1e-15:
            emit('level', channel.to_log(p, dbm=dbm))
        else:
            emit('level', num('level'))

    def expected(dbm):
        emit('level', num('level'))


class amplitudes(Case):
    """the power of an amplitude is its square"""
    def setup():
        return 0

    def actual(x):
        emit('power', channel.to_power(num('a'), log=False))

    def expected(x):
        emit('power', num('a') * num('a'))


class differences(Case):
    """a ratio of powers is a difference of levels"""
    def setup():
        return 0

    def actual(x):
        emit('ratio', channel.snr(num('p'), num('q')))

    def expected(x):
        emit('ratio', 10 ** ((num('p') - num('q')) / 10))


class kinds_of_walls(Case):
    """the reflection model is as configured; others are refused"""
    params = ['reflection', 'const', 'mirror', '']

    def setup(what):
        m = objects.Medium()
        m.ground_reflection_type = what
        return m, what

    def actual(x):
        m, what = x
        try:
            f = m.ground_reflection
            emit('refused', False)
        except ValueError:
            emit('refused', True)

    def expected(x):
        m, what = x
        emit('refused', what not in ('reflection', 'const'))
