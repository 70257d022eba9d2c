"""Path loss, antenna patterns, reflection and error rates."""
import math
import numpy as np
from pysim.models.rfid import channel
from spec.base import Case


def norm(v):
    return np.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


class isotropic(Case):
    """the same in all directions"""
    def setup():
        return num('c')

    def actual(c):
        emit('gain', channel.rp_isotropic(azimuth=c), channel.rp_isotropic(), channel.rp_isotropic(a_cos=c, t_cos=1, wavelen=2))

    def expected(c):
        emit('gain', 1, 1, 1)


class dipole(Case):
    """of the cosine of the angle to the polar direction; nothing behind"""
    params = ['front', 'behind', 'across', 'ahead', 'tolerance', 'outside']

    def setup(where):
        c = num('c')
        if where == 'front':
            assume(c > 1e-9, c < 1)
        elif where == 'behind':
            assume(c < 0)
        else:
            c = {'across': 0.0, 'ahead': 1.0, 'tolerance': 1e-9, 'outside': 0.3}[where]
        return where, c

    def actual(x):
        where, c = x
        if where == 'outside':
            emit('gain', channel.rp_dipole(azimuth=c, tol=0.5), channel.rp_dipole(azimuth=c, tol=0.3))
        else:
            emit('gain', channel.rp_dipole(azimuth=c))

    def expected(x):
        where, c = x
        if where == 'front':
            emit('gain', np.abs(np.cos(math.pi / 2 * np.sqrt(1 - c * c)) / c))
        elif where == 'outside':
            emit('gain', 0, 0)
        else:
            emit('gain', 1 if where == 'ahead' else 0)


class patch(Case):
    """of the two angles, the wave length and the sizes of the patch; nothing behind"""
    params = ['general', 'behind', 'across', 'ahead', 'plane', 'all']

    def setup(where):
        a, t = num('a'), num('t')
        wavelen, width, length = num('wavelen'), num('width'), num('length')
        assume(wavelen > 0, width > 0, length > 0)
        if where == 'behind':
            assume(a < 0)
            t = 0.4
        elif where == 'across':
            a = 0.0
        elif where == 'ahead':
            a = 1.0
        elif where == 'plane':
            a, t = 0.6, 1.0
        elif where == 'all':
            assume(a > 1e-9, a < 0.9999, t > 0, t < 0.9999)
        else:
            a, t = 0.6, 0.28
        return where, a, t, wavelen, width, length

    def actual(x):
        where, a, t, wavelen, width, length = x
        emit('gain', channel.rp_patch(a_cos=a, t_cos=t, wavelen=wavelen, width=width, length=length))

    def expected(x):
        where, a, t, wavelen, width, length = x
        if where in ('behind', 'across'):
            emit('gain', 0)
        elif where == 'ahead':
            emit('gain', 1 * np.sqrt(t * t + (1 - t * t)))
        elif where == 'plane':
            emit('gain', np.abs(np.cos(math.pi * length / wavelen * 0.8)))
        elif where == 'all':
            s, c = np.sqrt(1 - a * a), np.sqrt(1 - t * t)
            if s < 1e-9 or c < 1e-9:
                # not for cosines up to 0.9999
                emit('gain', channel.rp_patch(a_cos=a, t_cos=t, wavelen=wavelen, width=width, length=length))
            else:
                w = math.pi * width / wavelen * s * c
                emit('gain', np.abs(np.sin(w) / w * np.cos(math.pi * length / wavelen * s * t)) * np.sqrt(t * t + (a * c) ** 2))
        else:
            w = math.pi * width / wavelen * 0.8 * 0.96
            emit('gain', np.abs(np.sin(w) / w * np.cos(math.pi * length / wavelen * 0.8 * 0.28)) * np.sqrt(0.28 ** 2 + (0.6 * 0.96) ** 2))


class constant_wall(Case):
    """a constant wall reflects all with opposite phase"""
    def setup():
        return num('c')

    def actual(c):
        emit('wall', channel.reflection_constant(cosine=c, polarization=1, permittivity=2, conductivity=3, wavelen=4), channel.reflection_constant())

    def expected(c):
        emit('wall', -1, -1)


def wall(cosine, polarization, permittivity, conductivity, wavelen):
    sine = np.sqrt(1 - cosine * cosine)
    eta = permittivity - 60j * wavelen * conductivity
    root = (eta - cosine * cosine) ** 0.5
    return (polarization * (sine - root) / (sine + root), (1 - polarization) * (sine * eta - root) / (sine * eta + root))


class real_wall(Case):
    """shares of the two polarizations, each with its coefficient"""
    params = [0, 1, 0.0, 1.0, 0.5, 0.25]

    def setup(polarization):
        c = num('c')
        assume(c > 0, c < 1, num('e') > 1, num('s') > 0, num('w') > 0)
        return c, polarization

    def actual(x):
        c, p = x
        emit('wall', channel.reflection(cosine=c, polarization=p, permittivity=num('e'), conductivity=num('s'), wavelen=num('w')))

    def expected(x):
        c, p = x
        a, b = wall(c, p, num('e'), num('s'), num('w'))
        if p == 0:
            emit('wall', b)
        elif p == 1:
            emit('wall', a)
        else:
            emit('wall', a + b)


def point(name):
    return [num(name + 'x'), num(name + 'y'), num(name + 'z')]


def rays(tx, tx_dir, tx_v, tx_rp, rx, rx_dir, rx_v, rx_rp, wavelen, time, coefficient):
    """complex amplitude of the direct and the reflected ray"""
    k = 2 * math.pi / wavelen
    v = [rx_v[i] - tx_v[i] for i in range(3)]
    e = [rx[i] - tx[i] for i in range(3)]
    d = norm(e)
    e = [x / d for x in e]
    direct = tx_rp(azimuth=dot(e, tx_dir)) * rx_rp(azimuth=-dot(e, rx_dir)) / d * np.exp(-1j * k * (d - time * dot(e, v)))
    s = [-rx[0] - tx[0], rx[1] - tx[1], rx[2] - tx[2]]
    c = norm(s)
    s = [x / c for x in s]
    gain = tx_rp(azimuth=dot(s, tx_dir)) * rx_rp(azimuth=s[0] * rx_dir[0] - s[2] * rx_dir[2])
    reflected = coefficient * gain / c * np.exp(-1j * k * (c - time * dot(s, v)))
    return wavelen / (4 * math.pi) * (direct + reflected)


def affine(a, b):
    def pattern(*, azimuth):
        return num(a) + num(b) * azimuth
    return pattern


class path_loss(Case):
    """amplitude, level and power of the two rays together"""
    params = [(form, pattern) for form in ('amplitude', 'level', 'power', 'default') for pattern in ('own', 'isotropic')]
    deep = [(form, 'dipole') for form in ('amplitude', 'power')]

    def setup(form, pattern):
        tx, rx = point('t'), point('r')
        tx_dir, rx_dir = point('td'), [num('rdx'), 0.0, num('rdz')]
        tx_v, rx_v = [0.0, num('tvy'), num('tvz')], [0.0, num('rvy'), num('rvz')]
        assume(num('wavelen') > 0, num('time') >= 0)
        seen = []

        def ground(**kw):
            seen.append(kw)
            return -0.5
        if pattern == 'own':
            rps = affine('ta', 'tb'), affine('ra', 'rb')
        elif pattern == 'dipole':
            rps = channel.rp_dipole, channel.rp_dipole
        else:
            rps = channel.rp_isotropic, channel.rp_isotropic
        return form, tx, tx_dir, tx_v, rx, rx_dir, rx_v, rps, ground, seen

    def actual(x):
        form, tx, tx_dir, tx_v, rx, rx_dir, rx_v, rps, ground, seen = x
        more = {'amplitude': dict(log=False), 'level': dict(log=True), 'power': dict(crutch=True), 'default': {}}[form]
        r = channel.two_ray_pathloss(
            time=num('time'), ground_reflection=ground, wavelen=num('wavelen'), tx_pos=np.array(tx), tx_dir_theta=np.array(tx_dir),
            tx_dir_phi=None, tx_velocity=np.array(tx_v), tx_rp=rps[0], rx_pos=np.array(rx), rx_dir_theta=np.array(rx_dir),
            rx_dir_phi=None, rx_velocity=np.array(rx_v), rx_rp=rps[1], polarization=num('share'), permittivity=num('e'),
            conductivity=num('s'), **more)
        emit('loss', r)
        emit('wall', len(seen), seen[0]['wavelen'], seen[0]['polarization'], seen[0]['permittivity'], seen[0]['conductivity'],
             seen[0]['cosine'] ** 2)

    def expected(x):
        form, tx, tx_dir, tx_v, rx, rx_dir, rx_v, rps, ground, seen = x
        a = rays(tx, tx_dir, tx_v, rps[0], rx, rx_dir, rx_v, rps[1], num('wavelen'), num('time'), -0.5)
        if form == 'level':
            p = np.abs(a) ** 2
            emit('loss', 10 * np.log10(p) if p >= 1e-15 else float('-inf'))
        elif form == 'power':
            emit('loss', np.abs(a) ** 2)
        else:
            emit('loss', a)
        s = [-rx[0] - tx[0], rx[1] - tx[1], rx[2] - tx[2]]
        emit('wall', 1, num('wavelen'), num('share'), num('e'), num('s'), (s[0] / norm(s)) ** 2)


class powers(Case):
    """of amplitudes: linear, in decibel, and relative to a milliwatt"""
    def setup():
        assume(num('a') > 1, num('a') ** 2 > 1)
        return num('a')

    def actual(a):
        emit('power', channel.to_power(a), channel.to_power(-a), channel.to_power(a, dbm=True), channel.to_power(a, log=False))
        emit('power', channel.to_power(a * 1j), channel.to_power(3 + 4j, log=False))

    def expected(a):
        emit('power', 20 * np.log10(a), 20 * np.log10(a), 20 * np.log10(a) + 30, a * a)
        emit('power', 20 * np.log10(a), 25)


class sine(Case):
    """from the cosine"""
    def setup():
        assume(num('c') > 0, num('c') < 1)
        return num('c')

    def actual(c):
        emit('sine', channel.to_sin(c), channel.to_sin(0.0), channel.to_sin(1.0), channel.to_sin(0.6))

    def expected(c):
        emit('sine', np.sqrt(1 - c * c), 1, 0, 0.8)


class vectors(Case):
    """of three components"""
    def setup():
        return point('v')

    def actual(v):
        r = channel.vec3D(*v)
        emit('vector', len(r), r[0], r[1], r[2])

    def expected(v):
        emit('vector', 3, v[0], v[1], v[2])


class quality(Case):
    """from raw ratio, symbols, preamble and bandwidth; nothing useful from nothing"""
    params = ['given', 'defaults', 'named', 'none', 'little']

    def setup(what):
        assume(num('snr') > 1e-8, num('symbol') > 0, num('preamble') > 0, num('bandwidth') > 0)
        return what

    def actual(what):
        if what == 'defaults':
            emit('snr', channel.snr_full(snr=num('snr')))
        elif what == 'none':
            emit('snr', channel.snr_full(snr=0.0), channel.snr_full(snr=-1.0), channel.snr_full(snr=0.5, tol=0.6))
        elif what == 'little':
            emit('snr', channel.snr_full(snr=2e-8), channel.snr_full(snr=0.9e-8))
        else:
            emit('snr', channel.snr_full(snr=num('snr'), miller=4, symbol=num('symbol'), preamble=num('preamble'), bandwidth=num('bandwidth'), other=7))

    def expected(what):
        if what == 'defaults':
            emit('snr', num('snr') * 1.25e-6 * 1.2e6 * np.cos(1 / np.sqrt(num('snr') * 9.3e-6 * 1.2e6)) ** 2)
        elif what == 'none':
            emit('snr', 0.5, 0.5, 0.5)
        elif what == 'little':
            emit('snr', 2e-8 * 1.25e-6 * 1.2e6 * np.cos(1 / np.sqrt(2e-8 * 9.3e-6 * 1.2e6)) ** 2, 0.5)
        else:
            emit('snr', 4 * num('snr') * num('symbol') * num('bandwidth') * np.cos(1 / np.sqrt(num('snr') * num('preamble') * num('bandwidth'))) ** 2)


class errors(Case):
    """chance of a wrong bit in a Rayleigh channel and without fading; one half without signal"""
    params = ['rayleigh', 'default', 'awgn', 'none']

    def setup(what):
        assume(num('snr') > 1e-8)
        return what

    def actual(what):
        if what == 'default':
            emit('errors', channel.ber(num('snr')))
        elif what == 'none':
            emit('errors', channel.ber(0.0), channel.ber(-3.0), channel.ber(0.9e-8, 'awgn'), channel.ber(0.0, distr='awgn'), channel.ber(0.2, tol=0.3))
        else:
            emit('errors', channel.ber(num('snr'), what))

    def expected(what):
        s = num('snr')
        if what == 'none':
            emit('errors', 0.5, 0.5, 0.5, 0.5, 0.5)
        elif what == 'awgn':
            q = math.erfc(np.sqrt(s / 2)) / 2
            emit('errors', 2 * q * (1 - q))
        else:
            t = np.sqrt(1 + 2 / s)
            emit('errors', 0.5 - 1 / t + 2 / math.pi * np.arctan(t) / t)


class tail(Case):
    """of the normal distribution"""
    params = [0.0, 1.0, 'x']

    def setup(v):
        return num('x') if v == 'x' else v

    def actual(v):
        emit('tail', channel.q_func(v))

    def expected(v):
        emit('tail', (1 - math.erf(v / np.sqrt(2))) / 2)
