"""Tag-time inputs: data is conserved in chunks and paired with lengths and times."""
import numpy as np
import pysim.models.rfid.epcstd as p
from pysim.models.tag_time import calculate_params as cp
from spec.base import Case

ENCODINGS = ('FM0', 'M2', 'M4', 'M8')


class chunks(Case):
    """all words are in some chunk: n - 1 equal ones and the last one"""
    params = [1, 2, 3, 4, 7, 10]

    def setup(n):
        return n, nat('words')

    def actual(x):
        n, words = x
        each, last = cp.calculate_chunks(words, n)
        emit('words', each * (n - 1) + last if n > 1 else each, last >= 0, last is 0 or n > 1)

    def expected(x):
        n, words = x
        emit('words', words, True, True)


class any_chunks(Case):
    """for any number of chunks"""
    def setup():
        n = nat('n')
        assume(n >= 2)
        return n, nat('words')

    def actual(x):
        n, words = x
        each, last = cp.calculate_chunks(words, n)
        emit('words', each * (n - 1) + last)

    def expected(x):
        n, words = x
        emit('words', words)


class replies(Case):
    """one reply per chunk, each with the words of its chunk"""
    params = [(1, 5), (2, 5), (3, 8), (4, 4), (5, 23)]

    def setup(n, words):
        return n, words, boolean('trext')

    def actual(x):
        n, words, trext = x
        each, last = cp.calculate_chunks(words, n)
        r = cp.create_replies(p.TagEncoding.M4, trext, n, each, last)
        emit('chunks', [d.bitlen for d in r['data']])
        emit('lengths', r['rn16'].bitlen, r['handle'].bitlen)

    def expected(x):
        n, words, trext = x
        each, last = cp.calculate_chunks(words, n)
        bits = [33 + 16 * each] * (n - 1) + [33 + 16 * (words - each * (n - 1))]
        emit('chunks', bits)
        emit('lengths', 16, 32)


class commands(Case):
    """the command of each state is of its kind"""
    def setup():
        return num('tari'), num('rtcal'), num('trcal'), p.DivideRatio.DR_643, p.TagEncoding.M8, boolean('trext')

    def actual(x):
        c = cp.create_commands(*x)
        emit('kinds', [isinstance(c['query'], p.Query), isinstance(c['query_rep'], p.QueryRep), isinstance(c['ack'], p.Ack),
                       isinstance(c['req_rn'], p.ReqRN), isinstance(c['read'], p.Read)])
        q = c['query']
        emit('query', q.dr, q.m, q.trext)
        emit('preamble', c['preamble'].duration, c['sync'].duration, c['preamble'].data0, c['sync'].data1)

    def expected(x):
        tari, rtcal, trcal, dr, m, trext = x
        emit('kinds', [True] * 5)
        emit('query', dr, m, trext)
        emit('preamble', 12.5e-6 + tari + rtcal + trcal, 12.5e-6 + tari + rtcal, tari, rtcal - tari)


class probabilities(Case):
    """(1 - BER) to the power of the length of the reply of the state, in order, for every point"""
    params = [(1, 1), (1, 3), (3, 2), (4, 1)]

    def setup(n, points):
        return n, points, [num('ber%d' % i) for i in range(points)], [nat('data%d' % i) for i in range(n)], \
            nat('rn16'), nat('epc'), nat('handle')

    def actual(x):
        n, points, ber, data, rn16, epc, handle = x
        params = {'RN16_len': rn16, 'EPC+PC+CRC_len': epc, 'Handle_len': handle, 'Data_len': data}
        r = cp.prepare_probs(params, n, np.array(ber), points)
        emit('probabilities', [[e for e in row] for row in r])

    def expected(x):
        n, points, ber, data, rn16, epc, handle = x
        emit('probabilities', [[(1 - b) ** k for k in [rn16, epc, handle] + data] for b in ber])


class times(Case):
    """command, reply and turn-around times of each state"""
    params = [(n, points, dr) for n in (1, 3) for points in (1, 2) for dr in ('DR_8', 'DR_643')]

    def setup(n, points, dr):
        stub('pysim.models.rfid.epcstd', 'link_t1_max', times.t1)
        stub('pysim.models.rfid.epcstd', 'link_t2_max', times.t2)
        return n, points, {
            'rtcal': num('rtcal'), 'trcal': num('trcal'), 'DR': getattr(p.DivideRatio, dr), 'Query': num('query'),
            'RN16': num('rn16'), 'Ack': num('ack'), 'EPC+PC+CRC': num('epc'), 'Req_RN': num('reqrn'), 'Handle': num('handle'),
            'Read': num('read'), 'QueryRep': num('queryrep'), 'Data': [num('data%d' % i) for i in range(n)]}

    def t1(rtcal=None, trcal=None, dr=None, temp=None):
        return term('t1', rtcal, trcal, dr, temp, kind='num')

    def t2(trcal=None, dr=None):
        return term('t2', trcal, dr, kind='num')

    def actual(x):
        n, points, params = x
        r = cp.prepare_times(params, [None] * points, n)
        emit('times', [[e for e in row] for row in r])

    def expected(x):
        n, points, d = x
        gap = times.t1(d['rtcal'], d['trcal'], d['DR']) + times.t2(d['trcal'], d['DR']) + 2e-5
        row = [gap + d['Query'] + d['RN16'], gap + d['Ack'] + d['EPC+PC+CRC'], gap + d['Req_RN'] + d['Handle']]
        for e in d['Data']:
            row.append(gap + d['Read'] + e)
        emit('times', [row] * points)


class messages(Case):
    """lengths and durations of all messages come from the frames of the configured link"""
    params = [(m, dr, ext, n) for m in ENCODINGS for dr in ('DR_8', 'DR_643') for ext in (False, True) for n in (1, 3)]

    def setup(m, dr, ext, n):
        tari = num('tari')
        assume(tari > 0)
        return tari, getattr(p.TagEncoding, m), getattr(p.DivideRatio, dr), ext, n

    def actual(x):
        tari, m, dr, ext, n = x
        each, last = cp.calculate_chunks(9, n)
        d = cp.build_messages_df(tari, m, dr, ext, n, each, last)
        for k in ('Query', 'QueryRep', 'Ack', 'Req_RN', 'Read'):
            emit(k, d[k])
        for k in ('RN16', 'EPC+PC+CRC', 'Handle'):
            emit(k, d[k], d[k + '_len'])
        emit('data', [e for e in d['Data']], [e for e in d['Data_len']])
        emit('link', d['rtcal'], d['trcal'], d['DR'], d['M'], d['TRext'], d['BLF'])

    def reader(command, tari, rtcal, trcal, query):
        ones = 0
        for b in command.encode():
            if b == '1':
                ones = ones + 1
        zeros = len(command.encode()) - ones
        return 12.5e-6 + tari + rtcal + (trcal if query else 0) + zeros * tari + ones * (rtcal - tari)

    def expected(x):
        us, m, dr, ext, n = x
        tari = us * 1e-6
        rtcal = 2.75 * tari
        trcal = 1.95 * rtcal
        blf = (8 if dr is p.DivideRatio.DR_8 else p.DivideRatio.DR_643.eval()) / trcal
        c = cp.create_commands(tari, rtcal, trcal, dr, m, ext)
        for k, name in (('Query', 'query'), ('QueryRep', 'query_rep'), ('Ack', 'ack'), ('Req_RN', 'req_rn'), ('Read', 'read')):
            emit(k, messages.reader(c[name], tari, rtcal, trcal, name == 'query'))
        symbols = {'FM0': 1, 'M2': 2, 'M4': 4, 'M8': 8}[m.name]
        head = (6 if m is p.TagEncoding.FM0 else 10) + (12 if ext else 0)
        epc = p.AckReply(cp.EPC).bitlen
        for k, bits in (('RN16', 16), ('EPC+PC+CRC', epc), ('Handle', 32)):
            emit(k, (head + bits + 1) * symbols / blf, head + bits + 1)
        each, last = cp.calculate_chunks(9, n)
        sizes = [each] * (n - 1) + [9 - each * (n - 1)]
        bits = [head + 33 + 16 * s + 1 for s in sizes]
        emit('data', [b * symbols / blf for b in bits], bits)
        emit('link', rtcal, trcal, dr, m, ext, blf)
