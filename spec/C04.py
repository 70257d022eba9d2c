"""Reports and descriptions show the values they name."""
# model: tabulate
import numpy as np
from pysim.models.pingpong import model as ping
from pysim.models.rfid import configurator
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import objects
from pysim.models.rfid.configurator import Settings, create_model
from pysim.models.tag_time import model
from spec.base import Case
from spec.C03 import overrides, settings
from spec.rfid import *


def us(x):
    return f'{x * 1e6:.2f} us'


class model_table(Case):
    """the table of a model lists the settings in force"""
    params = ['settings', 'values given', 'quiet', 'asked for later']
    io = False

    def setup(how):
        s = settings()
        k = overrides() if how == 'values given' else {}
        assume(s.tid_word_size > 0, int_('k_tid') > 0)
        return how, s, k

    def actual(x):
        how, s, k = x
        m = create_model(s, verbose=how in ('settings', 'values given'), **k)
        if how == 'asked for later':
            m.reader.q = int_('other q')
            m.medium.frequency = num('other frequency')
            configurator.print_model_settings(m)

    def expected(x):
        how, s, k = x
        if how == 'quiet':
            return
        given = how == 'values given'
        later = how == 'asked for later'
        tari = num('k_tari') if given else s.tari
        rtcal = tari * s.rtcal_tari_mul
        words = int_('k_tid') if given else s.tid_word_size
        emit('table', [
            ('model', 'max_tags_num', int_('k_tags') if given else s.num_tags),
            ('model', 'update_interval', s.update_interval),
            ('model', 'statistics.use_power_statistics', s.collect_power_statistics),
            ('reader', 'tari', us(tari)),
            ('reader', 'tag_encoding', any_('k_encoding') if given else s.encoding),
            ('reader', 'q', int_('other q') if later else s.q),
            ('reader', 'rtcal', us(rtcal)),
            ('reader', 'trcal', us(rtcal * s.trcal_rtcal_mul)),
            ('reader', 'delim', us(s.delim)),
            ('reader', 'temp', s.temp),
            ('reader', 'session', s.session),
            ('reader', 'target', s.target),
            ('reader', 'sel', s.sel),
            ('reader', 'dr', s.dr),
            ('reader', 'trext', s.trext),
            ('reader', 'target_strategy', s.target_strategy),
            ('reader', 'rounds_per_target', s.rounds_per_target),
            ('reader', 'power_control_mode', objects.Reader.PowerControlMode.PERIODIC if s.reader_switch_power
             else objects.Reader.PowerControlMode.ALWAYS_ON),
            ('reader', 'max_power', num('k_power') if given else s.reader_power),
            ('reader', 'power_on_duration', s.reader_power_on_duration),
            ('reader', 'power_off_duration', s.reader_power_off_duration),
            ('reader', 'noise', s.reader_noise),
            ('reader', 'read_tid_words_num', words),
            ('reader', 'read_tid_bank', s.read_tid_bank),
            ('reader', 'always_start_with_first_antenna', s.reader_always_start_with_first_antenna),
            ('reader', 'antenna_switch_interval', s.reader_antenna_switching_interval),
            ('reader antenna', 'pos', np.asarray([num('k_ro') if given else s.reader_antenna_x, 0,
                                                  num('k_alt') if given else s.reader_antenna_z])),
            ('reader antenna', 'direction_theta', s.reader_antenna_direction),
            ('reader antenna', 'gain', s.reader_antenna_gain),
            ('reader antenna', 'cable_loss', s.reader_cable_loss),
            ('medium', 'ber_distribution', s.ber_distribution),
            ('medium', 'ground_reflection_type', s.ground_reflection_type),
            ('medium', 'frequency', num('other frequency') if later else s.frequency),
            ('medium', 'permittivity', s.permittivity),
            ('medium', 'conductivity', s.conductivity),
            ('medium', 'polarization_loss', s.polarization_loss),
            ('medium', 'use_doppler', s.use_doppler),
            ('tag', 'pos0', np.asarray([num('k_to') if given else s.tag_antenna_x, -s.initial_distance_to_reader,
                                        s.tag_antenna_z])),
            ('tag', 'velocity', num('k_speed') if given else s.speed),
            ('tag', 'direction', np.asarray([0, 1, 0])),
            ('tag', 'antenna_direction', s.tag_antenna_direction),
            ('tag', 'travel_distance', s.travel_distance),
            ('tag', 'epc_bitlen', s.epc_bitlen),
            ('tag', 'tid_bitlen', 16 * words),
            ('tag', 'antenna_gain', s.tag_antenna_gain),
            ('tag', 'modulation_loss', s.tag_modulation_loss),
            ('tag', 'sensitivity', s.tag_sensitivity),
            ('generator', 'num_tags', int_('k_tags') if given else s.num_tags),
        ], ())


class commands(Case):
    """commands name their fields"""
    params = ['query', 'query extended', 'rep', 'adjust up', 'adjust down', 'adjust', 'ack', 'reqrn', 'read']

    def setup(kind):
        rn = int_('rn')
        crc = int_('crc')
        assume(rn >= 0, rn < 0x10000, crc >= 0, crc < 0x10000)
        return kind, rn, crc

    def actual(x):
        kind, rn, crc = x
        q = int_('q')
        if kind in ('query', 'query extended'):
            c = std.Query(std.DivideRatio.DR_643, std.TagEncoding.M2, kind == 'query extended', std.SelFlag.NOT_SEL,
                          std.Session.S2, std.InventoryFlag.B, q, crc)
        elif kind == 'rep':
            c = std.QueryRep(std.Session.S3)
        elif kind == 'adjust up':
            c = std.QueryAdjust(std.Session.S1, 1)
        elif kind == 'adjust down':
            c = std.QueryAdjust(std.Session.S1, -1)
        elif kind == 'adjust':
            c = std.QueryAdjust(std.Session.S0)
        elif kind == 'ack':
            c = std.Ack(rn)
        elif kind == 'reqrn':
            c = std.ReqRN(rn, crc)
        else:
            c = std.Read(std.MemoryBank.USER, int_('ptr'), int_('words'), rn, crc)
        emit('text', str(c))
        emit('text', str(frame_of(c)))

    def expected(x):
        kind, rn, crc = x
        q = int_('q')
        if kind in ('query', 'query extended'):
            s = f"Query{{DR(64/3),M2,TRext({1 if kind == 'query extended' else 0}),~SL,S2,B,Q({q}),CRC(0x{crc:02X})}}"
        elif kind == 'rep':
            s = 'QueryRep{S3}'
        elif kind == 'adjust up':
            s = 'QueryAdjustS1110'
        elif kind == 'adjust down':
            s = 'QueryAdjustS1011'
        elif kind == 'adjust':
            s = 'QueryAdjustS0000'
        elif kind == 'ack':
            s = f'ACK{{0x{rn:04X}}}'
        elif kind == 'reqrn':
            s = f'Req_RN{{RN(0x{rn:04X}),CRC(0x{crc:04X})}}'
        else:
            s = (f"Read{{User,WordPtr(0x{int_('ptr'):02X}),WordCount({int_('words')}),RN(0x{rn:04X}),"
                 f"CRC(0x{crc:04X})}}")
        emit('text', s)
        d, t, r, c = 12.5e-6 * 1e6, 6.25e-6 * 1e6, 18.75e-6 * 1e6, 31.25e-6 * 1e6
        if kind in ('query', 'query extended'):
            p = f'{{Delim({d}us),Tari({t}us),RTcal({r}us),TRcal({c}us)}}'
        else:
            p = f'{{(Delim({d}us),Tari({t}us),RTcal({r}us)}}'
        emit('text', 'Frame{' + p + s + '}')


class replies(Case):
    """replies, preambles and tag frames name their fields"""
    params = [(k, e, t) for k in ('rn', 'ack', 'reqrn', 'read', 'read with error bit')
              for e in ('FM0', 'M2', 'M4', 'M8') for t in (False, True)]

    def setup(kind, enc, trext):
        rn = int_('rn')
        crc = int_('crc')
        assume(rn >= 0, rn < 0x10000, crc >= 0, crc < 0x10000)
        return kind, enc, trext, rn, crc

    def actual(x):
        kind, enc, trext, rn, crc = x
        if kind == 'rn':
            r = std.QueryReply(rn)
        elif kind == 'ack':
            r = std.AckReply('E2003412', int_('pc'), crc)
        elif kind == 'reqrn':
            r = std.ReqRNReply(rn, crc)
        else:
            r = std.ReadReply('0aFF', rn, crc, kind != 'read')
        emit('text', str(r))
        if kind == 'ack':
            emit('EPC', r.get_epc_string(), r.get_epc_string(':'))
        if kind == 'read':
            emit('data', r.get_memory_string(), r.get_memory_string(' '))
        p = std.create_tag_preamble(std.TagEncoding[enc], trext)
        emit('preamble', str(p))
        emit('frame', str(std.TagFrame(p, r)))

    def expected(x):
        kind, enc, trext, rn, crc = x
        if kind == 'rn':
            s = f'Reply(0x{rn:04X})'
        elif kind == 'ack':
            s = f"Reply{{PC(0x{int_('pc'):04X}),EPC(E2003412),CRC(0x{crc:04X})}}"
        elif kind == 'reqrn':
            s = f'Reply{{RN(0x{rn:04X}),CRC(0x{crc:04X})}}'
        else:
            s = f"Reply{{Header({0 if kind == 'read' else 1}),Memory(0AFF),RN(0x{rn:04X}),CRC(0x{crc:04X})}}"
        emit('text', s)
        if kind == 'ack':
            emit('EPC', 'E2003412', 'E2:00:34:12')
        if kind == 'read':
            emit('data', '0AFF', '0A FF')
        if enc == 'FM0':
            p = '{(18)0..01010v1,FM0,trext(1)}' if trext else '{(6)1010v1,FM0,trext(0)}'
        else:
            p = (f'{{(22)DD..DD010111,{enc},trext(1)}}' if trext else f'{{(10)DDDD010111,{enc},trext(0)}}')
        emit('preamble', p)
        emit('frame', 'Frame{' + p + s + '}')


class names(Case):
    """states and modes are known by their names"""
    params = ['all']

    def setup(_):
        return 1

    def actual(_):
        for s in objects.Reader.State:
            emit('reader state', s.name, str(s))
        for s in objects.Reader.PowerControlMode:
            emit('power mode', s.name, str(s))
        for e in std.TagEncoding:
            emit('encoding', str(e), std.TagEncoding.get(e.symbols_per_bit).name)
        for s in std.Session:
            emit('session', str(s))
        for f in (std.SelFlag.ALL, std.SelFlag.SEL, std.SelFlag.NOT_SEL):
            emit('sel', str(f))
        for b in std.MemoryBank:
            emit('bank', b.name, str(b))
        for d in std.DivideRatio:
            emit('dr', d.name, str(d))
        for c in std.CommandCode:
            emit('command', c.name, str(c))
        for i in std.InventoryFlag:
            emit('flag', str(i))

    def expected(_):
        for s in READER_STATES:
            emit('reader state', s, 'QADJUST' if s == 'QAdjust' else s)
        emit('power mode', 'ALWAYS_ON', 'ALWAYS_ON')
        emit('power mode', 'PERIODIC', 'PERIODIC')
        for e in ('FM0', 'M2', 'M4', 'M8'):
            emit('encoding', e, e)
        for s in ('S0', 'S1', 'S2', 'S3'):
            emit('session', s)
        for f in ('ALL', 'SL', '~SL'):
            emit('sel', f)
        for b, t in (('RESERVED', 'Reserved'), ('EPC', 'EPC'), ('TID', 'TID'), ('USER', 'User')):
            emit('bank', b, t)
        emit('dr', 'DR_8', '8')
        emit('dr', 'DR_643', '64/3')
        for c, t in (('QUERY', 'Query'), ('QUERY_REP', 'QueryRep'), ('QUERY_ADJUST', 'QueryAdjust'), ('ACK', 'ACK'),
                     ('REQ_RN', 'Req_RN'), ('READ', 'Read')):
            emit('command', c, t)
        emit('flag', 'A')
        emit('flag', 'B')


def a_tag():
    _, _, t = tag_in('ARBITRATE', std.Session.S1, enc=std.TagEncoding.M4, slot=3)
    return t


class of_tags(Case):
    """a tag is described by its id, place, power, flags, encoding, slot and number"""
    params = ['describe', 'str']
    deep = True

    def setup(kind):
        return kind, a_tag()

    def actual(x):
        kind, t = x
        emit('text', t.describe() if kind == 'describe' else str(t))

    def expected(x):
        kind, t = x
        s = t.sessions
        if kind == 'describe':
            emit('text', f'tag id={t.tag_id}, state={t.state.name},q = {t.q}, current_slot = {t.slot_counter}, '
                         f'pos={t.pos}, power={t.power}, S0={s[std.Session.S0]}, S1={s[std.Session.S1]}, '
                         f'S2={s[std.Session.S2]}, S3={s[std.Session.S3]}, SL={t.sl}, M={t.encoding}, '
                         f'CNT={t.slot_counter}, RN={t.rn}')
        else:
            emit('text', f'Tag id={t.tag_id}, pos={t.pos}, velocity={t.velocity:.3f}, direction={t.direction}, '
                         f'state={t.state.name}, power={t.power}, S0={s[std.Session.S0]}, S1={s[std.Session.S1]}, '
                         f'S2={s[std.Session.S2]}, S3={s[std.Session.S3]}, SL={t.sl}, M={t.encoding}, '
                         f'TRext={t.trext}, EPC={t.epc}, TID={t.tid}')


def reading(k=''):
    r = objects._TagReadRecord()
    r.round_index = int_('round' + k)
    r.antenna_index = int_('antenna' + k)
    r.tag_pos = np.array([num('x' + k), num('y' + k), num('z' + k)])
    r.reader_antenna_pos = np.array([num('ax' + k), 0.0, num('az' + k)])
    r.ber = num('ber' + k)
    r.snr = num('snr' + k)
    r.read_tid = boolean('tid' + k)
    return r


def reading_text(r):
    return (f'(round={r.round_index}, ant={r.antenna_index},tag_pos={r.tag_pos}, ant_pos={r.reader_antenna_pos},'
            f'BER={r.ber}, SNR={r.snr},read_tid={r.read_tid})')


def strength(k, known_powers):
    r = objects._TagPowerRecord()
    r.time = num('time' + k)
    r.field_lifetime = num('lifetime' + k)
    r.tag_pos = np.array([num('px' + k), num('py' + k), num('pz' + k)])
    r.reader_antenna_index = int_('index' + k)
    r.reader_antenna_pos = np.array([num('bx' + k), 0.0, num('bz' + k)])
    r.snr = num('psnr' + k)
    r.ber = num('pber' + k)
    r.reader_tag_pl = num('plf' + k)
    r.tag_reader_pl = num('plb' + k)
    if known_powers:
        r.tag_rx_power = num('trx' + k)
        r.tag_tx_power = num('ttx' + k)
        r.reader_rx_power = num('rrx' + k)
        r.reader_tx_power = num('rtx' + k)
    return r


def strength_text(r, k, known_powers):
    if known_powers:
        powers = num('trx' + k), num('ttx' + k), num('rrx' + k), num('rtx' + k)
    else:
        powers = -120, -120, -120, -120
    return (f'time={r.time:.9f}, t_on={r.field_lifetime:12.9f}, tag_pos={str(r.tag_pos):14s}, '
            f'antenna_index={r.reader_antenna_index}, antenna_pos={str(r.reader_antenna_pos):8s}, '
            f'tag_rx_power={powers[0]:.2f}, tag_tx_power={powers[1]:.2f}, '
            f'reader_rx_power={powers[2]:.2f}, reader_tx_power={powers[3]:.2f}, '
            f'SNR={r.snr:.4f}, BER={r.ber:.6f}, PLrt={r.reader_tag_pl:.2f}, PLtr={r.tag_reader_pl:.2f}')


class records(Case):
    """records of reads and of powers; an absent power is shown as -120 dBm"""
    params = ['read', 'power', 'no power']
    deep = True

    def setup(kind):
        return kind, reading() if kind == 'read' else strength('', kind == 'power')

    def actual(x):
        kind, r = x
        emit('text', str(r))

    def expected(x):
        kind, r = x
        emit('text', reading_text(r) if kind == 'read' else strength_text(r, '', kind == 'power'))


class histories(Case):
    """the history of a tag lists its reads and powers; the statistics list the tags that left"""
    params = [(r, p) for r in (0, 1, 2) for p in (0, 1, 2)]
    deep = True

    def setup(reads, powers):
        t = a_tag()
        rec = objects._TagRecord(t)
        rec.num_rounds_attained = int_('rounds')
        rec.inventory_history = [reading(str(k)) for k in range(reads)]
        rec.power_mapping = [strength(str(k), True) for k in range(powers)]
        st = objects.Statistics()
        st.num_tags_created = int_('created')
        st.tags_history = [rec]
        return t, rec, st

    def actual(x):
        t, rec, st = x
        emit('tag', rec.to_long_string())
        emit('all', st.to_long_string())

    def expected(x):
        t, rec, st = x
        reads = '\n\t\t\t'.join([reading_text(r) for r in rec.inventory_history])
        powers = '\n\t\t\t'.join([strength_text(r, str(k), True) for k, r in enumerate(rec.power_mapping)])
        s = (f'TagRecord {{\n        tag = {t},\n        num_rounds_attained = {int_("rounds")},\n'
             f'        inventory_history = [{reads}],\n        power_mapping = [{powers}],\n    }}')
        emit('tag', s)
        emit('all', f'Statistics {{\nnum_tags_created = {int_("created")},\ntags_history = {s},\n}}')


class transactions(Case):
    """a transaction shows its command, the replies with their tags, and how long it took"""
    params = [0, 1, 2]

    def setup(n):
        m, desk, r = field(now=num('now'))
        r.turn_on()
        replies = []
        for k in range(n):
            t, f = stranger(desk, k + 3)
            t._blf = 640000.0
            replies.append((t, f))
        command = sync_frame(std.QueryRep(std.Session.S1))
        return objects.Transaction(m.medium, r, command, replies, num('now')), n

    def actual(x):
        tr, n = x
        emit('text', str(tr))

    def expected(x):
        tr, n = x
        r = ', '.join([f'Reply(0x{103 + k:04X}) from {3 + k}' for k in range(n)])
        emit('text', f'Transaction {{ cmd=QueryRep{{S1}},replies={r}, duration={tr.duration:.9f} }}')


class nodes(Case):
    """the nodes and states of the small models are shown by name, number and state"""
    params = ['client', 'server', 'channel', 'state']

    def setup(kind):
        return kind

    def actual(kind):
        if kind == 'client':
            emit('text', str(ping.Client(num('interval'), 5)))
        elif kind == 'server':
            emit('text', str(ping.Server(num('loss'), num('delay'))))
        elif kind == 'channel':
            emit('text', str(ping.Channel(num('delay'))))
        else:
            for k in range(5):
                emit('text', str(model.State(k, 0.5, 1.0, 5, 1)))

    def expected(kind):
        if kind == 'state':
            for k in range(5):
                emit('text', f'Состояние метки: {k}')
        else:
            emit('text', {'client': 'client', 'server': 'server', 'channel': 'Channel'}[kind])
