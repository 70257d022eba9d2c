"""Every option and setting reaches the component it configures."""
# model: click multiprocessing concurrent.futures tabulate matplotlib matplotlib.pyplot
import numpy as np
from pysim.models.pingpong import cli as ping_cli
from pysim.models.pingpong.objects import Config as PingConfig
from pysim.models.pingpong import handlers as ping_handlers
from pysim.models.rfid import cli as rfid_cli
from pysim.models.rfid import configurator
from pysim.models.rfid import epcstd as std
from pysim.models.rfid import handlers as rfid_handlers
from pysim.models.rfid.configurator import Settings, create_model
from pysim.models.rfid.objects import Reader
from pysim.models.tag_time import cli as tag_cli
from pysim.models.tag_time import handlers as tag_handlers
from pysim.sim.logger import ModelLoggerConfig
from spec.base import Case

NUMBERS = ('delim', 'tari', 'rtcal_tari_mul', 'trcal_rtcal_mul', 'speed', 'initial_distance_to_reader',
           'travel_distance', 'reader_antenna_x', 'reader_antenna_z', 'tag_antenna_x', 'tag_antenna_z',
           'update_interval', 'reader_power', 'reader_antenna_gain', 'reader_cable_loss', 'tag_antenna_gain',
           'tag_modulation_loss', 'tag_sensitivity', 'reader_noise', 'frequency', 'permittivity', 'conductivity',
           'polarization_loss', 'reader_power_on_duration', 'reader_power_off_duration',
           'reader_antenna_switching_interval', 'adjust_delta', 'q_fp', 's1_persistence', 's2_persistence',
           's3_persistence')
WHOLE = ('tid_word_size', 'q', 'rounds_per_target', 'epc_bitlen', 'num_tags')
FLAGS = ('use_doppler', 'reader_switch_power', 'reader_always_start_with_first_antenna', 'read_tid_bank', 'trext',
         'use_query_adjust', 'collect_power_statistics')
OTHER = ('temp', 'encoding', 'dr', 'sel', 'session', 'target')
TEXTS = ('ber_distribution', 'ground_reflection_type', 'target_strategy')


def interval(*args):
    emit('interval', args)
    return term('interval', *args, kind='num')


def settings(prefix=''):
    s = Settings()
    for n in NUMBERS:
        setattr(s, n, num(prefix + n))
    for n in WHOLE:
        setattr(s, n, int_(prefix + n))
    for n in FLAGS:
        setattr(s, n, boolean(prefix + n))
    for n in OTHER:
        setattr(s, n, any_(prefix + n))
    for n in TEXTS:
        setattr(s, n, text(prefix + n))
    s.reader_antenna_direction = np.asarray([num(prefix + 'ra%d' % i) for i in range(3)])
    s.tag_antenna_direction = np.asarray([num(prefix + 'ta%d' % i) for i in range(3)])
    s.generation_interval = (interval, num(prefix + 'mean'), num(prefix + 'second'))
    return s


def overrides():
    return {'speed': num('k_speed'), 'encoding': any_('k_encoding'), 'tari': num('k_tari'),
            'tid_word_size': int_('k_tid'), 'reader_offset': num('k_ro'), 'tag_offset': num('k_to'),
            'altitude': num('k_alt'), 'power': num('k_power'), 'num_tags': int_('k_tags'),
            'useadjust': boolean('k_ua'), 'delta': num('k_delta')}


def listed(v):
    return [v[0], v[1], v[2]]


def seen(model):
    """what the model, its parts and the tags it makes were configured with"""
    r = model.reader
    a = r.antenna
    m = model.medium
    g = model.generators[0]
    return {
        'model': {'update_interval': model.update_interval, 'max_tags_num': model.max_tags_num,
                  'tags': len(model.tags), 'generators': len(model.generators),
                  'power statistics': model.statistics.use_power_statistics},
        'coding': {'tari': r.tari, 'rtcal': r.rtcal, 'trcal': r.trcal, 'delim': r.delim, 'temp': r.temp},
        'round': {'session': r.session, 'target': r.target, 'sel': r.sel, 'dr': r.dr, 'trext': r.trext,
                  'tag_encoding': r.tag_encoding, 'q': r.q, 'strategy': r.target_strategy,
                  'rounds_per_target': r.rounds_per_target},
        'adjust': {'use': r.use_query_adjust, 'delta': r.adjust_delta, 'q_fp': r.q_fp},
        'power': {'max': r.max_power, 'on': r.power_control_mode.min_powered_on_interval(r),
                  'off': r.power_control_mode.powered_off_interval(r), 'noise': r.noise},
        'read': {'bank': r.read_tid_bank, 'words': r.read_tid_words_num},
        'antennas': {'first': r.always_start_with_first_antenna, 'interval': r.antenna_switch_interval,
                     'number': r.num_antennas},
        'antenna': {'pos': listed(a.pos), 'theta': listed(a.direction_theta), 'gain': a.gain, 'loss': a.cable_loss,
                    'index': a.index},
        'medium': {'ber': m.ber_distribution, 'reflection': m.ground_reflection_type, 'frequency': m.frequency,
                   'permittivity': m.permittivity, 'conductivity': m.conductivity,
                   'polarization': m.polarization_loss, 'doppler': m.use_doppler},
        'generator': {'pos': listed(g.pos0), 'velocity': g.velocity, 'direction': listed(g.direction),
                      'theta': listed(g.tag_antenna_direction), 'travel': g.travel_distance,
                      'epc': g.epc_bitlen, 'tid': g.tid_bitlen, 'max': g.max_tags_generated, 'gain': g.antenna_gain,
                      'modulation': g.modulation_loss, 'sensitivity': g.sensitivity, 's1': g.s1_persistence,
                      's2': g.s2_persistence, 's3': g.s3_persistence, 'interval': g.interval},
    }


def demanded(s, k):
    """the same, from settings s and call arguments k"""
    tari = k.get('tari', s['tari'])
    rtcal = tari * s['rtcal_tari_mul']
    words = k.get('tid_word_size', s['tid_word_size'])
    tags = k.get('num_tags', s['num_tags'])
    emit('interval', (s['interval'][1], s['interval'][2]))
    return {
        'model': {'update_interval': s['update_interval'], 'max_tags_num': tags, 'tags': 0, 'generators': 1,
                  'power statistics': s['collect_power_statistics']},
        'coding': {'tari': tari, 'rtcal': rtcal, 'trcal': rtcal * s['trcal_rtcal_mul'], 'delim': s['delim'],
                   'temp': s['temp']},
        'round': {'session': s['session'], 'target': s['target'], 'sel': s['sel'], 'dr': s['dr'], 'trext': s['trext'],
                  'tag_encoding': k.get('encoding', s['encoding']), 'q': s['q'], 'strategy': s['target_strategy'],
                  'rounds_per_target': s['rounds_per_target']},
        'adjust': {'use': k.get('useadjust', s['use_query_adjust']), 'delta': k.get('delta', s['adjust_delta']),
                   'q_fp': s['q_fp']},
        'power': {'max': k.get('power', s['reader_power']),
                  'on': s['reader_power_on_duration'] if s['reader_switch_power'] else None,
                  'off': s['reader_power_off_duration'] if s['reader_switch_power'] else None,
                  'noise': s['reader_noise']},
        'read': {'bank': s['read_tid_bank'] if words > 0 else False, 'words': words},
        'antennas': {'first': s['reader_always_start_with_first_antenna'],
                     'interval': s['reader_antenna_switching_interval'], 'number': 1},
        'antenna': {'pos': [k.get('reader_offset', s['reader_antenna_x']), 0, k.get('altitude', s['reader_antenna_z'])],
                    'theta': s['ra'], 'gain': s['reader_antenna_gain'], 'loss': s['reader_cable_loss'], 'index': 0},
        'medium': {'ber': s['ber_distribution'], 'reflection': s['ground_reflection_type'],
                   'frequency': s['frequency'], 'permittivity': s['permittivity'], 'conductivity': s['conductivity'],
                   'polarization': s['polarization_loss'], 'doppler': s['use_doppler']},
        'generator': {'pos': [k.get('tag_offset', s['tag_antenna_x']), -s['initial_distance_to_reader'],
                              s['tag_antenna_z']],
                      'velocity': k.get('speed', s['speed']), 'direction': [0, 1, 0], 'theta': s['ta'],
                      'travel': s['travel_distance'], 'epc': s['epc_bitlen'], 'tid': 16 * words, 'max': tags,
                      'gain': s['tag_antenna_gain'], 'modulation': s['tag_modulation_loss'],
                      'sensitivity': s['tag_sensitivity'], 's1': s['s1_persistence'], 's2': s['s2_persistence'],
                      's3': s['s3_persistence'],
                      'interval': term('interval', s['interval'][1], s['interval'][2], kind='num')},
    }


def plain(s):
    out = {n: getattr(s, n) for n in NUMBERS + WHOLE + FLAGS + OTHER + TEXTS}
    out['ra'] = listed(s.reader_antenna_direction)
    out['ta'] = listed(s.tag_antenna_direction)
    out['interval'] = s.generation_interval
    return out


class from_settings(Case):
    """every settings field ends up in the component it describes"""
    params = [False, True]

    def quiet(rows, *args, **kw):
        return ''

    def setup(verbose):
        s = settings()
        stub('tabulate', 'tabulate', from_settings.quiet)
        return s, plain(s), verbose

    def actual(x):
        return seen(create_model(x[0], verbose=x[2]))

    def expected(x):
        return demanded(x[1], {})


class from_call(Case):
    """values given at call time take precedence over the settings object"""
    def setup():
        s = settings()
        return s, plain(s), overrides()

    def actual(x):
        s, _, k = x
        return seen(create_model(s, **k))

    def expected(x):
        return demanded(x[1], x[2])


class one_override(Case):
    """each value given alone at call time takes precedence, the others stay; zero and False count as given"""
    params = [(n, z) for n in ('speed', 'encoding', 'tari', 'tid_word_size', 'reader_offset', 'tag_offset', 'altitude',
                               'power', 'num_tags', 'useadjust', 'delta')
              for z in (False, True)]

    def setup(name, zero):
        s = settings()
        value = overrides()[name]
        if zero:
            value = False if name == 'useadjust' else 0
        return s, plain(s), {name: value}

    def actual(x):
        s, _, k = x
        return seen(create_model(settings=s, **k))

    def expected(x):
        return demanded(x[1], x[2])


class two_models(Case):
    """settings objects with different contents give different models"""
    def setup():
        a, b = settings('a_'), settings('b_')
        return a, b, plain(a), plain(b)

    def actual(x):
        m = create_model(x[0])
        n = create_model(x[1])
        return seen(m), seen(n)

    def expected(x):
        return demanded(x[2], {}), demanded(x[3], {})


class settings_untouched(Case):
    """building a model leaves the settings object as it was"""
    def setup():
        s = settings()
        return s, plain(s), overrides()

    def actual(x):
        create_model(x[0], **x[2])
        return plain(x[0])

    def expected(x):
        return x[1]


class derived_settings(Case):
    """calibration intervals, memory size and power mode follow from the settings"""
    def setup():
        s = settings()
        return s, plain(s), num('other'), int_('words')

    def actual(x):
        s, _, other, words = x
        return (s.rtcal, s.trcal, s.get_rtcal(other), s.get_trcal(other), s.tid_bitlen, s.get_tid_bitlen(words),
                s.get_power_control_mode() is Reader.PowerControlMode.PERIODIC,
                s.get_power_control_mode(True) is Reader.PowerControlMode.PERIODIC,
                s.get_power_control_mode(False) is Reader.PowerControlMode.ALWAYS_ON)

    def expected(x):
        s, p, other, words = x
        rtcal = p['tari'] * p['rtcal_tari_mul']
        return (rtcal, rtcal * p['trcal_rtcal_mul'], other * p['rtcal_tari_mul'], other * p['trcal_rtcal_mul'],
                16 * p['tid_word_size'], 16 * words, p['reader_switch_power'], True, True)


class tag_of_settings(Case):
    """a generated tag carries the tag settings"""
    def setup():
        s = settings()
        s.epc_bitlen = 96
        s.tid_word_size = 8
        return s, plain(s)

    def actual(x):
        m = create_model(x[0])
        t = m.generators[0].create_tag(m)
        return {'pos': listed(t.pos), 'velocity': t.velocity, 'direction': listed(t.direction), 'gain': t.antenna.gain,
                'theta': listed(t.antenna.direction_theta), 'sensitivity': t.sensitivity,
                'modulation': t.modulation_loss, 's1': t.s1_persistence, 's2': t.s2_persistence,
                's3': t.s3_persistence, 'epc': 4 * len(t.epc), 'tid': 4 * len(t.tid)}

    def expected(x):
        s = x[1]
        return {'pos': [s['tag_antenna_x'], -s['initial_distance_to_reader'], s['tag_antenna_z']],
                'velocity': s['speed'], 'direction': [0, 1, 0], 'gain': s['tag_antenna_gain'], 'theta': s['ta'],
                'sensitivity': s['tag_sensitivity'], 'modulation': s['tag_modulation_loss'],
                's1': s['s1_persistence'], 's2': s['s2_persistence'], 's3': s['s3_persistence'],
                'epc': 96, 'tid': 128}


class default_settings(Case):
    """without a settings object the documented defaults are used"""
    def actual(x):
        m = create_model()
        r = m.reader
        return (r.tari, r.rtcal, r.trcal, r.delim, r.max_power, r.tag_encoding, r.read_tid_words_num,
                m.max_tags_num, m.medium.frequency, m.generators[0].velocity, r.q, r.target_strategy,
                m.medium.ber_distribution, m.medium.ground_reflection_type, m.update_interval)

    def expected(x):
        return (6.25e-6, 18.75e-6, 46.875e-6, 12.5e-6, 31.5, std.TagEncoding.M4, 8, 1000, 860 * 1e6, 30 / 3.6, 5,
                'switch', 'rayleigh', 'reflection', 0.01)


# -- command line options ---------------------------------------------------

def build(model_name, init, init_args=(), fin=None, context=None, max_real_time=None, max_sim_time=None,
          max_num_events=None, logger_config=None, debug=False):
    return {'init': init, 'init_args': init_args, 'fin': fin, 'context': context, 'max_real_time': max_real_time,
            'max_sim_time': max_sim_time, 'max_num_events': max_num_events, 'logger_config': logger_config,
            'debug': debug}


def finish(sim):
    emit('simulate', sim['init'], len(sim['init_args']), sim['fin'], sim['max_real_time'], sim['max_sim_time'],
         sim['max_num_events'], sim['debug'])
    emit('logger', sim['logger_config'])
    return any_('stats'), any_('context'), any_('result')


def stub_kernel():
    stub('pysim.sim.simulator', 'build_simulation', build)
    stub('pysim.sim.simulator', 'run_simulation', finish)


class limits(Case):
    """the limits and the logger configuration of a run reach the kernel"""
    params = ['rfid', 'pingpong', 'tag_time']

    def setup(model):
        stub_kernel()
        return (model, any_('config'), any_('logger'),
                {'max_real_time': num('real'), 'max_sim_time': num('sim'), 'max_num_events': int_('events')})

    def actual(x):
        model, config, log, kw = x
        if model == 'rfid':
            return configurator.run_model(config, log, **kw)
        if model == 'pingpong':
            return ping_cli.run_model(config, log, **kw)
        return tag_cli.run_model(config, log, **kw)

    def expected(x):
        model, config, log, kw = x
        if model == 'rfid':
            emit('simulate', rfid_handlers.start_simulation, 0, None, kw['max_real_time'], kw['max_sim_time'],
                 kw['max_num_events'], False)
            emit('logger', log)
            return any_('result')
        h = ping_handlers if model == 'pingpong' else tag_handlers
        emit('simulate', h.initialize, 1, h.finalize, kw['max_real_time'], kw['max_sim_time'], kw['max_num_events'],
             False)
        emit('logger', log)
        return any_('result') if model == 'pingpong' else any_('stats')


class no_limits(Case):
    """without limits the kernel gets none"""
    params = ['rfid', 'pingpong', 'tag_time']

    def setup(model):
        stub_kernel()
        return model, any_('config'), any_('logger')

    def actual(x):
        model, config, log = x
        if model == 'rfid':
            configurator.run_model(config, log)
        elif model == 'pingpong':
            ping_cli.run_model(config, log)
        else:
            tag_cli.run_model(config, log)

    def expected(x):
        model, config, log = x
        if model == 'rfid':
            emit('simulate', rfid_handlers.start_simulation, 0, None, None, None, None, False)
        else:
            h = ping_handlers if model == 'pingpong' else tag_handlers
            emit('simulate', h.initialize, 1, h.finalize, None, None, None, False)
        emit('logger', log)


class context_and_config(Case):
    """the model object is the context of its run, the configuration goes to the initializer"""
    params = ['rfid', 'pingpong', 'tag_time']

    def seen(sim):
        emit('passed', sim['context'], list(sim['init_args']))
        return None, None, None

    def setup(model):
        stub('pysim.sim.simulator', 'build_simulation', build)
        stub('pysim.sim.simulator', 'run_simulation', context_and_config.seen)
        return model, any_('config'), any_('logger')

    def actual(x):
        model, config, log = x
        if model == 'rfid':
            configurator.run_model(config, log)
        elif model == 'pingpong':
            ping_cli.run_model(config, log)
        else:
            tag_cli.run_model(config, log)

    def expected(x):
        model, config, log = x
        if model == 'rfid':
            emit('passed', config, [])
        else:
            emit('passed', None, [config])


PING = {'interval': ('--interval', '-i', 10.0), 'channel_delay': ('--channel_delay', '-ch', 2.0),
        'service_delay': ('--service_delay', '-s', 1.0), 'loss_prob': ('--loss_prob', '-l', 0.1),
        'max_pings': ('--max_pings', '-mp', 1000000)}


class ping_options(Case):
    """each ping-pong option configures its own quantity, omitted ones have the documented default"""
    params = [(n, k) for n in PING for k in (0, 1)] + [('all', 0), ('none', 0)]

    def seen(sim):
        c = sim['init_args'][0]
        if not isinstance(c, PingConfig):
            emit('no configuration')
            return None, None, None
        emit('config', c.interval, c.channel_delay, c.service_delay, c.loss_prob, c.max_pings)
        return None, None, any_('result')

    def nothing(kw, result, variadic):
        pass

    def setup(name, k):
        stub('pysim.sim.simulator', 'build_simulation', build)
        stub('pysim.sim.simulator', 'run_simulation', ping_options.seen)
        stub('pysim.models.pingpong.processing', 'result_processing', ping_options.nothing)
        values = {n: num(n) for n in PING}
        values['max_pings'] = int_('max_pings')
        if name == 'all':
            given = values
        elif name == 'none':
            given = {}
        else:
            given = {name: values[name]}
        return sum([[PING[n][k], given[n]] for n in given], []), given

    def actual(x):
        ping_cli.cli_run.run_with(x[0])

    def expected(x):
        emit('config', *[x[1].get(n, PING[n][2]) for n in PING])


TAG = {'probability': ('--probability', '-p', (0.9, 0.95, 0.93, 0.91)),
       'processing_time': ('--processing_time', '-t', (1, 1, 1, 1)),
       'max_transmisions': ('--max_transmisions', '-m', 2000), 'chunks_number': ('--chunks_number', '-cn', 10),
       'scenario': ('--scenario', '-s', 1)}


class tag_options(Case):
    """each tag-time option configures its own quantity, omitted ones have the documented default"""
    params = [(n, k) for n in TAG for k in (0, 1)] + [('all', 0), ('none', 0)]

    def seen(sim):
        c = sim['init_args'][0]
        emit('config', c.probability, c.processing_time, c.max_transmisions, c.chunks_number, c.scenario)
        return any_('stats'), None, None

    def setup(name, k):
        stub('pysim.sim.simulator', 'build_simulation', build)
        stub('pysim.sim.simulator', 'run_simulation', tag_options.seen)
        values = {'probability': tuple([num('p%d' % i) for i in range(4)]),
                  'processing_time': tuple([num('t%d' % i) for i in range(4)]),
                  'max_transmisions': int_('max'), 'chunks_number': int_('chunks'), 'scenario': 3}
        assume(values['chunks_number'] >= 1)
        if name == 'all':
            given = values
        elif name == 'none':
            given = {}
        else:
            given = {name: values[name]}
        return sum([[TAG[n][k]] + (list(given[n]) if n in ('probability', 'processing_time') else [given[n]]) for n in given], []), given

    def actual(x):
        tag_cli.cli_run.run_with(x[0])

    def expected(x):
        emit('config', *[x[1].get(n, TAG[n][2]) for n in TAG])


class tag_checks(Case):
    """an unknown scenario, or scenario 3 without chunks, is rejected"""
    params = [(0, 1), (4, 1), (3, 0), (3, -1)]

    def setup(scenario, chunks):
        stub_kernel()
        return ['-s', scenario, '-cn', chunks]

    def actual(x):
        try:
            tag_cli.cli_run.run_with(x)
            emit('accepted')
        except Exception:
            emit('rejected')

    def expected(x):
        emit('rejected')


KMH = 1 / 3.6
RFID = {'speed': ('--speed', '-s', 25), 'encoding': ('--encoding', '-m', '2'), 'tari': ('--tari', '-t', '12.5'),
        'tid_word_size': ('--tid-word-size', '-ws', 64), 'altitude': ('--altitude', '-a', 5.0),
        'reader_offset': ('--reader-offset', '-ro', 3.0), 'tag_offset': ('--tag-offset', '-to', 2.0),
        'power': ('--power', '-p', 29), 'num_tags': ('--num-tags', '-n', 40),
        'useadjust': ('--useadjust', '-ua', False), 'delta': ('--delta', '-d', 0.5)}


class Results:
    def average_rounds_per_tag(self):
        return 0

    def inventory_probability(self):
        return 0

    def read_tid_probability(self):
        return 0

    def average_changing_q(self):
        return 0


class rfid_options(Case):
    """each RFID option reaches the component it configures, in its unit; omitted ones have the documented default"""
    params = [(n, k) for n in RFID for k in (0, 1)] + [('all', 0), ('none', 0), ('verbose', 0), ('verbose', 1)]

    def seen(sim):
        m = sim['context']
        r = m.reader
        g = m.generators[0]
        emit('speed', g.velocity)
        emit('reader', r.tag_encoding, r.tari, r.max_power, r.read_tid_words_num)
        emit('adjust', r.use_query_adjust, r.adjust_delta)
        emit('place', listed(r.antenna.pos), listed(g.pos0))
        emit('tags', m.max_tags_num, g.max_tags_generated, g.tid_bitlen)
        m.statistics = Results()
        return None, None, None

    def nothing(kw, result, variadic):
        pass

    def setup(name, k):
        stub('pysim.sim.simulator', 'build_simulation', build)
        stub('pysim.sim.simulator', 'run_simulation', rfid_options.seen)
        stub('pysim.models.rfid.processing', 'result_processing', rfid_options.nothing)
        values = {n: num(n) for n in RFID}
        values['encoding'] = '8'
        values['tari'] = '6.25'
        values['useadjust'] = True
        values['tid_word_size'] = int_('words')
        values['num_tags'] = int_('num_tags')
        values['speed'] = int_('speed')
        values['power'] = int_('power')
        if name == 'all':
            given = values
        elif name in ('none', 'verbose'):
            given = {}
        else:
            given = {name: values[name]}
        options = sum([[RFID[n][k]] + ([] if n == 'useadjust' else [given[n]]) for n in given], [])
        stub('tabulate', 'tabulate', from_settings.quiet)
        if name == 'verbose':
            options.append(('--verbose', '-v')[k])
        return options, given

    def actual(x):
        rfid_cli.cli_run.run_with(x[0])

    def expected(x):
        v = {n: x[1].get(n, RFID[n][2]) for n in RFID}
        emit('speed', v['speed'] * KMH)
        emit('reader', std.TagEncoding.M8 if v['encoding'] == '8' else std.TagEncoding.M2,
             float(v['tari']) * 1e-6, v['power'], v['tid_word_size'])
        emit('adjust', v['useadjust'], v['delta'])
        emit('place', [v['reader_offset'], 0, v['altitude']], [v['tag_offset'], -10.0, 0.0])
        emit('tags', v['num_tags'], v['num_tags'], 16 * v['tid_word_size'])


class rfid_codes(Case):
    """every offered encoding and Tari is understood"""
    params = [(e, t) for e in ('1', '2', '4', '8') for t in ('6.25', '12.5', '18.75', '25')]

    def setup(e, t):
        stub('pysim.sim.simulator', 'build_simulation', build)
        stub('pysim.sim.simulator', 'run_simulation', rfid_options.seen)
        stub('pysim.models.rfid.processing', 'result_processing', rfid_options.nothing)
        return e, t

    def actual(x):
        rfid_cli.cli_run.run_with(['-m', x[0], '-t', x[1]])

    def expected(x):
        emit('speed', 25 * KMH)
        emit('reader', {'1': std.TagEncoding.FM0, '2': std.TagEncoding.M2, '4': std.TagEncoding.M4,
                        '8': std.TagEncoding.M8}[x[0]],
             {'6.25': 6.25, '12.5': 12.5, '18.75': 18.75, '25': 25}[x[1]] * 1e-6, 29, 64)
        emit('adjust', False, 0.5)
        emit('place', [3.0, 0, 5.0], [2.0, -10.0, 0.0])
        emit('tags', 40, 40, 16 * 64)


class encoding_names(Case):
    """encodings can be named by number or by their name in any case"""
    params = [('1', 'FM0'), ('fm0', 'FM0'), ('FM0', 'FM0'), ('2', 'M2'), ('m2', 'M2'), ('M2', 'M2'), ('4', 'M4'),
              ('m4', 'M4'), ('8', 'M8'), ('M8', 'M8')]

    def setup(s, n):
        return s, n

    def actual(x):
        return rfid_cli.parse_tag_encoding(x[0])

    def expected(x):
        return getattr(std.TagEncoding, x[1])


class encoding_unknown(Case):
    """an unknown encoding is rejected"""
    params = ['3', '16', 'M', '']

    def setup(s):
        return s

    def actual(x):
        return rfid_cli.parse_tag_encoding(x)

    def expected(x):
        raise ValueError()


class refused(Case):
    """values that are not offered are refused before anything runs"""
    params = [('-m', '3'), ('-m', 'FM0'), ('-m', ''), ('--encoding', '16'), ('-t', '6'), ('-t', '12.50'), ('-t', 'M4'), ('--tari', '0'),
              ('-n', 'many'), ('-s', 'fast'), ('-p', 'high'), ('-d', 'small'), ('-ws', 'x')]

    def setup(option, value):
        stub('pysim.models.rfid.configurator', 'create_model', refused.create)
        stub('pysim.sim.simulator', 'build_simulation', build)
        stub('pysim.sim.simulator', 'run_simulation', rfid_options.seen)
        stub('pysim.models.rfid.processing', 'result_processing', rfid_options.nothing)
        return option, value

    def create(settings=None, verbose=False, **kw):
        emit('model made')
        return record('model', reader=None, statistics=Results())

    def actual(x):
        try:
            rfid_cli.cli_run.run_with([x[0], x[1]])
            emit('accepted')
        except Exception:
            emit('refused')

    def expected(x):
        emit('refused')
