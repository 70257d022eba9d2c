"""A sweep runs each distinct value once, ascending, and labels results right."""
# model: click json multiprocessing concurrent.futures tabulate matplotlib matplotlib.pyplot
import json
from tabulate import tabulate
from pysim.models.pingpong import cli as ping_cli
from pysim.models.pingpong.objects import Config as PingConfig, Result as PingResult
from pysim.models.pingpong import processing as ping_processing
from pysim.models.rfid import cli as rfid_cli
from pysim.models.rfid import configurator
from pysim.models.rfid import processing as rfid_processing
from pysim.models.tag_time import cli as tag_cli
from pysim.models.tag_time import processing as tag_processing
from pysim.models.tag_time.objects import Config as TagConfig
from pysim.sim.simulator import ExecutionStats, ExitReason
from spec.base import Case

PING_OPTIONS = ('interval', 'channel_delay', 'service_delay', 'loss_prob', 'max_pings')
RFID_OPTIONS = ('speed', 'tid_word_size', 'altitude', 'reader_offset', 'tag_offset', 'power')
RFID_SINGLE = ('encoding', 'tari', 'num_tags', 'useadjust', 'delta')


SHORT = {'interval': '-i', 'channel_delay': '-ch', 'service_delay': '-s', 'loss_prob': '-l', 'max_pings': '-mp'}
TAG_SHORT = {'probability': '-p', 'processing_time': '-t', 'max_transmisions': '-m', 'chunks_number': '-cn', 'scenario': '-s'}
RFID_SHORT = {'speed': '-s', 'tid_word_size': '-ws', 'altitude': '-a', 'reader_offset': '-ro', 'tag_offset': '-to', 'power': '-p',
              'encoding': '-m', 'tari': '-t', 'num_tags': '-n', 'useadjust': '-ua', 'delta': '-d', 'verbose': '-v'}


def words(kw, names):
    """the command line of these options"""
    out = []
    for n in names:
        if isinstance(kw[n], tuple):
            for v in kw[n]:
                out = out + [names[n]] + (list(v) if isinstance(v, tuple) else [v])
        elif n in ('useadjust', 'verbose'):
            if kw[n]:
                out = out + [names[n]]
        else:
            out = out + [names[n], kw[n]]
    return out


# -- ping-pong --------------------------------------------------------------

def ping_build(model_name, init, init_args=(), fin=None, context=None, max_real_time=None,
               max_sim_time=None, max_num_events=None, logger_config=None, debug=False):
    return init_args


def ping_run(sim):
    config = sim[0]
    if not isinstance(config, PingConfig):
        emit('run without a configuration')
        return None, None, None
    emit('run', config.interval, config.channel_delay, config.service_delay, config.loss_prob, config.max_pings)
    result = PingResult(avg_interval=term('avg_interval', *[getattr(config, n) for n in PING_OPTIONS], kind='num'),
                        avg_delay=term('avg_delay', *[getattr(config, n) for n in PING_OPTIONS], kind='num'),
                        miss_rate=term('miss_rate', *[getattr(config, n) for n in PING_OPTIONS], kind='num'))
    return None, None, result


def ping_demanded(values):
    """the runs and tables of a sweep over ascending distinct values"""
    for v in values:
        emit('run', *[v[n] for n in PING_OPTIONS])


def ping_stub():
    stub('pysim.sim.simulator', 'build_simulation', ping_build)
    stub('pysim.sim.simulator', 'run_simulation', ping_run)


class ping_sweep(Case):
    """ping-pong: one run per distinct value, ascending, tables in the same order"""
    params = [(n, k) for n in PING_OPTIONS for k in (0, 1)]

    def setup(which, k):
        ping_stub()
        kw = {n: (num(n),) for n in PING_OPTIONS}
        if k == 0:
            kw[which] = (0.5, 0.25, 0.5, 3, 0.125, 3)
            order = (0.125, 0.25, 0.5, 3)
        else:
            kw[which] = (10, 9, 8)
            order = (8, 9, 10)
        return kw, which, order

    def actual(x):
        ping_cli.cli_run.run_with(words(x[0], SHORT))

    def expected(x):
        kw, which, order = x
        values = []
        for v in order:
            one = {n: kw[n][0] for n in PING_OPTIONS}
            one[which] = v
            values.append(one)
        ping_demanded(values)
        emit('table', [(n, order if n == which else kw[n][0]) for n in PING_OPTIONS], ())
        emit('table', [(r, [term(r, *[v[n] for n in PING_OPTIONS], kind='num') for v in values])
                       for r in ('avg_interval', 'avg_delay', 'miss_rate')], ())


class ping_single(Case):
    """ping-pong: single values lead to a single run"""
    io = True

    def setup():
        ping_stub()
        return {n: (num(n),) for n in PING_OPTIONS}

    def seen(kw, result, variadic):
        emit('report', {n: kw[n] for n in PING_OPTIONS}, result.avg_interval, result.avg_delay, result.miss_rate)

    def actual(x):
        stub('pysim.models.pingpong.processing', 'result_processing', ping_single.seen)
        ping_cli.cli_run.run_with(words(x, SHORT))

    def expected(x):
        one = {n: x[n][0] for n in PING_OPTIONS}
        print(f'Running {ping_cli.MODEL_NAME} model')
        ping_demanded([one])
        emit('report', one, *[term(r, *[one[n] for n in PING_OPTIONS], kind='num')
                              for r in ('avg_interval', 'avg_delay', 'miss_rate')])


class ping_two_sweeps(Case):
    """ping-pong: several values for two parameters are rejected before anything runs"""
    params = [(a, b) for a in PING_OPTIONS for b in PING_OPTIONS if a < b]

    def setup(a, b):
        ping_stub()
        kw = {n: (num(n),) for n in PING_OPTIONS}
        kw[a] = (1, 2)
        kw[b] = (3, 4, 3)
        return kw

    def actual(x):
        try:
            ping_cli.cli_run.run_with(words(x, SHORT))
            emit('accepted')
        except Exception:
            emit('rejected')

    def expected(x):
        emit('rejected')


# -- RFID -------------------------------------------------------------------

def rfid_create(settings=None, verbose=False, **kw):
    emit('model', verbose, kw)
    return record('model', statistics=FakeStatistics(kw))


class FakeStatistics:
    def __init__(self, kw):
        self.key = tuple([kw[k] for k in ('speed', 'tid_word_size', 'altitude', 'reader_offset', 'tag_offset', 'power')])

    def average_rounds_per_tag(self):
        return term('rounds', *self.key, kind='num')

    def inventory_probability(self):
        return term('inventory', *self.key, kind='num')

    def read_tid_probability(self):
        return term('read', *self.key, kind='num')

    def average_changing_q(self):
        return 0


def rfid_run(model, logger_config, max_real_time=None, max_sim_time=None, max_num_events=None):
    emit('run', model.statistics.key)


def rfid_stub():
    stub('pysim.models.rfid.configurator', 'create_model', rfid_create)
    stub('pysim.models.rfid.configurator', 'run_model', rfid_run)


def rfid_options():
    kw = {n: (num(n),) for n in RFID_OPTIONS}
    kw['encoding'] = '4'
    kw['tari'] = '12.5'
    kw['num_tags'] = int_('num_tags')
    kw['verbose'] = False
    kw['useadjust'] = True
    kw['delta'] = num('delta')
    return kw


def rfid_demanded(values):
    for v in values:
        key = (v['speed'] * configurator.KMPH_TO_MPS_MUL, v['tid_word_size'], v['altitude'], v['reader_offset'],
               v['tag_offset'], v['power'])
        v['key'] = key
        emit('model', False, {
            'speed': key[0], 'encoding': rfid_cli.std.TagEncoding.M4, 'tari': 12.5 * 1e-6,
            'tid_word_size': v['tid_word_size'], 'reader_offset': v['reader_offset'],
            'tag_offset': v['tag_offset'], 'altitude': v['altitude'], 'power': v['power'],
            'num_tags': v['num_tags'], 'useadjust': v['useadjust'], 'delta': v['delta']})
        emit('run', key)


class rfid_sweep(Case):
    """RFID: one run per distinct value, ascending, results in the rows of their values"""
    params = [n for n in RFID_OPTIONS]

    def plot(initial_data, results, variadic, save_fig=True):
        emit('plot', initial_data[variadic], len(results))

    def setup(which):
        rfid_stub()
        stub('pysim.models.rfid.processing', 'plot_results', rfid_sweep.plot)
        kw = rfid_options()
        kw[which] = (20, 5, 20, 11.5, 100)
        return kw, which

    def actual(x):
        rfid_cli.cli_run.run_with(words(x[0], RFID_SHORT))

    def expected(x):
        kw, which = x
        order = [5, 11.5, 20, 100]
        values = []
        for v in order:
            one = {n: kw[n][0] if n in RFID_OPTIONS else kw[n] for n in kw}
            one[which] = v
            values.append(one)
        rfid_demanded(values)
        names = ['speed', 'tid_word_size', 'altitude', 'reader_offset', 'tag_offset', 'power', 'encoding', 'tari', 'num_tags']
        names.remove(which)
        emit('table', [(n, values[0][n]) for n in names], ())
        emit('table', [(v[which], term('read', *v['key'], kind='num'), term('inventory', *v['key'], kind='num'),
                        term('rounds', *v['key'], kind='num')) for v in values],
             (which, 'read_tid_prob', 'inventory_prob', 'rounds_per_tag'))
        emit('plot', order, 4)


class rfid_single(Case):
    """RFID: single values lead to a single run"""
    def setup():
        rfid_stub()
        return rfid_options()

    def actual(x):
        rfid_cli.cli_run.run_with(words(x, RFID_SHORT))

    def expected(x):
        one = {n: x[n][0] if n in RFID_OPTIONS else x[n] for n in x}
        rfid_demanded([one])
        emit('table', [('rounds_per_tag', term('rounds', *one['key'], kind='num')),
                       ('inventory_prob', term('inventory', *one['key'], kind='num')),
                       ('read_tid_prob', term('read', *one['key'], kind='num'))], ())


class rfid_two_sweeps(Case):
    """RFID: several values for two parameters are rejected before anything runs"""
    params = [(a, b) for a in RFID_OPTIONS for b in RFID_OPTIONS if a < b]

    def setup(a, b):
        rfid_stub()
        kw = rfid_options()
        kw[a] = (1, 2)
        kw[b] = (3, 4, 3)
        return kw

    def actual(x):
        try:
            rfid_cli.cli_run.run_with(words(x, RFID_SHORT))
            emit('accepted')
        except Exception:
            emit('rejected')

    def expected(x):
        emit('rejected')


class rfid_plot(Case):
    """RFID: the reading probabilities are drawn against the values that produced them"""
    params = [n for n in RFID_OPTIONS]

    def setup(which):
        return which, [num('v1'), num('v2')], [num('p1'), num('p2')]

    def actual(x):
        which, values, probs = x
        results = [({'read_tid_prob': p, 'inventory_prob': 0, 'rounds_per_tag': 0}, 1) for p in probs]
        rfid_processing.plot_results({which: values, 'encoding': '2', 'tari': '12.5'}, results, which, True)

    def expected(x):
        emit('drawn', x[1], x[2])
        unit = {'speed': 'km/h', 'tid_word_size': 'words', 'power': 'dBm'}.get(x[0], 'm')
        emit('saved', f'{x[0]}, {unit}', 'Probability of reading', ['2, Tari = 12.5 µs'])


class rfid_times(Case):
    """RFID: the wall-clock time of each run is measured in seconds"""
    params = [1, 2, 3]

    def setup(n):
        clock()
        stub('pysim.models.rfid.configurator', 'create_model', rfid_times.create)
        stub('pysim.models.rfid.configurator', 'run_model', rfid_times.run)
        return n, rfid_options()

    def create(settings=None, verbose=False, **kw):
        return record('model', statistics=FakeStatistics(kw), power=kw['power'])

    def run(model, logger_config, max_real_time=None, max_sim_time=None, max_num_events=None):
        advance(num('t%d' % model.power))

    def actual(x):
        n, kw = x
        one = {k: kw[k][0] if k in RFID_OPTIONS else kw[k] for k in kw}
        results = []
        for k in range(n):
            one['power'] = k + 1
            results.append(rfid_cli.prepare_simulation(dict(one)))
        emit('times', [r[1] for r in results])

    def expected(x):
        n, kw = x
        emit('times', [num('t%d' % (k + 1)) for k in range(n)])


class rfid_reports(Case):
    """RFID: a single run reports its time, a sweep the mean time of its runs"""
    params = [1, 2, 3, (3, 'equal')]
    io = True

    def setup(n, times=None):
        stub('pysim.models.rfid.processing', 'plot_results', rfid_reports.plot)
        kw = rfid_options()
        kw = {k: kw[k][0] if k in RFID_OPTIONS else kw[k] for k in kw}
        results = [({'rounds_per_tag': num('a%d' % k), 'inventory_prob': num('b%d' % k), 'read_tid_prob': num('c%d' % k)},
                    num('t%d' % (min(k, 1) if times == 'equal' else k))) for k in range(n)]
        if n > 1:
            kw['speed'] = [3 * k for k in range(n)]
        return n, kw, results

    def plot(initial_data, results, variadic, save_fig=True):
        emit('plot', initial_data, results, variadic)

    def actual(x):
        n, kw, results = x
        if n == 1:
            rfid_processing.result_processing(kw, results[0], None)
        else:
            rfid_processing.result_processing(kw, results, 'speed')

    def expected(x):
        n, kw, results = x
        if n == 1:
            print(tabulate([(k, results[0][0][k]) for k in ('rounds_per_tag', 'inventory_prob', 'read_tid_prob')]))
            print(f"Время выполнения симуляции: {num('t0')} с.")
        else:
            names = ['tid_word_size', 'altitude', 'reader_offset', 'tag_offset', 'power', 'encoding', 'tari', 'num_tags']
            print('\n# STATIC PARAMETERS:\n')
            print(tabulate([(k, kw[k]) for k in names]))
            print('\n# RESULTS:\n')
            print(tabulate([(3 * k, num('c%d' % k), num('b%d' % k), num('a%d' % k)) for k in range(n)],
                           headers=['speed', 'read_tid_prob', 'inventory_prob', 'rounds_per_tag']))
            print(f"Среднее время одной симуляции = {sum([r[1] for r in results]) / n} с")
            emit('plot', kw, results, 'speed')


# -- tag-time ---------------------------------------------------------------

def tag_build(model_name, init, init_args=(), fin=None, context=None, max_real_time=None,
              max_sim_time=None, max_num_events=None, logger_config=None, debug=False):
    return init_args


def tag_run(sim):
    config = sim[0]
    if not isinstance(config, TagConfig):
        emit('run without a configuration')
        return None, None, None
    emit('run', config.probability, config.processing_time, config.max_transmisions, config.chunks_number, config.scenario)
    return term('stats', config.probability, config.processing_time), None, None


def tag_stub():
    stub('pysim.sim.simulator', 'build_simulation', tag_build)
    stub('pysim.sim.simulator', 'run_simulation', tag_run)


def tag_options(n, k, scenario):
    return {
        'probability': tuple([tuple([num('p%d%d' % (i, j)) for j in range(4)]) for i in range(n)]),
        'processing_time': tuple([tuple([num('t%d%d' % (i, j)) for j in range(4)]) for i in range(k)]),
        'max_transmisions': int_('max_transmisions'), 'chunks_number': int_('chunks_number'), 'scenario': scenario}


class tag_sweep(Case):
    """tag-time: the i-th run uses the i-th probabilities and the i-th times"""
    params = [(n, s) for n in (1, 2, 3) for s in (1, 2, 3)]

    def setup(n, s):
        tag_stub()
        kw = tag_options(n, n, s)
        assume(kw['chunks_number'] >= 1)
        return n, kw

    def actual(x):
        n, kw = x
        return tag_cli.cli_run.run_with(words(kw, TAG_SHORT))

    def expected(x):
        n, kw = x
        out = []
        for p, t in zip(kw['probability'], kw['processing_time']):
            emit('run', p, t, kw['max_transmisions'], kw['chunks_number'], kw['scenario'])
            out.append(term('stats', p, t))
        return out if n > 1 else out[0]


class tag_mismatch(Case):
    """tag-time: different numbers of probabilities and times are rejected"""
    params = [(1, 2), (2, 1), (2, 3), (3, 1)]

    def setup(n, k):
        tag_stub()
        kw = tag_options(n, k, 1)
        assume(kw['chunks_number'] >= 1)
        return kw

    def actual(x):
        try:
            tag_cli.cli_run.run_with(words(x, TAG_SHORT))
            emit('accepted')
        except Exception:
            emit('rejected')

    def expected(x):
        emit('rejected')


# -- saved files ------------------------------------------------------------

class Page:
    """a file open for writing"""
    def __init__(self, name, mode='r', **kw):
        self.mode = mode
        self.text = ''

    def write(self, text):
        self.text = self.text + text

    def writelines(self, lines):
        for t in lines:
            self.text = self.text + t

    def close(self):
        emit('file', self.mode, self.text)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def file_demanded(data, res):
    emit('file', 'w', 'Входные параметры: ' + json.dumps(data) + '\n' + 'Результаты моделирования: ' + json.dumps(res))


class ping_saved(Case):
    """ping-pong: on demand the inputs and the results are saved, otherwise nothing is"""
    params = [(many, save) for many in (False, True) for save in (False, True, None)]

    def setup(many, save):
        stub('builtins', 'open', Page)
        data = {n: num(n) for n in PING_OPTIONS}
        one = PingResult(avg_interval=num('ai'), avg_delay=num('ad'), miss_rate=num('mr'))
        two = PingResult(avg_interval=num('ai2'), avg_delay=num('ad2'), miss_rate=num('mr2'))
        return data, [one, two] if many else one, save, many

    def actual(x):
        data, results, save, many = x
        if save is None:
            ping_processing.result_processing(data, results, 'interval' if many else None)
        else:
            ping_processing.result_processing(data, results, 'interval' if many else None, save)

    def expected(x):
        data, results, save, many = x
        names = ('avg_interval', 'avg_delay', 'miss_rate')
        if many:
            res = {'avg_interval': [num('ai'), num('ai2')], 'avg_delay': [num('ad'), num('ad2')], 'miss_rate': [num('mr'), num('mr2')]}
        else:
            res = {'avg_interval': num('ai'), 'avg_delay': num('ad'), 'miss_rate': num('mr')}
        if save:
            file_demanded(data, res)
        if many:
            emit('table', [(n, data[n]) for n in PING_OPTIONS], ())
            emit('table', [(n, res[n]) for n in names], ())


class rfid_saved(Case):
    """RFID: on demand the inputs and the results of a sweep are saved, otherwise nothing is"""
    params = [False, True, None]

    def setup(save):
        stub('builtins', 'open', Page)
        stub('pysim.models.rfid.processing', 'plot_results', rfid_sweep.plot)
        data = {n: num(n) for n in RFID_OPTIONS}
        data['encoding'] = '4'
        data['tari'] = '12.5'
        data['num_tags'] = int_('num_tags')
        data['power'] = (7, 6)
        rows = [({'rounds_per_tag': num('ro%d' % i), 'inventory_prob': num('in%d' % i), 'read_tid_prob': num('re%d' % i)}, num('time%d' % i))
                for i in range(2)]
        return data, rows, save

    def actual(x):
        data, rows, save = x
        if save is None:
            rfid_processing.result_processing(dict(data), rows, 'power')
        else:
            rfid_processing.result_processing(dict(data), rows, 'power', save)

    def expected(x):
        data, rows, save = x
        data = dict(data)
        data['power'] = [6, 7]
        emit('table', [(n, data[n]) for n in ('speed', 'tid_word_size', 'altitude', 'reader_offset', 'tag_offset', 'encoding', 'tari', 'num_tags')], ())
        emit('table', [(6 + i, num('re%d' % i), num('in%d' % i), num('ro%d' % i)) for i in range(2)],
             ('power', 'read_tid_prob', 'inventory_prob', 'rounds_per_tag'))
        if save:
            file_demanded(data, {'read_tid_prob': [num('re0'), num('re1')], 'inventory_prob': [num('in0'), num('in1')],
                                 'rounds_per_tag': [num('ro0'), num('ro1')]})
        emit('plot', [6, 7], 2)


class tag_report(Case):
    """tag-time: the mean time to absorption is the simulated time per transmission"""
    params = [(many, save, draw) for many in (False, True) for save in (False, True) for draw in (False, True)]
    io = True

    def setup(many, save, draw):
        stub('builtins', 'open', Page)
        kw = tag_options(2 if many else 1, 2 if many else 1, 1)
        if not many:
            kw['probability'] = kw['probability'][0]
            kw['processing_time'] = kw['processing_time'][0]
        assume(kw['max_transmisions'] > 0)
        one = ExecutionStats(int_('n1'), num('t1'), num('r1'), ExitReason.NO_MORE_EVENTS, '', text('l1'))
        two = ExecutionStats(int_('n2'), num('t2'), num('r2'), ExitReason.NO_MORE_EVENTS, '', text('l2'))
        return kw, [one, two] if many else one, many, save, draw

    def actual(x):
        kw, result, many, save, draw = x
        tag_processing.result_processing(kw, result, save_res=save, plot_res=draw)

    def expected(x):
        kw, result, many, save, draw = x
        n = kw['max_transmisions']
        if many:
            res = [num('t1') / n, num('t2') / n]
            print('Среднее время до поглощения: ', res)
            if save:
                file_demanded(kw, res)
            if draw:
                emit('drawn', [0, 1], res)
                emit('saved', None, None, [None])
        else:
            print('Суммарное время: ', num('t1'))
            print('Среднее время до поглощения: ', num('t1') / n)
