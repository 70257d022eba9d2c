"""Every log record carries the model time, the run id and the original message."""
# model: logging colorama
import logging

from pysim.sim.logger import ModelLogger
from pysim.sim.simulator import build_simulation, run_simulation
from spec.base import Case

METHODS = [('debug', 10), ('info', 20), ('warning', 30), ('error', 40), ('critical', 50), ('exception', 40)]


def demanded(name, level, msg, args, exc_info, now, run_id, who):
    """one record of the python logger"""
    if term('enabled', name, level, kind='bool'):
        emit('record', name, level, msg, args, exc_info, {'simTime': now, 'runId': run_id}, False, who)


def write(lg, method, *args, **kw):
    if method == 'debug':
        lg.debug(*args, **kw)
    elif method == 'info':
        lg.info(*args, **kw)
    elif method == 'warning':
        lg.warning(*args, **kw)
    elif method == 'error':
        lg.error(*args, **kw)
    elif method == 'critical':
        lg.critical(*args, **kw)
    elif method == 'exception':
        lg.exception(*args, **kw)


class plain(Case):
    """message without arguments"""
    params = METHODS

    def setup(method, level):
        return method, level, num('run'), text('msg')

    def actual(x):
        now = num('now')
        lg = ModelLogger('model', time_getter=lambda: now, run_id=x[2])
        write(lg, x[0], x[3])

    def expected(x):
        demanded('model', x[1], x[3], (), True if x[0] == 'exception' else None, num('now'), x[2], 'write')


class with_arguments(Case):
    """format arguments and keyword arguments of the caller are kept"""
    params = METHODS

    def setup(method, level):
        return method, level, num('run'), text('msg'), any_('a'), any_('b')

    def actual(x):
        now = num('now')
        lg = ModelLogger(model_name='other', time_getter=lambda: now, run_id=x[2])
        write(lg, x[0], x[3], x[4], x[5], exc_info=nonnull('info'))

    def expected(x):
        demanded('other', x[1], x[3], (x[4], x[5]), nonnull('info'), num('now'), x[2], 'write')


class any_level(Case):
    """log() writes at the given level"""
    def setup():
        return int_('level'), num('run'), text('msg'), any_('a')

    def actual(x):
        now = num('now')
        lg = ModelLogger('model', time_getter=lambda: now, run_id=x[1])
        lg.log(x[0], x[2], x[3])

    def expected(x):
        demanded('model', x[0], x[2], (x[3],), None, num('now'), x[1], 'any_level.actual')


class time_is_read_at_each_record(Case):
    """the clock is asked when the record is made, the latest getter counts"""
    def setup():
        return num('run'), num('later')

    def actual(x):
        box = [0]
        lg = ModelLogger('model', time_getter=lambda: box[0], run_id=x[0])
        lg.info('first')
        box[0] = x[1]
        lg.info('second')
        lg.set_time_getter(lambda: box[0] + 1)
        lg.info('third')

    def expected(x):
        demanded('model', 20, 'first', (), None, 0, x[0], 'time_is_read_at_each_record.actual')
        demanded('model', 20, 'second', (), None, x[1], x[0], 'time_is_read_at_each_record.actual')
        demanded('model', 20, 'third', (), None, x[1] + 1, x[0], 'time_is_read_at_each_record.actual')


class run_identifier(Case):
    """a given run identifier is used, zero included; a later one replaces it"""
    params = [0, 1, 972274]

    def setup(run):
        return run, num('next')

    def actual(x):
        lg = ModelLogger('model', time_getter=lambda: 1, run_id=x[0])
        lg.error('a')
        lg.set_run_id(x[1])
        lg.error('b')

    def expected(x):
        demanded('model', 40, 'a', (), None, 1, x[0], 'run_identifier.actual')
        demanded('model', 40, 'b', (), None, 1, x[1], 'run_identifier.actual')


class no_clock(Case):
    """without a clock the model time is zero"""
    def actual(x):
        lg = ModelLogger('model', run_id=5)
        lg.info('a')

    def expected(x):
        demanded('model', 20, 'a', (), None, 0, 5, 'no_clock.actual')


class in_a_run(Case):
    """records written in a run carry the clock of that run"""
    unroll = 4

    def setup():
        d = (num('d1'), num('d2'))
        assume(d[0] >= 0, d[1] >= d[0])
        return d

    def step(sim, k):
        sim.logger.set_run_id(7)
        sim.logger.warning('step %d', k)

    def init(sim, d):
        sim.logger.set_run_id(7)
        sim.logger.warning('init')
        sim.schedule(d[0], in_a_run.step, (1,))
        sim.schedule(d[1], in_a_run.step, (2,))

    def quiet(sim):
        pass

    def actual(x):
        logging.getLogger('other').ignored = (10, 20)
        logging.getLogger('model').ignored = (10, 20)
        other = build_simulation('other', in_a_run.quiet)
        run_simulation(build_simulation('model', in_a_run.init, init_args=(x,)))

    def expected(x):
        if term('enabled', 'model', 30, kind='bool'):
            emit('record', 'model', 30, 'init', (), None, {'simTime': 0, 'runId': 7}, False, 'in_a_run.init')
            emit('record', 'model', 30, 'step %d', (1,), None, {'simTime': x[0], 'runId': 7}, False, 'in_a_run.step')
            emit('record', 'model', 30, 'step %d', (2,), None, {'simTime': x[1], 'runId': 7}, False, 'in_a_run.step')
