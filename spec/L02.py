"""The logger configuration is honoured and applied once."""
# model: logging colorama
import logging
import colorama

from pysim.sim.logger import ColoredFormatter, ModelLogger, ModelLoggerConfig
from pysim.sim.simulator import build_simulation, run_simulation
from spec.base import Case


def look(fm, record):
    return fm.format(record)


def describe(name):
    """what the python logger is made of now"""
    lg = logging.getLogger(name)
    out = [lg.level, lg.propagate, len(lg.handlers)]
    for h in lg.handlers:
        out.append((isinstance(h, logging.FileHandler), isinstance(h, logging.StreamHandler), h.level,
                    (h.baseFilename, h.mode) if isinstance(h, logging.FileHandler) else None,
                    isinstance(h.formatter, ColoredFormatter), h.formatter._fmt, h.formatter._style))
    return out


class handlers(Case):
    """exactly the handlers asked for, each with format and its own level"""
    params = [(c, cl, f, fl) for c in (None, 'plain', 'colored') for cl in (False, True)
              for f in (False, True) for fl in (False, True)]

    def setup(console, console_level, file, file_level):
        level = num('level')
        kw = {'fmt': text('fmt'), 'style': '%', 'level': level}
        # the default style and format are used as well
        if console is not None:
            kw['use_console'] = True
            kw['colored_console'] = console == 'colored'
        else:
            kw['use_console'] = False
        cl, fl = level, level
        if console_level:
            cl = num('console_level')
            assume(cl > 0)
            kw['console_level'] = cl
        if file:
            kw['file_name'] = text('file')
        if file_level:
            fl = num('file_level')
            assume(fl > 0)
            kw['file_level'] = fl
        return kw, console, cl, file, fl

    def actual(x):
        kw, console, cl, file, fl = x
        lg = ModelLogger('model', run_id=5)
        logging.getLogger('model').handlers = [logging.NullHandler()]
        lg.setup(ModelLoggerConfig(**kw))
        return describe('model')

    def expected(x):
        kw, console, cl, file, fl = x
        out = []
        if console is not None:
            out.append((False, True, cl, None, console == 'colored', kw['fmt'], '%'))
        if file:
            out.append((True, True, fl, (kw['file_name'], 'w'), False, kw['fmt'], '%'))
        return [kw['level'], False, len(out)] + out


class defaults(Case):
    """the default configuration is silent"""
    params = ['none', 'default']

    def actual(x):
        lg = ModelLogger('model', run_id=5)
        if x[0] == 'none':
            lg.setup()
        else:
            lg.setup(ModelLoggerConfig())
        return describe('model')

    def expected(x):
        return [50, False, 0]


class default_format(Case):
    """the default format and style reach both handlers"""
    def actual(x):
        lg = ModelLogger('model', run_id=5)
        c = ModelLoggerConfig(use_console=True, file_name='abc')
        lg.setup(c)
        return [(h.formatter._style, h.formatter._fmt == c.fmt, 'simTime' in h.formatter._fmt, 'runId' in h.formatter._fmt)
                for h in logging.getLogger('model').handlers]

    def expected(x):
        return [('{', True, True, True), ('{', True, True, True)]


class custom_colors(Case):
    """configured colours are used for their levels, default ones elsewhere"""
    params = [10, 20, 30, 40, 50]

    def setup(level):
        return level, text('colour'), text('fmt'), either('style', '%', '{', '$')

    def actual(x):
        lg = ModelLogger('model', run_id=5)
        lg.setup(ModelLoggerConfig(use_console=True, console_colors={x[0]: x[1]}, fmt=x[2], style=x[3]))
        fm = logging.getLogger('model').handlers[0].formatter
        plain = ColoredFormatter(x[2], style=x[3])
        own = fm.format(record('r', levelno=x[0]))
        others = [fm.format(record('r', levelno=k)) == plain.format(record('r', levelno=k))
                  for k in (10, 20, 30, 40, 50) if k != x[0]]
        return own, others

    def expected(x):
        return (logging.Formatter(x[1] + x[2] + colorama.Style.RESET_ALL, style=x[3]).format(record('r', levelno=x[0])),
                [True, True, True, True])


class default_colors(Case):
    """every standard level has the format between its colour and the reset"""
    params = [10, 20, 30, 40, 50]

    def setup(level):
        return level, text('fmt')

    def actual(x):
        return ColoredFormatter(x[1], style='{').format(record('r', levelno=x[0]))

    def expected(x):
        r = record('r', levelno=x[0])
        return logging.Formatter(ColoredFormatter.DEFAULT_COLORS[x[0]] + x[1] + colorama.Style.RESET_ALL,
                                 style='{').format(r)


class other_levels(Case):
    """records of other levels are formatted without colour"""
    def setup():
        return text('fmt')

    def actual(x):
        return ColoredFormatter(x, style='{').format(record('r', levelno=25))

    def expected(x):
        return logging.Formatter(x, style='{').format(record('r', levelno=25))


class second_setup(Case):
    """a second setup changes nothing unless it is forced"""
    params = [False, True, 'default']

    def actual(x):
        lg = ModelLogger('model', run_id=5)
        lg.setup(ModelLoggerConfig(use_console=True, level=10, colored_console=False))
        first = logging.getLogger('model').handlers[0]
        if x[0] == 'default':
            lg.setup(force_run=True)
        elif x[0]:
            lg.setup(ModelLoggerConfig(file_name='abc', level=20), force_run=True)
        else:
            lg.setup(ModelLoggerConfig(file_name='abc', level=20))
            lg.setup()
        return [(k[0], k[2], k[3]) for k in describe('model')[3:]], logging.getLogger('model').level, \
            first in logging.getLogger('model').handlers

    def expected(x):
        if x[0] == 'default':
            return [], 50, False
        if x[0]:
            return [(True, 20, ('abc', 'w'))], 20, False
        return [(False, 10, None)], 10, True


class forced_first(Case):
    """a forced first setup counts as the first one"""
    def actual(x):
        lg = ModelLogger('model', run_id=5)
        lg.setup(ModelLoggerConfig(use_console=True, level=10), force_run=True)
        lg.setup()
        return logging.getLogger('model').level, len(logging.getLogger('model').handlers)

    def expected(x):
        return 10, 1


class two_models(Case):
    """loggers of different models are configured apart"""
    def actual(x):
        a, b = ModelLogger('a', run_id=1), ModelLogger('b', run_id=2)
        a.setup(ModelLoggerConfig(use_console=True, level=10))
        b.setup(ModelLoggerConfig(file_name='abc', level=20))
        return logging.getLogger('a').level, logging.getLogger('b').level, \
            [isinstance(h, logging.FileHandler) for h in logging.getLogger('a').handlers], \
            [isinstance(h, logging.FileHandler) for h in logging.getLogger('b').handlers]

    def expected(x):
        return 10, 20, [False], [True]


class run_setup(Case):
    """the configuration given to a simulation is the one its run uses; without one it is silent"""
    params = [True, False]

    def actual(x):
        lg = logging.getLogger('abc')
        lg.ignored = (10, 20, 30, 40, 50)
        seen = []

        def init(sim):
            seen.append(describe('abc'))
        c = ModelLoggerConfig(use_console=True, colored_console=False, level=20, fmt='%(message)s', style='%')
        run_simulation(build_simulation('abc', init, logger_config=c if x[0] else None, debug=bool(x[0])))
        return seen

    def expected(x):
        if x[0]:
            return [[20, False, 1, (False, True, 20, None, False, '%(message)s', '%')]]
        return [[50, False, 0]]


class file_name(Case):
    """the run identifier and the separator are part of the name when asked for"""
    params = [('model.log', 'model', '.log'), ('model', 'model', ''), ('model.LOG', 'model', '.LOG'),
              ('model.txt', 'model.txt', ''), ('a.b.log', 'a.b', '.log'), ('a.log.b', 'a.log.b', ''),
              ('.log', '', '.log'), ('catalog', 'catalog', ''), (' model.log ', 'model', '.log'), ('a.logs', 'a.logs', '')]

    def setup(name, stem, ext):
        return name, stem, ext, text('sep'), num('run')

    def actual(x):
        return ModelLogger.build_file_name(x[0], x[4], x[3]), ModelLogger.build_file_name(x[0], x[4])

    def expected(x):
        return x[1] + x[3] + str(x[4]) + x[2], x[1] + '_' + str(x[4]) + x[2]


class configured_file_name(Case):
    """setup builds the name with the identifier of the run, or leaves it as given"""
    params = [(False, '_'), (False, '--'), (True, '--')]

    def actual(x):
        plain, sep = x
        lg = ModelLogger('model')
        lg.set_run_id(77)
        lg.setup(ModelLoggerConfig(file_name='model.log', file_name_no_run_id=plain, file_name_sep=sep))
        return [h.baseFilename for h in logging.getLogger('model').handlers]

    def expected(x):
        return ['model.log'] if x[0] else ['model%s77.log' % x[1]]
