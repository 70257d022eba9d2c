"""Figures of the experiments: in which files they are saved, and how their axes are numbered."""
# model: matplotlib matplotlib.pyplot matplotlib.ticker platform
import matplotlib
import matplotlib.pyplot as plt
import platform
from pysim.experiments.utility import graphs_style
from spec.base import Case


class Axis:
    def __init__(self):
        self.formatter = None

    def set_major_formatter(self, formatter):
        self.formatter = formatter


class Plot:
    def __init__(self):
        self.xaxis = Axis()
        self.yaxis = Axis()


class saved(Case):
    """one file for each extension, in the directory, under the stripped name; without a name nothing is saved"""
    params = [(n, e, d) for n in ('fig', '  fig 2\n', 'a.b', '', '  ', None) for e in (None, (), ('svg',), ['eps', 'pdf', 'png'])
              for d in (None, 'out')]

    def setup(name, exts, directory):
        return name, exts, directory

    def actual(x):
        name, exts, directory = x
        kw = {}
        if exts is not None:
            kw['exts'] = exts
        if directory is not None:
            kw['directory'] = directory
        graphs_style.savefig(name, **kw)

    def expected(x):
        name, exts, directory = x
        if name is None or name.strip() == '':
            return
        for e in ('pdf', 'png') if exts is None else exts:
            plt.savefig(('images' if directory is None else directory) + '/' + name.strip() + '.' + e, bbox_inches='tight')


class formatted(Case):
    """only the axes asked for, of all plots given alone or in groups, on the platforms named"""
    params = [(x, y, p) for x in (None, False, True) for y in (None, False, True)
              for p in (None, (), ('Linux',), ('Windows', 'Darwin'), ['Darwin', 'Linux'])]

    def setup(use_x, use_y, platforms):
        return use_x, use_y, platforms

    def actual(x):
        use_x, use_y, platforms = x
        kw = {}
        if use_x is not None:
            kw['use_x'] = use_x
        if use_y is not None:
            kw['use_y'] = use_y
        if platforms is not None:
            kw['platforms'] = platforms
        plots = [Plot() for k in range(4)]
        graphs_style.set_axes_formatter(plots[0], (plots[1], plots[2]), [plots[3]], **kw)
        emit('set', [(p.xaxis.formatter is not None, p.yaxis.formatter is not None) for p in plots])

    def expected(x):
        use_x, use_y, platforms = x
        here = platform.system()
        concerned = True
        if platforms is None:
            concerned = here == 'Linux'
        elif len(platforms) > 0:
            concerned = here in platforms
        emit('set', [((True if use_x else False) and concerned, (True if use_y else False) and concerned) for k in range(4)])


class numbers(Case):
    """whole numbers are written without separators, others as usual in the locale, anything else as its text"""
    params = [(k, axis) for k in ('int', 'float', 'text') for axis in 'xy']

    def setup(kind, axis):
        value = int_('n') if kind == 'int' else num('value') if kind == 'float' else text('label')
        return value, kind, axis

    def actual(x):
        value, kind, axis = x
        p = Plot()
        graphs_style.set_axes_formatter(p, use_x=True, use_y=True, platforms=())
        f = p.xaxis.formatter if axis == 'x' else p.yaxis.formatter
        emit('label', f(value, int_('tick')))

    def expected(x):
        value, kind, axis = x
        if kind == 'int':
            emit('label', f'{value:g}')
        elif kind == 'float':
            emit('label', f'{value:g}' if int(value) == value else f'{value:n}')
        else:
            emit('label', str(value))


