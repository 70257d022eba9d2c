"""Model of plotting: what is drawn against what."""


class Axes:
    def __init__(self):
        self.x = self.y = None
        self.curves = []

    def plot(self, *args, **kw):
        emit('drawn', list(args[0]), list(args[1]))
        self.curves.append(kw.get('label'))

    def legend(self, *args, **kw):
        pass

    def set_xlabel(self, xlabel, **kw):
        self.x = xlabel

    def set_ylabel(self, ylabel, **kw):
        self.y = ylabel

    def set_title(self, *args, **kw):
        pass

    def tick_params(self, *args, **kw):
        pass

    def grid(self, *args, **kw):
        pass

    def set(self, xlabel=None, ylabel=None, **kw):
        if xlabel is not None:
            self.x = xlabel
        if ylabel is not None:
            self.y = ylabel


class Figure:
    def __init__(self, axes):
        self.axes = axes

    def savefig(self, *args, **kw):
        emit('saved', self.axes.x, self.axes.y, self.axes.curves)


def subplots(*args, **kw):
    axes = Axes()
    return Figure(axes), axes


def close(*args):
    pass


def show(*args):
    pass


def savefig(path, **kw):
    emit('figure', path)


def FuncFormatter(f):
    return f


def gcf():
    return _current()


class _current:
    def savefig(self, path, **kw):
        emit('figure', path)
