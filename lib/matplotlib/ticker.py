"""Model of tick labels."""


def FuncFormatter(f):
    return f
