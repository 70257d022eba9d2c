def tabulate(tabular_data, headers=(), tablefmt='simple', **kw):
    emit('table', [tuple(r) for r in tabular_data], tuple(headers))
    return term('table text')
