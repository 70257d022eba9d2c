"""Model of importing the command interfaces of the submodules."""
import click


def gamma_run():
    pass


alpha = click.Command('any')
beta = click.Group('cli-run')
gamma = click.Command('start')
delta_x2 = click.Command('delta-x2')
Eps = click.Group('eps')


class Empty:
    pass


def import_module(name, package=None):
    full = (package + name) if name.startswith('.') else name
    parts = full.split('.')
    if parts[:2] != ['pysim', 'models']:
        raise ModuleNotFoundError('no module')
    sub = parts[2]
    ns = Empty()
    if parts[3:] != ['cli']:
        return ns
    if sub == 'broken':
        raise ModuleNotFoundError('no module')
    if sub == 'alpha':
        ns.cli_run = alpha
    elif sub == 'beta':
        ns.cli_run = beta
    elif sub == 'gamma':
        ns.cli_run = gamma
    elif sub == 'delta_x2':
        ns.cli_run = delta_x2
    elif sub == 'Eps':
        ns.cli_run = Eps
    elif sub == 'wrong':
        ns.cli_run = gamma_run
    return ns
