"""Listed models are exactly the runnable models."""
# model: click pkgutil importlib
import click
import importlib

from pysim import main
from spec.base import Case


class runnable(Case):
    """submodules with a command, and only they, are subcommands of run under their own names"""
    def actual(x):
        c = main.run.commands
        return (sorted(c.keys()), c['alpha'] is importlib.alpha, c['beta'] is importlib.beta, c['gamma'] is importlib.gamma,
                c['delta_x2'] is importlib.delta_x2, c['Eps'] is importlib.Eps)

    def expected(x):
        return ['Eps', 'alpha', 'beta', 'delta_x2', 'gamma'], True, True, True, True, True


class listed(Case):
    """the list command prints the names of the runnable models, in order of discovery"""
    io = True

    def actual(x):
        main.cli.commands['list'].callback()

    def expected(x):
        for name in ('alpha', 'beta', 'delta_x2', 'gamma', 'Eps'):
            print(f'* {name}')


class command_tree(Case):
    """the root command offers list and run"""
    def actual(x):
        return sorted(main.cli.commands.keys()), main.cli.commands['run'] is main.run

    def expected(x):
        return ['list', 'run'], True


class reported(Case):
    """every submodule that cannot be run is reported once"""
    def actual(x):
        return load_effects('pysim.main', 'print', 'ext', 'log') >= 3

    def expected(x):
        return True
