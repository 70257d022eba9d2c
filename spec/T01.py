"""Tag-time: transitions follow the chosen scenario."""
import random
from pysim.models.tag_time.handlers import initialize
from pysim.models.tag_time.model import Packet
from spec.base import Case
from spec.ping import Watch
from spec.tagchain import config, demanded


def transmissions(model):
    return model.num_transmissions


def walk(c, waits):
    w = Watch(transmissions)
    w.timed = False
    initialize(w, c)
    w.run(waits)


def told(c, waits):
    seen, stopped, done = demanded(c, waits)
    for at, n in seen:
        emit('wait', n)
    emit('end', stopped, done if stopped else None)


class chain(Case):
    """any outcome of any attempt leads to the state of the scenario"""
    params = [(1, 1, None, 7), (1, 1, 1, 6), (1, 5, 1, 6), (2, 1, None, 7), (2, 4, 1, 6), (3, 1, None, 6), (3, 2, None, 7)]
    deep = [(1, 1, None, 9), (2, 1, None, 9), (3, 2, None, 9)]
    unroll = 80

    def setup(scenario, chunks, limit, waits):
        return config(scenario, chunks, limit), waits

    def actual(x):
        walk(*x)

    def expected(x):
        told(*x)


class chunks(Case):
    """every chunk of the last state is passed exactly once per transmission, however often it fails"""
    params = [(1, None, 12), (2, None, 12), (3, None, 12), (4, None, 14), (3, 1, 8)]
    deep = [(5, None, 17), (10, 1, 18)]
    unroll = 120

    def setup(chunks, limit, waits):
        return config(3, chunks, limit, sure=(0, 1, 2)), waits

    def actual(x):
        walk(*x)

    def expected(x):
        told(*x)


class sure(Case):
    """several transmissions in a row"""
    params = [(1, 1, 3), (2, 1, 3), (3, 1, 3), (3, 2, 3), (3, 5, 3), (3, 10, 2)]
    deep = [(3, 20, 2), (1, 1, 10), (2, 1, 10)]
    unroll = 200

    def setup(scenario, chunks, limit):
        return config(scenario, chunks, limit, sure=(0, 1, 2, 3)), 40

    def actual(x):
        walk(*x)

    def expected(x):
        told(*x)
