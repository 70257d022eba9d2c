"""Configurations and the demanded chain of the tag-time model."""
import random
from pysim.models.tag_time.objects import Config


def config(scenario, chunks=1, limit=None, sure=(), timed=False):
    """any success probabilities and positive times; states in `sure` always succeed"""
    p = []
    t = []
    for k in range(4):
        a = num('p' + str(k)) if k not in sure else 1
        b = k + 1
        if timed:
            b = num('t' + str(k))
            assume(b > 0)
        p.append(a)
        t.append(b)
    return Config(probability=tuple(p), processing_time=tuple(t), max_transmisions=limit, chunks_number=chunks,
                  scenario=scenario)


def demanded(c, waits):
    """the chain: (state index, transmissions so far) of each attempt"""
    states = [0, 1, 2] + [3] * (c.chunks_number if c.scenario == 3 else 1)
    at = 0
    done = 0
    seen = []
    for k in range(waits):
        if c.max_transmisions is not None and done >= c.max_transmisions:
            return seen, True, done
        seen.append((states[at], done))
        if random.random() > c.probability[states[at]]:
            if c.scenario == 1:
                at = 0
        else:
            at = at + 1
            if at == len(states):
                at = 0
                done = done + 1
    return seen, c.max_transmisions is not None and done >= c.max_transmisions, done
