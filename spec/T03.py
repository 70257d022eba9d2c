"""Monte-Carlo and analytic models describe the same chain as the simulation."""
import numpy as np
import random
from pysim.models.tag_time import analitical_model, mc
from spec.base import Case


def rows(m):
    return [[e for e in row] for row in m]


def demanded(scenario, p):
    """cumulative rows of the chain"""
    n = len(p)
    out = []
    for i in range(n + 1):
        row = [0] * (n + 1)
        if i == n:
            row[n] = 1
        else:
            back = 0 if scenario == 1 else i
            row[back] = row[back] + 1 - p[i]
            row[i + 1] = row[i + 1] + p[i]
        total = 0
        acc = []
        for e in row:
            total = total + e
            acc.append(total)
        out.append(acc)
    return out


class matrix(Case):
    """success leads to the next state, failure to the first or the same one, the last state absorbs"""
    params = [(s, n) for s in (1, 2, 3) for n in (4, 5, 7)]
    deep = [(s, n) for s in (1, 2, 3) for n in (1, 2, 3, 6, 8, 13, 20)]

    def setup(scenario, n):
        return scenario, [num('p' + str(i)) for i in range(n)]

    def actual(x):
        scenario, p = x
        if scenario == 1:
            m = mc.create_matrix_1(*p)
        elif scenario == 2:
            m = mc.create_matrix_2(*p)
        else:
            m = mc.create_matrix_3(p)
        emit('matrix', rows(m))

    def expected(x):
        scenario, p = x
        emit('matrix', demanded(scenario, p))


class inputs(Case):
    """one matrix per set of probabilities, by scenario, in order"""
    params = [1, 2, 3]

    def setup(scenario):
        return scenario, [[num('p%d%d' % (k, i)) for i in range(4)] for k in range(3)]

    def actual(x):
        scenario, probs = x
        for m in mc.create_input_probs(scenario, probs):
            emit('matrix', rows(m))

    def expected(x):
        scenario, probs = x
        for p in probs:
            emit('matrix', demanded(scenario, p))


class Draws:
    """a few arbitrary draws, afterwards draws that lead to the last state"""
    def __init__(self, k):
        self.values = [num('u' + str(i)) for i in range(k)]
        self.at = 0

    def next(self, *args, **kw):
        i = self.at
        self.at = i + 1
        return self.values[i] if i < len(self.values) else 0.999


MATRICES = {
    'two': [[0.25, 1], [0, 1]],
    'first': [[0.5, 1, 1, 1], [0.125, 0.125, 1, 1], [0.25, 0.25, 0.25, 1], [0, 0, 0, 1]],
    'same': [[0.5, 1, 1, 1], [0, 0.125, 1, 1], [0, 0, 0.25, 1], [0, 0, 0, 1]],
    'full': [[0.1, 0.2, 0.4, 1], [0.3, 0.5, 0.6, 1], [0.05, 0.7, 0.9, 1], [0, 0, 0, 1]],
    'sure': [[0, 1, 1], [0, 0, 1], [0, 0, 1]],
    'five': [[0.5, 0.75, 1, 1, 1], [0.25, 0.3, 0.35, 1, 1], [0, 0, 0.9, 0.9, 1], [0.1, 0.1, 0.2, 0.3, 1], [0, 0, 0, 0, 1]],
}


class trial(Case):
    """a trial adds the time of every visited state until absorption and moves by the row of the current state"""
    params = [('two', 1, 3), ('two', 2, 3), ('first', 1, 4), ('same', 1, 4), ('full', 1, 3), ('full', 2, 3), ('sure', 3, 1),
              ('five', 1, 4), ('two', 4, 2)]
    deep = [('full', 1, 5), ('first', 2, 5), ('same', 2, 5), ('five', 1, 5)]
    unroll = 40

    def setup(which, trials, k):
        d = Draws(k)
        for v in d.values:
            assume(v >= 0, v < 1)
        m = MATRICES[which]
        return m, [num('t%d' % i) for i in range(len(m) - 1)], trials, d.values

    def actual(x):
        m, t, trials, values = x
        d = Draws(0)
        d.values = values
        draws(d.next)
        emit('time', mc.monte_carlo(np.array(m), np.array(t), trials))
        emit('draws', d.at)

    def expected(x):
        m, t, trials, values = x
        total = 0
        used = 0
        for k in range(trials):
            at = 0
            for step in range(len(values) + len(m)):
                if at == len(m) - 1:
                    break
                total = total + t[at]
                r = values[used] if used < len(values) else 0.999
                used = used + 1
                nxt = len(m) - 1
                for j in reversed(range(len(m))):
                    if r < m[at][j]:
                        nxt = j
                at = nxt
        emit('time', total / trials * 1000)
        emit('draws', used)


class second_case(Case):
    """a state that is repeated until success takes its time divided by its probability"""
    params = [1, 3, 4, 6]

    def setup(n):
        return [(p, num('t%d' % k)) for k, p in enumerate((0.5, 0.9, 0.25, 1, 0.75, 0.1)[:n])]

    def actual(x):
        emit('time', rounded(analitical_model.calculate_second_case(x), 6))

    def expected(x):
        emit('time', rounded(sum([t / p for p, t in x]), 6))


def second(phases):
    return term('second', [(p, t) for p, t in phases], kind='num')


class first_case(Case):
    """failure leads to the first state: x[i] = t[i] + p[i] x[i+1] + (1 - p[i]) x[0]"""
    def setup():
        return [(num('p%d' % k), num('t%d' % k)) for k in range(4)]

    def actual(x):
        emit('time', analitical_model.calculate_first_case(x))

    def expected(x):
        p = [a for a, t in x]
        n = len(p)
        m = []
        for i in range(n):
            row = [0] * n
            row[i] = row[i] + 1
            if i + 1 < n:
                row[i + 1] = row[i + 1] - p[i]
            row[0] = row[0] - (1 - p[i])
            m.append(row)
        emit('time', np.linalg.solve(np.array(m), np.array([t for a, t in x]))[0])


class third_case(Case):
    """the chunks add their time once per chunk"""
    params = [1, 2, 5]

    def setup(chunks):
        stub('pysim.models.tag_time.analitical_model', 'calculate_second_case', second)
        return [(num('p%d' % k), num('t%d' % k)) for k in range(3)], (num('p3'), num('t3')), nat('chunks') if chunks == 5 else chunks

    def actual(x):
        emit('time', analitical_model.calculate_third_case(*x))

    def expected(x):
        phases, chunk, n = x
        emit('time', second(phases) + n * second([chunk]))


class phases(Case):
    """each probability is paired with its own time"""
    params = [(1, 4), (3, 4), (2, 7)]

    def setup(points, states):
        return ([[num('p%d_%d' % (i, k)) for k in range(states)] for i in range(points)],
                [[num('t%d_%d' % (i, k)) for k in range(states)] for i in range(points)])

    def actual(x):
        emit('phases', [[(p, t) for p, t in case] for case in analitical_model.convert_data_for_analitica(*x)])

    def expected(x):
        probs, times = x
        emit('phases', [[(probs[i][k], times[i][k]) for k in range(len(probs[i]))] for i in range(len(probs))])


class dispatch(Case):
    """the formula of the scenario is used for every point, in milliseconds"""
    params = [1, 2, 3]

    def setup(scenario):
        m = 'pysim.models.tag_time.analitical_model'
        stub(m, 'calculate_first_case', dispatch.first)
        stub(m, 'calculate_second_case', second)
        return scenario, [[(num('p%d_%d' % (i, k)), num('t%d_%d' % (i, k))) for k in range(4)] for i in range(3)], nat('chunks')

    def first(phases):
        return term('first', [(p, t) for p, t in phases], kind='num')

    def actual(x):
        emit('result', [e for e in analitical_model.run_analitica(*x)])

    def expected(x):
        scenario, points, n = x
        out = []
        for ph in points:
            if scenario == 1:
                out.append(dispatch.first(ph) * 1000)
            elif scenario == 2:
                out.append(second(ph) * 1000)
            else:
                out.append((second(ph[:3]) + n * second([ph[3]])) * 1000)
        emit('result', out)


class multiple(Case):
    """every point is simulated with its own matrix and times"""
    params = [1, 2, 3]

    def setup(scenario):
        stub('pysim.models.tag_time.mc', 'monte_carlo', multiple.one)
        return (scenario, [[num('p%d_%d' % (i, k)) for k in range(4)] for i in range(3)],
                [[num('t%d_%d' % (i, k)) for k in range(4)] for i in range(3)], nat('transmissions'))

    def one(transition_matrix, stay_times, num_trials):
        return term('mc', rows(transition_matrix), [t for t in stay_times], num_trials, kind='num')

    def actual(x):
        emit('result', [e for e in mc.run_multiple_models(*x)])

    def expected(x):
        scenario, probs, times, n = x
        emit('result', [multiple.one(demanded(scenario, probs[i]), times[i], n) for i in range(3)])
