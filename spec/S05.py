"""The execution report tells what really happened."""
from pysim.sim.simulator import ExitReason, build_simulation, run_simulation
from spec.base import Case
from spec.refsim import run_real, run_ref
from spec.S04 import limits


class report(Case):
    """fields and exit reason for any limits and an optional stop request"""
    unroll = 5
    params = [('none', ''), ('none', 's'), ('none', 'r'), ('none', 'n'), ('none', 'sn'), ('none', 'rn'),
              ('init', ''), ('init', 'n'), ('first', ''), ('second', ''), ('first', 's'), ('second', 'n'), ('first', 'r')]

    def setup(who, which):
        clock()
        d = (num('d1'), num('d2'))
        w = num('w')
        assume(d[0] >= 0, d[1] >= d[0], w >= 0)
        return who, d, w, text('why'), limits(which)

    def one(sim, w, why):
        advance(w)
        if why is not None:
            sim.stop(why)

    def two(sim, w, why):
        advance(w)
        if why is not None:
            sim.stop(msg=why)

    def init(sim, who, d, w, why):
        if who == 'init':
            sim.stop(why)
        sim.schedule(d[0], report.one, (w, why if who == 'first' else None))
        sim.schedule(d[1], report.two, (w, why if who == 'second' else None))

    def actual(x):
        who, d, w, why, kw = x
        t0 = realtime()
        stats, context, ret = run_real(report.init, init_args=(who, d, w, why), **kw)
        # the same run told by the reference, for the causes that hold
        ref = run_ref(report.init, init_args=(who, d, w, why), **kw)
        last = stats.last_handler
        if isinstance(last, tuple):
            last = last[0]
        return (stats.num_events_processed, stats.sim_time, stats.time_elapsed, last,
                stats.stop_message, isinstance(stats.exit_reason, ExitReason),
                ref[4].get(stats.exit_reason, False))

    def expected(x):
        who, d, w, why, kw = x
        served, now, last, message, reasons, context, ret, elapsed = run_ref(
            report.init, init_args=(who, d, w, why), **kw)
        return served, now, elapsed, last, message, True, True


class no_events(Case):
    """a run without events reports the absence of events"""
    params = ['', 's', 'r', 'n']

    def setup(which):
        clock()
        kw = limits(which)
        return kw

    def init(sim):
        advance(num('w'))

    def actual(x):
        stats, context, ret = run_real(no_events.init, **x)
        return (stats.num_events_processed, stats.sim_time, stats.last_handler, stats.stop_message, stats.exit_reason)

    def expected(x):
        return 0, 0, None, '', ExitReason.NO_MORE_EVENTS


class exhausted(Case):
    """cancelled events leave nothing: the run is over, by absence of events"""
    unroll = 4

    def setup():
        clock()
        d = num('d')
        assume(d >= 0)
        return d

    def one(sim, e):
        sim.cancel(e)

    def init(sim, d):
        e = sim.schedule(2 * d + 1, exhausted.one, (None,))
        sim.schedule(d, exhausted.one, (e,))

    def actual(x):
        stats, context, ret = run_real(exhausted.init, init_args=(x,))
        return stats.num_events_processed, stats.sim_time, stats.exit_reason, stats.stop_message

    def expected(x):
        return 1, x, ExitReason.NO_MORE_EVENTS, ''


class stop_in_last_event(Case):
    """a stop requested by the only event"""
    unroll = 4

    def setup():
        clock()
        return text('why')

    def one(sim, why):
        sim.stop(why)

    def init(sim, why):
        sim.call(stop_in_last_event.one, (why,))

    def actual(x):
        stats, context, ret = run_real(stop_in_last_event.init, init_args=(x,))
        return stats.num_events_processed, stats.exit_reason in (ExitReason.STOPPED, ExitReason.NO_MORE_EVENTS), stats.stop_message

    def expected(x):
        return 1, True, x


class distinct_reasons(Case):
    """the exit reasons are six different members"""
    def actual(x):
        names = ['NO_MORE_EVENTS', 'REACHED_REAL_TIME_LIMIT', 'REACHED_SIM_TIME_LIMIT', 'STOPPED',
                 'INTERRUPTED', 'REACHED_NUM_EVENTS_LIMIT']
        return [ExitReason[n] is ExitReason[k] for n in names for k in names]

    def expected(x):
        return [n == k for n in range(6) for k in range(6)]
