"""Reference semantics of a simulation run, and both ways to run a program."""
import bisect

from pysim.sim.simulator import (ExitReason, SchedulingInPastError, build_simulation,
                                 run_simulation)


class RefSim:
    def __init__(self, context):
        self.now = 0
        self.pending = []
        self.count = 0
        self.stopped = False
        self.message = ''
        self.context = {} if context is None else context

    @property
    def time(self):
        return self.now

    def schedule(self, delay, handler, args=(), msg=''):
        if handler is None:
            raise ValueError()
        if not callable(handler):
            raise TypeError()
        args = list(args)
        if delay < 0:
            raise SchedulingInPastError()
        number = self.count
        self.count = number + 1
        at = self.now + delay
        bisect.insort(self.pending, (at, number, handler, args))
        return number

    def call(self, handler, args=(), msg=''):
        return self.schedule(0, handler, args, msg)

    def cancel(self, number):
        found = None
        for e in self.pending:
            if e[1] == number:
                found = e
        if found is None:
            return 0
        self.pending.remove(found)
        return 1

    def stop(self, msg=''):
        self.stopped = True
        self.message = msg


def run_ref(init, init_args=(), fin=None, context=None, max_real_time=None,
            max_sim_time=None, max_num_events=None):
    """what the documentation promises"""
    sim = RefSim(context)
    start = realtime()
    served = 0
    last = None
    init(sim, *init_args)
    while True:
        if not sim.pending:
            break
        if max_sim_time is not None and sim.now > max_sim_time:
            break
        if max_real_time is not None and realtime() - start > max_real_time:
            break
        if max_num_events is not None and served >= max_num_events:
            break
        if sim.stopped:
            break
        at, number, handler, args = sim.pending.pop(0)
        sim.now = at
        handler(sim, *args)
        served = served + 1
        last = handler
    # causes that really hold
    causes = []
    over = max_sim_time is not None and sim.now > max_sim_time
    late = max_real_time is not None and realtime() - start > max_real_time
    spent = max_num_events is not None and served >= max_num_events
    reasons = {
        ExitReason.STOPPED: sim.stopped,
        ExitReason.REACHED_SIM_TIME_LIMIT: over,
        ExitReason.REACHED_REAL_TIME_LIMIT: late,
        ExitReason.REACHED_NUM_EVENTS_LIMIT: spent,
        ExitReason.NO_MORE_EVENTS: not sim.pending,
        ExitReason.INTERRUPTED: False,
    }
    ret = fin(sim) if fin is not None else None
    return served, sim.now, last, sim.message, reasons, sim.context, ret, realtime() - start


def run_real(init, **kw):
    # the debug mode changes nothing of all this
    kw.setdefault('debug', boolean('debug'))
    stats, context, ret = run_simulation(build_simulation('model', init, **kw))
    return stats, context, ret
