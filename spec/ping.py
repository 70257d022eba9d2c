"""A small event loop that shows a model at every moment the clock moves."""
from pysim.models.pingpong.objects import Config


class Watch:
    """runs a model and announces every wait together with what can be seen of the model"""
    def __init__(self, look):
        self.now = 0
        self.pending = []
        self.stopped = False
        self.context = None
        self.logger = logger()
        self.look = look
        self.next_id = 0
        self.timed = True

    @property
    def time(self):
        return self.now

    def schedule(self, delay, handler, args=(), msg=''):
        self.pending.append((delay, handler, tuple(args), self.next_id))
        self.next_id = self.next_id + 1
        return self.next_id - 1

    def call(self, handler, args=(), msg=''):
        return self.schedule(0, handler, args, msg)

    def cancel(self, number):
        found = [e for e in self.pending if e[3] == number]
        self.pending = [e for e in self.pending if e[3] != number]
        return len(found)

    def stop(self, msg=''):
        self.stopped = True

    def run(self, waits):
        """until that many waits are over; only one event may be pending at a time"""
        k = 0
        for step in range(6 * waits):
            if self.stopped or k > waits:
                break
            if len(self.pending) != 1:
                emit('pending', len(self.pending))
                break
            delay, handler, args, number = self.pending.pop(0)
            if delay is not 0:
                if k == waits:
                    break
                k = k + 1
                if self.timed:
                    emit('wait', delay, self.look(self.context))
                else:
                    emit('wait', self.look(self.context))
                self.now = self.now + delay
            handler(self, *args)
        seen = self.look(self.context) if self.stopped else None
        if self.timed:
            emit('end', self.stopped, self.now, seen)
        else:
            emit('end', self.stopped, seen)


def config(limit):
    c = Config(interval=num('interval'), channel_delay=num('channel'), service_delay=num('service'),
               loss_prob=num('loss'), max_pings=limit)
    assume(c.interval > 0, c.channel_delay > 0, c.service_delay > 0, c.loss_prob >= 0, c.loss_prob <= 1)
    return c
