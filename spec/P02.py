"""Ping-pong: every ping is counted once and results follow from the counts."""
import random
from pysim.models.pingpong.handlers import finalize, initialize
from pysim.models.pingpong.model import Packet
from spec.base import Case
from spec.ping import Watch, config
from spec.refsim import run_real


class Book:
    """all counts whenever a new ping has just been sent, else only the number of sent pings and bad pongs"""
    def __init__(self):
        self.number = None

    def look(self, model):
        c = model.client
        if self.number is None or c.number != self.number:
            self.number = c.number
            return c.num_pings_sent, c.num_bad_pongs, c.num_acknowledged, c.num_missed
        return c.num_pings_sent, c.num_bad_pongs


class counts(Case):
    """whenever a ping is sent, each earlier one was counted as acknowledged or as missed"""
    unroll = 40

    def setup():
        return config(None)

    def actual(x):
        w = Watch(Book().look)
        initialize(w, x)
        w.run(10)

    def expected(c):
        left = 10
        now = 0
        n = 0
        got = 0
        lost = 0
        while left > 0:
            n = n + 1
            emit('wait', c.channel_delay, (n, 0, got, lost))
            now = now + c.channel_delay
            left = left - 1
            if left == 0:
                break
            if random.random() > c.loss_prob:
                emit('wait', c.service_delay, (n, 0))
                now = now + c.service_delay
                left = left - 1
                if left == 0:
                    break
                emit('wait', c.channel_delay, (n, 0))
                now = now + c.channel_delay
                left = left - 1
                if left == 0:
                    break
                got = got + 1
            else:
                lost = lost + 1
            emit('wait', c.interval, (n, 0))
            now = now + c.interval
            left = left - 1
        emit('end', False, now, None)


class totals(Case):
    """at the end of a bounded run all pings are counted"""
    params = [1, 2, 3]
    unroll = 40

    def setup(limit):
        return config(limit), limit

    def actual(x):
        w = Watch(lambda model: None)
        initialize(w, x[0])
        w.run(20)
        c = w.context.client
        emit('counts', c.num_pings_sent, c.num_acknowledged, c.num_missed, c.num_bad_pongs)

    def expected(x):
        c, limit = x
        got = 0
        now = 0
        for k in range(limit):
            emit('wait', c.channel_delay, None)
            now = now + c.channel_delay
            if random.random() > c.loss_prob:
                emit('wait', c.service_delay, None)
                emit('wait', c.channel_delay, None)
                now = now + c.service_delay + c.channel_delay
                got = got + 1
            emit('wait', c.interval, None)
            now = now + c.interval
        emit('end', True, now, None)
        emit('counts', limit, got, limit - got, 0)


class results(Case):
    """miss rate is the share of pings without pong; averages are taken over waits and transmissions"""
    params = [1, 2, 3]
    unroll = 40

    def setup(limit):
        return config(limit), limit

    def actual(x):
        stats, context, result = run_real(initialize, init_args=(x[0],), fin=finalize)
        emit('result', result.miss_rate, result.avg_interval, result.avg_delay)

    def expected(x):
        c, limit = x
        lost = 0
        for k in range(limit):
            if not random.random() > c.loss_prob:
                lost = lost + 1
        emit('result', lost / limit, c.interval, c.channel_delay)


class shares(Case):
    """results from any counts and any recorded waits and transmissions"""
    def setup():
        sent = nat('sent')
        got = nat('got')
        assume(sent > 0, got <= sent)
        return (config(None), sent, got, [num('w1'), num('w2'), num('w3')], [num('t1'), num('t2'), num('t3'), num('t4')])

    def actual(x):
        c, sent, got, waits, delays = x
        w = Watch(None)
        initialize(w, c)
        m = w.context
        m.client.num_pings_sent = sent
        m.client.num_acknowledged = got
        m.client.intervals_list = waits
        m.channel.delays_list = delays
        r = finalize(w)
        emit('result', r.miss_rate, r.avg_interval, r.avg_delay)

    def expected(x):
        c, sent, got, waits, delays = x
        emit('result', (sent - got) / sent, sum(waits) / 3, sum(delays) / 4)


class pong(Case):
    """a pong counts as acknowledged exactly if it carries the number of the last ping, and as bad otherwise"""
    params = ['own', 'next', 'previous']

    def setup(which):
        return which, config(None), nat('gap') + 1

    def actual(x):
        which, c, other = x
        w = Watch(None)
        initialize(w, c)
        w.pending = []
        m = w.context
        m.client.handle_timeout(w)
        last = m.client.number
        number = last
        if which == 'next':
            number = last + other
        if which == 'previous':
            number = last - other
        w.pending = []
        m.client.handle_receive(w, Packet(sender=m.server, receiver=m.client, number=number))
        emit('counts', m.client.num_pings_sent, m.client.num_acknowledged, m.client.num_bad_pongs, m.client.num_missed)
        w.pending = []
        m.client.handle_timeout(w)
        emit('counts', m.client.num_pings_sent, m.client.num_acknowledged, m.client.num_bad_pongs, m.client.num_missed)

    def expected(x):
        which, c, other = x
        if which == 'own':
            emit('counts', 1, 1, 0, 0)
            emit('counts', 2, 1, 0, 0)
        else:
            emit('counts', 1, 0, 1, 0)
            emit('counts', 2, 0, 1, 1)


class late_foreign(Case):
    """a foreign pong does not take away an acknowledgement that was already given"""
    def setup():
        return config(None), nat('gap') + 1

    def actual(x):
        c, other = x
        w = Watch(None)
        initialize(w, c)
        w.pending = []
        m = w.context
        m.client.handle_timeout(w)
        last = m.client.number
        m.client.handle_receive(w, Packet(sender=m.server, receiver=m.client, number=last))
        m.client.handle_receive(w, Packet(sender=m.server, receiver=m.client, number=last + other))
        w.pending = []
        m.client.handle_timeout(w)
        emit('counts', m.client.num_pings_sent, m.client.num_acknowledged, m.client.num_bad_pongs, m.client.num_missed)

    def expected(x):
        c, other = x
        emit('counts', 2, 1, 1, 0)
