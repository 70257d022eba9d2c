"""Ping-pong: one ping in flight, right delays, bounded number of pings."""
import random
from pysim.models.pingpong.handlers import initialize
from pysim.models.pingpong.model import Channel, Client, Model, Packet, Server
from spec.base import Case
from spec.ping import Watch, config
from spec.refsim import run_real


def sent(model):
    return model.client.num_pings_sent


class Numbers:
    """how many pings were sent, and how far the number has moved since the first look"""
    def __init__(self):
        self.first = None

    def look(self, model):
        if self.first is None:
            self.first = model.client.number
        return model.client.num_pings_sent, model.client.number - self.first, model.client.num_acknowledged


class journey(Case):
    """each ping travels, is lost or served and answered, and the next one follows one interval later"""
    params = [1, 2, 3, None]

    def setup(limit):
        return config(limit), limit

    def actual(x):
        w = Watch(sent)
        initialize(w, x[0])
        w.run(9)

    def expected(x):
        c, limit = x
        now = 0
        left = 9
        n = 0
        stopped = False
        while left > 0:
            if limit is not None and n == limit:
                stopped = True
                break
            n = n + 1
            todo = [c.channel_delay]
            emit('wait', c.channel_delay, n)
            now = now + c.channel_delay
            left = left - 1
            if left == 0:
                break
            if random.random() > c.loss_prob:
                emit('wait', c.service_delay, n)
                now = now + c.service_delay
                left = left - 1
                if left == 0:
                    break
                emit('wait', c.channel_delay, n)
                now = now + c.channel_delay
                left = left - 1
                if left == 0:
                    break
            emit('wait', c.interval, n)
            now = now + c.interval
            left = left - 1
        emit('end', stopped, now, n if stopped else None)


class numbers(Case):
    """pings are numbered one by one and each pong carries the number of its ping"""
    unroll = 40
    def setup():
        return config(None)

    def actual(x):
        w = Watch(Numbers().look)
        initialize(w, x)
        w.run(10)

    def expected(c):
        left = 10
        now = 0
        n = 0
        got = 0
        while left > 0:
            n = n + 1
            steps = [c.channel_delay]
            emit('wait', c.channel_delay, (n, n - 1, got))
            now = now + c.channel_delay
            left = left - 1
            if left == 0:
                break
            if random.random() > c.loss_prob:
                emit('wait', c.service_delay, (n, n - 1, got))
                now = now + c.service_delay
                left = left - 1
                if left == 0:
                    break
                emit('wait', c.channel_delay, (n, n - 1, got))
                now = now + c.channel_delay
                left = left - 1
                if left == 0:
                    break
                got = got + 1
            emit('wait', c.interval, (n, n - 1, got))
            now = now + c.interval
            left = left - 1
        emit('end', False, now, None)


class bound(Case):
    """however many pings were sent and whatever the bound: one more ping below the bound, a stop at it"""
    def setup():
        return config(opt(nat('limit'))), nat('already'), boolean('answered')

    def actual(x):
        c, n, answered = x
        w = Watch(sent)
        initialize(w, c)
        w.pending = []
        w.context.client.num_pings_sent = n
        w.context.client.was_acknowledged = answered
        w.context.client.handle_timeout(w)
        w.run(1)

    def expected(x):
        c, n, answered = x
        if c.max_pings is None or n < c.max_pings:
            emit('wait', c.channel_delay, n + 1)
            emit('end', False, c.channel_delay, None)
        else:
            emit('end', True, 0, n)


class parts(Case):
    """a channel delays any packet by its own delay and hands it to its receiver; a server answers the sender"""
    params = ['channel', 'server']

    def setup(which):
        delay = num('delay')
        assume(delay > 0)
        return which, delay, num('loss'), nat('number')

    def actual(x):
        which, delay, loss, number = x
        w = Watch(sent)
        c = Channel(delay)
        a, b = parts_node('a'), parts_node('b')
        if which == 'channel':
            p = Packet(sender=a, receiver=b, number=number)
            c.send(w, p)
        else:
            s = Server(loss_prob=loss, delay=delay)
            s.set_channel(parts_channel())
            p = Packet(sender=a, receiver=s, number=number)
            s.handle_service_end(w, p)
        while w.pending:
            d, handler, args, number = w.pending.pop(0)
            if d is not 0:
                emit('after', d)
            handler(w, *args)

    def expected(x):
        which, delay, loss, number = x
        if which == 'channel':
            emit('after', delay)
            emit('received', 'b', 'a', 'b', number)
        else:
            emit('sent', 'server', 'a', number)


class parts_node:
    def __init__(self, name):
        self.name = name

    def handle_receive(self, sim, packet):
        emit('received', self.name, packet.sender.name, packet.receiver.name, packet.number)

    def __str__(self):
        return self.name


class parts_channel:
    def send(self, sim, packet):
        emit('sent', str(packet.sender), packet.receiver.name, packet.number)
