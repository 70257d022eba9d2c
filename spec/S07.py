"""Separate runs share no mutable state."""
from pysim.models.pingpong.model import Model as PingModel
from pysim.models.pingpong.objects import Config as PingConfig
from pysim.models.rfid import epcstd as std
from pysim.models.rfid.objects import (Antenna, Generator, Listeners, Medium, Model, Reader, Statistics, Tag)
from pysim.models.tag_time.model import Model as TimeModel
from pysim.models.tag_time.objects import Config as TimeConfig
from pysim.sim.simulator import EventQueue, build_simulation, run_simulation
from spec.base import Case
from spec.refsim import run_real


class queues(Case):
    """two event queues have their own events and numbers"""
    unroll = 5

    def setup():
        return num('t1'), num('t2')

    def actual(x):
        a, b = EventQueue(), EventQueue()
        i = a.push(x[0], 'a')
        emit('one', len(a), len(b), b.empty)
        j = b.push(x[1], 'b')
        k = a.push(x[1], 'c')
        emit('numbers', i == j, k - i)
        a.cancel(i)
        emit('cancelled', len(a), len(b))
        a.clear()
        emit('cleared', len(a), len(b))
        return b.pop()[0], b.empty

    def expected(x):
        emit('one', 1, 0, True)
        emit('numbers', True, 1)
        emit('cancelled', 1, 1)
        emit('cleared', 0, 1)
        return x[1], True


def tick(sim, k, d):
    sim.context['n'] = sim.context.get('n', 0) + 1
    emit('tick', sim.time, sim.context['n'], k)
    if k > 1:
        sim.schedule(d, tick, (k - 1, d))


def begin(sim, k, d):
    emit('begin', sim.time, len(sim.context))
    emit('number', sim.schedule(d, tick, (k, d)))


class runs_in_turn(Case):
    """a second run starts from scratch: clock, numbers, context, counters"""
    unroll = 6

    def setup():
        clock()
        d, e = num('d'), num('e')
        assume(d >= 0, e >= 0)
        return d, e

    def actual(x):
        s1, c1, r1 = run_real(begin, init_args=(2, x[0]))
        s2, c2, r2 = run_real(begin, init_args=(1, x[1]))
        return s1.num_events_processed, s1.sim_time, c1['n'], s2.num_events_processed, s2.sim_time, c2['n']

    def expected(x):
        d, e = x
        q = EventQueue()
        first = q.push(0, 0)
        emit('begin', 0, 0)
        emit('number', first)
        emit('tick', d, 1, 2)
        emit('tick', d + d, 2, 1)
        emit('begin', 0, 0)
        emit('number', first)
        emit('tick', e, 1, 1)
        return 2, d + d, 2, 1, e, 1


class runs_nested(Case):
    """a run made inside a handler of another run does not touch it"""
    unroll = 6

    def setup():
        clock()
        d, e = num('d'), num('e')
        assume(d >= 0, e >= 0)
        return d, e

    def outer(sim, d, e):
        sim.context['outer'] = True
        sim.schedule(d, tick, (1, d))
        stats, ctx, ret = run_real(begin, init_args=(1, e))
        emit('inner', stats.sim_time, len(ctx))
        emit('outer', sim.time, len(sim.context))

    def init(sim, d, e):
        sim.schedule(d, runs_nested.outer, (d, e))

    def actual(x):
        stats, ctx, ret = run_real(runs_nested.init, init_args=x)
        return stats.num_events_processed, stats.sim_time, len(ctx)

    def expected(x):
        d, e = x
        q = EventQueue()
        emit('begin', 0, 0)
        emit('number', q.push(0, 0))
        emit('tick', e, 1, 1)
        emit('inner', e, 1)
        emit('outer', d, 1)
        emit('tick', d + d, 1, 1)
        return 2, d + d, 2


class built_together(Case):
    """simulations built before either is run stay apart, limits included"""
    unroll = 7

    def setup():
        clock()
        d = num('d')
        assume(d > 0)
        return d

    def step(sim, k, d):
        sim.context.append(sim.time)
        if k > 1:
            sim.schedule(d, built_together.step, (k - 1, d))

    def init(sim, k, d):
        sim.context = [sim.time]
        sim.schedule(d, built_together.step, (k, d))

    def actual(x):
        a = build_simulation('model', built_together.init, (3, x), max_num_events=1)
        b = build_simulation('model', built_together.init, (2, x))
        t, ctx2, r = run_simulation(b)
        s, ctx1, r = run_simulation(a)
        return s.num_events_processed, s.sim_time, ctx1, t.num_events_processed, t.sim_time, ctx2

    def expected(x):
        return 1, x, [0, x], 2, x + x, [0, x, x + x]


class stopped_run(Case):
    """a stop request ends its own run only"""
    unroll = 6

    def setup():
        clock()
        return text('why')

    def halt(sim, why):
        sim.stop(why)

    def init(sim, why):
        sim.call(stopped_run.halt, (why,))
        sim.schedule(1, stopped_run.halt, (why,))

    def actual(x):
        s1, c1, r1 = run_real(stopped_run.init, init_args=(x,))
        s2, c2, r2 = run_real(begin, init_args=(2, 1))
        return s1.num_events_processed, s1.stop_message, s2.num_events_processed, s2.stop_message

    def expected(x):
        q = EventQueue()
        emit('begin', 0, 0)
        emit('number', q.push(0, 0))
        emit('tick', 1, 1, 2)
        emit('tick', 2, 2, 1)
        return 1, x, 2, ''


def listener(*args, **kw):
    emit('heard', args, kw)


class listeners(Case):
    """listeners of one object are not called by another"""
    def setup():
        return None

    def actual(x):
        a, b = Listeners(), Listeners()
        a.add(listener, k=1)
        b.call('b')
        a.call('a')
        b.add(listener, k=2)
        a.clear()
        a.call('c')
        b.call('d')

    def expected(x):
        emit('heard', ('a',), {'k': 1})
        emit('heard', ('d',), {'k': 2})


class listener_arguments(Case):
    """a listener is called with its own arguments"""
    def actual(x):
        a = Listeners()
        a.add(listener, k=1)
        a.call('a')

    def expected(x):
        emit('heard', ('a',), {'k': 1})


class readers(Case):
    """two readers have their own antennas, listeners, rounds and states"""
    params = ['antennas', 'round', 'state', 'power', 'settings']

    def setup(which):
        sim = simulator(None)
        return which, sim

    def actual(x):
        which, sim = x
        a, b = Reader(sim), Reader(sim)
        if which == 'antennas':
            a.attach_antenna(Antenna())
            a.attach_antenna(Antenna())
            a.select_next_antenna()
            emit('antennas', a.num_antennas, b.num_antennas, a.antenna_index, b.antenna_index)
        elif which == 'round':
            for name in ('round_start_listeners', 'slot_start_listeners', 'round_finish_listeners',
                         'slot_finish_listeners', 'power_on_listeners', 'power_off_listeners',
                         'state_change_listeners'):
                getattr(a, name).add(listener, k=name)
            b.next_slot()
            b.next_slot()
            b.stop_round()
            emit('quiet', a.inventory_round is None, b.inventory_round is None)
            b.next_slot()
            a.round_start_listeners.clear()
            a.slot_start_listeners.clear()
            a.next_slot()
            emit('rounds', b.inventory_round.index - a.inventory_round.index)
        elif which == 'state':
            a.set_state(Reader.State.ACK)
            emit('states', a.state is Reader.State.ACK, b.state is Reader.State.OFF, Reader(sim).state is Reader.State.OFF)
        elif which == 'power':
            a.set_power(30)
            emit('power', a.power, b.power, Reader(sim).power)
        else:
            for name, value in (('q', 9), ('tari', 1), ('rtcal', 2), ('trcal', 3), ('last_rn', 5), ('updn', 1),
                                ('max_power', 5), ('read_tid_bank', True), ('target', std.InventoryFlag.B),
                                ('use_query_adjust', True), ('adjust_delta', 7), ('q_fp', 8)):
                old = getattr(b, name)
                setattr(a, name, value)
                emit(name, getattr(b, name) == old, getattr(Reader(sim), name) == old)

    def expected(x):
        which, sim = x
        if which == 'antennas':
            emit('antennas', 2, 0, 1, 0)
        elif which == 'round':
            emit('quiet', True, True)
            emit('rounds', 1)
        elif which == 'state':
            emit('states', True, True, True)
        elif which == 'power':
            emit('power', 30, None, None)
        else:
            for name in ('q', 'tari', 'rtcal', 'trcal', 'last_rn', 'updn', 'max_power', 'read_tid_bank', 'target',
                         'use_query_adjust', 'adjust_delta', 'q_fp'):
                emit(name, True, True)


class rfid_models(Case):
    """two RFID models have their own parts, tags, statistics and tag numbers"""
    def setup():
        return None

    def actual(x):
        a, b = Model(), Model()
        emit('parts', a.reader is b.reader, a.medium is b.medium, a.statistics is b.statistics, a.tags is b.tags,
             a.generators is b.generators)
        emit('tag', next(a.next_tag_id), next(a.next_tag_id), next(b.next_tag_id))
        a.tags.append(1)
        a.generators.append(2)
        a.num_tags_simulated += 1
        emit('own', len(b.tags), len(b.generators), b.num_tags_simulated, len(Model().tags))

    def expected(x):
        emit('parts', False, False, False, False, False)
        emit('tag', 0, 1, 0)
        emit('own', 0, 0, 0, 0)


class tags(Case):
    """two tags have their own antennas, flags and states"""
    params = ['antenna', 'flags', 'power', 'fields']

    def setup(which):
        sim = simulator(None)
        return which, sim

    def actual(x):
        which, sim = x
        a, b = Tag(1), Tag(2)
        a.kernel = sim
        b.kernel = sim
        if which == 'antenna':
            emit('antenna', a.antenna is b.antenna)
        elif which == 'flags':
            a.sessions[std.Session.S1] = std.InventoryFlag.B
            emit('flags', b.sessions[std.Session.S1] is std.InventoryFlag.B,
                 Tag(3).sessions[std.Session.S1] is std.InventoryFlag.B)
        elif which == 'power':
            a.set_power(0, -1)
            emit('power', a.power, b.power, b.state is Tag.State.OFF)
        else:
            for name, value in (('epc', 'AA'), ('tid', 'BB'), ('s1_persistence', 99), ('sensitivity', 5),
                                ('modulation_loss', 7), ('velocity', 3)):
                old = getattr(b, name)
                setattr(a, name, value)
                emit(name, getattr(b, name) == old)

    def expected(x):
        which, sim = x
        if which == 'antenna':
            emit('antenna', False)
        elif which == 'flags':
            emit('flags', False, False)
        elif which == 'power':
            emit('power', -1, None, True)
        else:
            for name in ('epc', 'tid', 's1_persistence', 'sensitivity', 'modulation_loss', 'velocity'):
                emit(name, True)


class generators(Case):
    """two generators number and count their tags on their own"""
    def setup():
        return None

    def make():
        g = Generator()
        g.pos0 = [0, 0, 0]
        g.tag_antenna_direction = [0, 0, 1]
        return g

    def actual(x):
        m, n = Model(), Model()
        a, b = generators.make(), generators.make()
        t1, t2 = a.create_tag(m), a.create_tag(m)
        u1 = b.create_tag(n)
        emit('tags', t1.epc == u1.epc, t2.epc == u1.epc, t1.tid == u1.tid, t2.tid == u1.tid)
        a.num_tags_generated += 1
        a.max_tags_generated = 5
        a.set_interval(max, 1, 2)
        emit('own', b.num_tags_generated, b.max_tags_generated, b.interval, Generator().num_tags_generated)

    def expected(x):
        emit('tags', True, False, True, False)
        emit('own', 0, -1, 1.0, 0)


class media(Case):
    """settings of one medium or antenna leave the others alone"""
    def actual(x):
        a, b = Medium(), Medium()
        old = b.frequency
        a.frequency = 1
        a.use_doppler = False
        c, d = Antenna(), Antenna()
        gain = d.gain
        c.gain = 99
        c.index = 4
        emit('media', b.frequency == old, b.use_doppler, d.gain == gain, d.index, Medium().frequency == old)

    def expected(x):
        emit('media', True, True, True, None, True)


class ping_models(Case):
    """two ping-pong models have their own counters and lists"""
    def setup():
        return PingConfig(interval=num('i'), channel_delay=num('c'), service_delay=num('s'), loss_prob=num('l'),
                          max_pings=int_('m')), logger()

    def actual(x):
        a, b = PingModel(*x), PingModel(*x)
        a.client.num_pings_sent += 1
        a.client.intervals_list.append(1)
        a.channel.delays_list.append(2)
        a.client.num_missed += 1
        a.client.was_acknowledged = True
        return (b.client.num_pings_sent, len(b.client.intervals_list), len(b.channel.delays_list), b.client.num_missed,
                b.client.was_acknowledged, a.client is b.client, a.server is b.server, a.channel is b.channel,
                b.client.channel is b.channel, b.client.server is b.server, b.server.channel is b.channel)

    def expected(x):
        return 0, 0, 0, 0, False, False, False, False, True, True, True


class time_models(Case):
    """two tag-time models have their own states and progress"""
    params = [1, 2, 3]

    def setup(scenario):
        p = tuple([num('p%d' % i) for i in range(4)])
        t = tuple([num('t%d' % i) for i in range(4)])
        return TimeConfig(probability=p, processing_time=t, max_transmisions=int_('m'), chunks_number=3,
                          scenario=scenario), logger(), scenario

    def actual(x):
        c, log, scenario = x
        a, b = TimeModel(c, log), TimeModel(c, log)
        a.num_transmissions += 1
        a.arbitrate.num_pakage_sent += 1
        if scenario == 3:
            a.chunks_passed += 1
            a.secured.append(1)
        emit('own', b.num_transmissions, b.arbitrate.num_pakage_sent, a.arbitrate is b.arbitrate, a.final is b.final)
        if scenario == 3:
            emit('chunks', b.chunks_passed, len(b.secured))

    def expected(x):
        emit('own', 0, 0, False, False)
        if x[2] == 3:
            emit('chunks', 0, 3)
