#!/usr/bin/env python3
"""Writes properties.jsonl (the single place where the statements are kept)."""
import json, os
SIM='pysim/sim/simulator.py'; LOG='pysim/sim/logger.py'; MAIN='pysim/main.py'
PP='pysim/models/pingpong/'; TT='pysim/models/tag_time/'; RF='pysim/models/rfid/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))

prop('S01','Events fire at the promised time, in order, and never in the past',
 'An event scheduled with delay d at model time t is dispatched when the model clock shows exactly t+d; events are dispatched in order of time and, among equal times, in order of scheduling, so the clock never goes back. '
 'A request with a negative delay is refused with the scheduling-in-past error, a missing handler with ValueError, a non-callable handler or non-iterable arguments with TypeError, and a refused request leaves the queue unchanged. '
 'An immediate call is an event with delay zero.',
 ['schedules','inputs'],'every sequence of schedule/call/cancel requests, with any delays, made by any handler',
 'Tests run one fixed echo model and five hand-written queue pushes; they never schedule ties, negative delays or invalid handlers.',
 [SIM],[('EventQueue.push/pop (heap of [time,id,task])',SIM+':EventQueue'),('Kernel.schedule',SIM+':Kernel.schedule'),('clock update in the main loop',SIM+':Kernel.build_runner'),('Simulator.schedule/call/time',SIM+':Simulator')],
 ['Simulator.schedule','Simulator.call','Simulator.time','handler invocation'])
prop('S02','Every live event is executed exactly once with its own handler and arguments',
 'While a run lasts, each scheduled and not cancelled event calls the handler it was scheduled with exactly once, passing the simulation object followed by exactly the scheduled arguments; nothing else is ever called. '
 'Events are identified by distinct numbers assigned in order of scheduling, and the handlers of one run all see the same simulation object, through which the shared context set by any of them is visible to all.',
 ['schedules','programs'],'every model program and every event history it can produce',
 'The only model under test schedules one event at a time, so loss, duplication or mix-up between several pending events cannot show.',
 [SIM],[('queue push/pop and live-event table',SIM+':EventQueue'),('main loop',SIM+':Kernel.build_runner'),('context property',SIM+':Simulator.context')],
 ['handler(sim, *args)','EventQueue.push','EventQueue.pop'])
prop('S03','Cancelling removes exactly the named pending event',
 'Cancelling a pending event returns 1 and that event, and only it, never runs; cancelling an identifier that is unknown, already executed, already cancelled or None returns 0 and changes nothing. '
 'The length and emptiness of the event queue count exactly the live events, cancelled ones are skipped silently when taking the next event, and taking from a queue without live events raises KeyError.',
 ['schedules','histories'],'every interleaving of scheduling, cancelling and dispatching',
 'The tests cancel three events in one fixed queue and never cancel through a running simulation, an executed event, or the last event.',
 [SIM],[('lazy deletion in the heap + live-event table',SIM+':EventQueue.cancel/pop/__len__/empty'),('Kernel.cancel',SIM+':Kernel.cancel')],
 ['Simulator.cancel','len(queue)','queue.empty','queue.pop'])
prop('S04','A run ends exactly when one of its stop conditions holds',
 'Once a handler has requested a stop, or the given number of events has been executed, or the given real time has elapsed, or the model clock has passed the given model-time limit, no further event is started; limits that were not given never end the run. '
 'While live events remain and no stop condition holds, the run goes on; it also ends when no live event is left.',
 ['histories','configurations'],'every model program and every combination of limits',
 'The tests try three runs with one limit each; other combinations, the event budget and stops with events pending are not exercised.',
 [SIM],[('stop_conditions and loop condition',SIM+':Kernel.stop_conditions, Kernel.build_runner'),('stop',SIM+':Kernel.stop'),('limit setters',SIM+':build_simulation')],
 ['number of handler calls','build_simulation arguments'])
prop('S05','The execution report tells what really happened',
 'The report holds the number of executed events, the final model time, the real time since the start of the run, the last executed handler and the message given to the stop request. '
 'The reported exit reason is always set, and names a cause that really holds: a requested stop, a passed model-time, real-time or event-count limit, or the absence of further events.',
 ['histories','configurations'],'every model program and every combination of limits',
 'Tests assert the report of three runs; drained queues, event budgets, stops during initialization and messages of other runs are not covered.',
 [SIM],[('ExecutionStats construction',SIM+':Kernel.build_runner'),('stop_reason bookkeeping',SIM+':Kernel.stop, Kernel.stop_conditions')],
 ['ExecutionStats'])
prop('S06','Initializer first, finalizer last, context and results handed over',
 'A run calls the initializer exactly once with its arguments before any event, then events, then the finalizer (if given) exactly once after the last event, and yields exactly one result made of the report, the current context and the value returned by the finalizer (None without one). '
 'A context passed in is the object the handlers see; without one they see a fresh empty dictionary, and a context replaced by a handler is the one returned. Running a simulation that yields no result is an error; an error raised by the initializer, a handler or the finalizer ends the run and reaches its caller.',
 ['programs','configurations'],'every model program, with and without finalizer and context',
 'The tests always pass a finalizer and never pass a context.',
 [SIM],[('build_runner',SIM+':Kernel.build_runner'),('build_simulation wiring',SIM+':build_simulation'),('run_simulation',SIM+':run_simulation')],
 ['initializer/finalizer calls','result tuple'])
prop('S07','Separate runs share no mutable state',
 'Two simulations or models created in one process do not influence each other: queues, clocks, event numbers, contexts, statistics, tag numbering, listeners and generators belong to one instance each. '
 'No object reachable from a class, a module or a default argument is modified by running a model.',
 ['programs','histories'],'any number of models created and run in one process, in any order',
 'Each test builds one simulation and looks only at it.',
 [SIM,RF+'objects.py',PP+'model.py',TT+'model.py'],[('instance attributes set in constructors','all classes'),('no mutable class attributes or defaults are written','whole package')],
 ['objects of two runs'])
prop('L01','Every log record carries the model time, the run id and the original message',
 'Each of the seven logging methods of the model logger emits exactly one record of its own level, with the message and arguments as given, the current model time, the run identifier and the position of the caller rather than of the wrapper. '
 'The model time comes from the clock of the run the logger belongs to.',
 ['inputs','histories'],'every logging call of every model at every time',
 'No test looks at log records.',
 [LOG,SIM],[('proxy methods with extra and stacklevel',LOG+':ModelLogger'),('time getter installed by the kernel',SIM+':Kernel.__init__')],
 ['records received by logging handlers'])
prop('L02','The logger configuration is honoured and applied once',
 'After setup the logger has exactly the handlers the configuration asks for (console and/or file), each with the configured format, colours and its own level (the common level if none is given), does not propagate, and uses the common level itself; a second setup changes nothing unless it is forced, and a forced one replaces the handlers. The log file is opened for writing anew. The configuration given to a simulation is the one its run uses; a run given none is silent. '
 'The log file name contains the run identifier and the configured separator exactly when asked to, inserted before a final ".log" extension and appended otherwise.',
 ['configurations','inputs'],'every configuration object and every sequence of setup calls',
 'Tests run with the default configuration only.',
 [LOG],[('setup',LOG+':ModelLogger.setup'),('build_file_name',LOG+':ModelLogger.build_file_name'),('ColoredFormatter',LOG+':ColoredFormatter')],
 ['logging handlers of the model logger','log file name'])
prop('C01','Listed models are exactly the runnable models',
 'Every submodule of the models package that offers a command-line command is available as a run subcommand under its own name and is listed under the same name, and nothing else is. '
 'A submodule without a command interface, or whose interface is missing or not a command, is reported and skipped without affecting the others.',
 ['configurations'],'every set of model packages, well-formed or not',
 'No test imports the global command line.',
 [MAIN],[('discovery loop',MAIN+':__initialize__'),('list command',MAIN+':list_models')],['sim list','sim run <model>'])
prop('C02','A sweep runs each distinct value once, ascending, and labels results right',
 'When one parameter is given several times, one run is made per distinct value, in ascending order, with every other option equal to the one given; results are printed next to the values that produced them. '
 'Several values for more than one parameter are rejected before anything runs; single values lead to a single run. In the tag-time model the i-th run uses the i-th probabilities and the i-th times, and different numbers of both are rejected; the mean time to absorption reported is the simulated time per demanded transmission. When saving is asked for, the inputs and the results are written together; otherwise no file is written. The time a run took is reported in seconds, for a sweep as the mean of its runs, and plots draw the results against their values with both named.',
 ['inputs','configurations'],'every combination of command-line values',
 'No test drives a sweep.',
 [PP+'cli.py',RF+'cli.py',TT+'cli.py',PP+'processing.py',RF+'processing.py'],[('check_vars_for_multiprocessing','*/cli.py'),('run_multiple_simulation / prepare_multiple_simulation','*/cli.py'),('result tables','*/processing.py')],
 ['arguments of each run','printed tables'])
prop('C03','Every option and setting reaches the component it configures',
 'Each command-line option and each settings field ends up, in its documented unit, in the component it describes (reader, antenna, medium, generator and its tags, statistics, kernel limits), and a value given at call time takes precedence over the settings object. An encoding or Tari that is not offered, or a number that is none, is refused before anything runs. '
 'Derived values (calibration intervals, memory sizes, power mode) are computed from the effective values.',
 ['configurations'],'every settings object and every set of overriding arguments',
 'No test builds a model from settings; a dropped or crossed field only shows with a non-default value.',
 [RF+'configurator.py',RF+'cli.py',PP+'cli.py',TT+'cli.py',PP+'model.py'],[('create_model',RF+'configurator.py:create_model'),('prepare_simulation',RF+'cli.py'),('create_config/run_model',PP+'cli.py, '+TT+'cli.py')],
 ['attributes of the created model','Config objects'])
prop('C04','Tables, reports and log texts show the values they name',
 'The table of a model lists the settings in force after overriding, with durations in microseconds; the text of a command, reply, preamble, frame, transaction, tag, read or power record, tag history or statistics names its fields with their current values, hexadecimal where the protocol writes so, and -120 dBm for an absent power; states, flags, banks, encodings and modes are shown by their own names. '
 'Asking for such a text changes nothing.',
 ['inputs','configurations'],'every model, command, reply, record and history',
 'No test reads any of these texts, and a swapped field only shows with two different values.',
 [RF+'configurator.py',RF+'epcstd.py',RF+'objects.py',PP+'model.py',TT+'model.py'],[('print_model_settings',RF+'configurator.py'),('__str__ of commands, replies, preambles, frames',RF+'epcstd.py'),('Tag.describe, __str__, to_long_string',RF+'objects.py')],
 ['str() of the objects','the printed table'])
prop('C05','Figures of the experiments are saved and numbered as asked for',
 'Saving a figure writes it once for each requested extension (pdf and png by default), as <directory>/<name without surrounding blanks>.<extension> (directory images by default), and nothing without a name. '
 'The tick formatter is set on the requested axes (x, y, both or none) of every plot given, alone or in lists and tuples, exactly on the platforms named (Linux by default, everywhere if none is named); it writes whole numbers plainly, other numbers as the locale does, and anything else as its text.',
 ['inputs','configurations'],'every name, list of extensions, directory, platform, nesting of plots and tick value',
 'No test imports the helpers of the notebook.',
 ['pysim/experiments/utility/graphs_style.py'],[('savefig, set_axes_formatter','pysim/experiments/utility/graphs_style.py')],
 ['plt.savefig()','set_major_formatter()'])
prop('P01','Ping-pong: one ping in flight, right delays, bounded number of pings',
 'At any time exactly one continuation event is pending: a ping travels for the channel delay, is lost with the given probability, otherwise is served for the service delay and answered by a pong with the same number that travels back for the channel delay; the next ping with the next number is sent one interval after the pong arrived or after the loss. '
 'The client never sends more than the maximum number of pings, and then stops the run.',
 ['schedules','configurations'],'every parameter set, every outcome of the random losses',
 'The ping-pong test file is empty.',
 [PP+'model.py',PP+'handlers.py'],[('Client/Server/Channel handlers',PP+'model.py'),('initialize',PP+'handlers.py')],['scheduled events of each handler'])
prop('P02','Ping-pong: every ping is counted once and results follow from the counts',
 'Every sent ping is counted once as sent and, by the next timeout, once as acknowledged or missed; a pong with a foreign number is only counted as bad. '
 'The reported miss rate is the share of sent pings without a matching pong, the reported average interval and delay are the means over all waits and transmissions of the run.',
 ['schedules','inputs'],'every run with at least one ping, whatever is lost',
 'The ping-pong test file is empty.',
 [PP+'model.py',PP+'handlers.py'],[('counters',PP+'model.py:Client'),('finalize',PP+'handlers.py')],['Result'])
prop('T01','Tag-time: transitions follow the chosen scenario',
 'From a state, the tag succeeds with that state\'s probability and moves to the next state (through all chunks of the last state in scenario 3 before it is finished); on failure it returns to the first state in scenario 1 and stays where it is in scenarios 2 and 3. '
 'Every step plans exactly one continuation, and reaching the final state counts one transmission, resets chunk progress and starts over.',
 ['schedules','configurations'],'every scenario, probability vector, chunk count and random outcome',
 'The only tag-time test does not import (module renamed), so nothing is exercised.',
 [TT+'model.py'],[('State handlers',TT+'model.py:State'),('choose_state',TT+'model.py:Model')],['scheduled events'])
prop('T02','Tag-time: each attempt costs its state\'s time, and the run ends on time',
 'Each attempt in a state, successful or not, takes exactly the processing time of that state and state changes themselves take no time. '
 'The run stops at the first attempt after the requested number of transmissions, never earlier and never later; each state is built from its own probability and time.',
 ['schedules','configurations'],'every scenario, time vector and random outcome',
 'The only tag-time test does not import.',
 [TT+'model.py',TT+'handlers.py'],[('State handlers',TT+'model.py:State'),('Model construction',TT+'model.py:Model')],['scheduled delays','stop()'])
prop('T03','Monte-Carlo and analytic models describe the same chain as the simulation',
 'For each scenario the transition matrix has success probability to the next state and failure probability to the first or the same state, the last state absorbing, and is accumulated along rows; a Monte-Carlo trial adds the time of every visited state until absorption and picks the next state by the row of the current one. '
 'The analytic formulas and their dispatch use the same chain, pair each probability with its own time, and report milliseconds.',
 ['inputs','configurations'],'every probability and time vector, scenario and chunk count',
 'No test touches these modules.',
 [TT+'mc.py',TT+'analitical_model.py'],[('create_matrix_*',TT+'mc.py'),('monte_carlo',TT+'mc.py'),('calculate_*_case, run_analitica',TT+'analitical_model.py')],['returned matrices and times'])
prop('T04','Tag-time inputs: data is conserved in chunks and paired with lengths and times',
 'Splitting a message into chunks conserves the number of words and yields one reply per chunk; every state\'s success probability is (1-BER) to the power of the length of that state\'s reply, in order, for every point. '
 'Every state\'s time is the duration of its command and its reply plus the turn-around times of the configured link.',
 ['inputs','configurations'],'every word count, chunk count, BER vector and link configuration',
 'No test touches these modules.',
 [TT+'calculate_params.py'],[('calculate_chunks',TT+'calculate_params.py'),('create_replies/build_messages_df',TT+'calculate_params.py'),('prepare_probs/prepare_times',TT+'calculate_params.py')],['returned probabilities and times'])
prop('E01','Commands and replies have the bit layout of the air-interface standard',
 'Each reader command is encoded as its fields in the standard order, each with the standard code and width (extended bit vector for pointers), and its length is the number of its bits; field values out of range wrap to the field width. '
 'Each tag reply has the standard length for its content, and payloads given as hexadecimal text or as a collection of bytes are equivalent; invalid bytes are rejected. An omitted parameter means the documented default, and a given one (including zero or False) is used as given.',
 ['inputs'],'every field value of every command and reply',
 'No test touches the protocol library.',
 [RF+'epcstd.py'],[('encode_* helpers and Command.encode',RF+'epcstd.py'),('Reply.bitlen, to_bytes',RF+'epcstd.py')],['encode()','bitlen'])
prop('E02','Air time of frames follows from their bits, and all ways to compute it agree',
 'A reader frame lasts its preamble (delimiter, data-0 and RTcal, plus TRcal for Query only) plus one data-0 or data-1 time per encoded zero or one; a tag frame lasts preamble, reply and one closing bit at the tag bit rate. '
 'The helper functions that compute durations from parameters give the same result as the frame objects for every command and reply, and the reader itself sends Query with the full preamble and everything else with frame-sync.',
 ['inputs','configurations'],'every command, reply, encoding, preamble kind and link timing',
 'No test touches the protocol library.',
 [RF+'epcstd.py',RF+'objects.py'],[('ReaderFrame/TagFrame',RF+'epcstd.py'),('*_duration helpers',RF+'epcstd.py'),('reader state enter()',RF+'objects.py')],['duration values'])
prop('E03','Link timings and frequency tolerance follow the standard table',
 'Backscatter frequency, bit rate and pulse interval follow from divide ratio, TRcal and encoding; the minimal and maximal values of T1 to T7 and the frequency tolerance are those of the standard for every divide ratio, TRcal range and temperature range. '
 'All accessors of one timing return the same value for the same link, and timing indices outside 1..7 are rejected.',
 ['inputs','configurations'],'every divide ratio, RTcal, TRcal and temperature range',
 'No test touches the protocol library.',
 [RF+'epcstd.py'],[('get_blf, tag_bitrate, get_pri, get_frt',RF+'epcstd.py'),('min_link_t, max_link_t, link_t*',RF+'epcstd.py')],['returned timings'])
prop('E04','Every command and reply kind is dispatched to its own handling',
 'Each kind of reader command reaches the tag behaviour for that command, each kind of tag reply reaches the reader behaviour for that reply in every reader state, and each command or reply code is handled by the duration dispatchers; an unknown kind is rejected with an error. '
 'No kind is handled as another one or silently ignored.',
 ['inputs'],'every command and reply type in every state',
 'No test sends a command to a tag or a reply to a reader.',
 [RF+'objects.py',RF+'epcstd.py'],[('Tag.receive',RF+'objects.py'),('Reader.receive, Reader.State delegation',RF+'objects.py'),('command_duration, reply_duration',RF+'epcstd.py')],['returned frames, raised errors'])
prop('E05','Session flags, select flags and their codes behave as the standard says',
 'Inverting an inventory flag gives the other one; a select flag matches all tags, only selected, or only unselected ones; after a power loss session S0 is always A and the other sessions keep the stored flag unless the outage lasted longer than the persistence time, an unset flag counting as A. '
 'Codes and indices of sessions, targets, select flags, encodings, divide ratios and memory banks are those of the standard, distinct within each kind.',
 ['inputs'],'every flag, session, outage length and stored value',
 'No test touches the protocol library.',
 [RF+'epcstd.py'],[('Session.power_on_value',RF+'epcstd.py'),('InventoryFlag.invert, SelFlag.match',RF+'epcstd.py'),('enum tables',RF+'epcstd.py')],['return values'])
prop('E06','Slot durations and the table of elementary timings add up from frames and waits',
 'The estimated duration of a slot is the opening command (Query in the first slot, QueryRep otherwise) and what follows it: in an empty slot the longer of T1max+T3 and T4; otherwise the longer of T1min+RN16+T2min and T4, after a collision nothing more, else the Ack and the longer of T1min+identifier reply+T2min and T4, and for an access slot each Read and the longer of T1min+data reply+T2min and T4; other operations are refused. '
 'The least and greatest durations are those of the shortest and longest encodings of all fields, and the table of elementary timings holds the given or default settings, the air time of each command and reply with them, and the least and greatest T1 to T7, printed with one named line each, times in microseconds.',
 ['inputs','configurations'],'every Tari, RTcal, TRcal and delimiter, all slot kinds, lists of operations and field values',
 'No test touches the air-interface module.',
 [RF+'epcstd.py'],[('slot_duration, slot_duration_min/max',RF+'epcstd.py'),('get_elementary_timings, prettify_elementary_timings',RF+'epcstd.py')],['returned durations and tables'])
prop('R01','The reader follows the inventory protocol in every state',
 'A reply to Query, QueryRep or QueryAdjust makes the reader acknowledge with the received random number; after an acknowledged identifier it requests a handle and reads memory if reading is enabled, using the latest number received, and otherwise, as after a read or any timeout, goes on with the next slot. '
 'A reply that is impossible in the current state is an error, in the off state all replies are ignored, turning off from any state leads to the off state with transmitter power none, and each state change is announced to listeners once with old and new state.',
 ['histories','inputs'],'every reader state and every event in it',
 'No test touches the RFID model.',
 [RF+'objects.py'],[('_ReaderState subclasses',RF+'objects.py'),('Reader.set_state/receive/timeout/turn_on/turn_off',RF+'objects.py')],['next command frame','reader.state'])
prop('R02','A round has 2^Q slots, opened by Query and QueryRep, with paired notifications',
 'Each inventory round consists of exactly 2^Q slots, for the Q in force when its first slot ends: a Q changed during the first slot counts at once, one changed later with the next round; the first slot is opened by Query and each further one by QueryRep, and after the last slot a new round with the next number begins. '
 'Start and finish of every slot and round are announced exactly once each, in nesting order, with the right round and slot numbers, also when power is switched off; each listener is called with its own arguments until it is removed.',
 ['histories','configurations'],'every Q, every sequence of slots, rounds and power cycles',
 'No test touches the RFID model.',
 [RF+'objects.py'],[('_ReaderRound/_ReaderSlot',RF+'objects.py'),('Reader.next_slot/stop_round',RF+'objects.py'),('Listeners',RF+'objects.py')],['slot/round listeners','opening commands'])
prop('R03','A tag answers only when powered, addressed and allowed to',
 'An unpowered tag never answers and does not change; a tag answers Query, QueryRep or QueryAdjust with a fresh random number only when its slot counter is zero, draws the counter uniformly from 0..2^Q-1, takes part only if session flag and select flag match and only in rounds of its own session, and counts down one per QueryRep. '
 'It answers ACK only in the reply state and ReqRN and Read only in later states, and only when the command carries its current number; a wrong acknowledgement sends it back to arbitration. Replies carry its identifier, or as many words of the requested memory as asked for, in the encoding and at the rate ordered by the last Query.',
 ['histories','inputs'],'every tag state and every command with any field values',
 'No test touches the RFID model.',
 [RF+'objects.py'],[('Tag.process_*',RF+'objects.py'),('Tag.receive',RF+'objects.py')],['returned frame','tag.state'])
prop('R04','An acknowledged tag flips its session flag exactly once',
 'A tag that was acknowledged flips the inventory flag of the session of its round exactly once, at the next Query, or QueryRep or QueryAdjust of that session, and no other flag; tags that were not acknowledged keep their flags. '
 'A tag whose flag no longer matches the target stays out of the round, and losing power before the flip leaves the flag to the persistence rule.',
 ['histories'],'every command history a tag can see',
 'No test touches the RFID model.',
 [RF+'objects.py'],[('flag inversion in process_query/process_query_rep/process_query_adjust',RF+'objects.py')],['tag session flags'])
prop('R05','Tag power: switched by the sensitivity threshold, with consistent bookkeeping',
 'An unpowered tag powers up exactly when the received power exceeds its sensitivity and a powered one drops out exactly when it is missing or below it; otherwise only the stored power is updated. '
 'Powering up applies the persistence rule to all four sessions with the length of the outage and leaves the tag ready; powering down remembers the moment and forgets power and the current round; transmit power is received power plus modulation loss, or none without power. Setting a tag up puts all flags to A and clears number, slot and round, ready when powered and off otherwise.',
 ['histories','inputs'],'every sequence of received power levels and times',
 'No test touches the RFID model.',
 [RF+'objects.py'],[('Tag.set_power/_power_on/_power_off',RF+'objects.py')],['tag.state, tag.power, session flags'])
prop('R06','Q adaptation moves Q by one step within 0..15 and tells the tags',
 'With adaptation on, an unanswered slot lowers and a collision raises the floating Q by the configured step, clamped to 0..15, only if the slot was opened by Query or QueryRep (an unanswered slot at Q 0 and a collision at Q 15 leave it alone); when its rounded value then differs from Q by one, the reader adopts it and sends QueryAdjust with the matching direction, otherwise it goes on as after a timeout. '
 'With adaptation off Q never changes. A tag changes its own Q by the announced direction only if the result lies within 0..15, and then redraws its slot.',
 ['histories','configurations'],'every history of empty, single and collided slots',
 'No test touches the RFID model.',
 [RF+'handlers.py',RF+'objects.py'],[('_no_tag_response/_multiple_tag_response',RF+'handlers.py'),('Tag.process_query_adjust',RF+'objects.py')],['reader.q','QueryAdjust frames'])
prop('R07','One transaction at a time, timed by the link rules, closed by power-off',
 'Every command opens one transaction that ends after the maximum of command+T1+longest reply+T2 and command+T4, or after the reader\'s timeout if no tag replies, with replies starting T1 after the command; at its end exactly one next command is issued, and a power update is planned for the response start exactly when there are replies. '
 'While powered in periodic mode the reader is switched off after its on-time and on again after its off-time; switching off cancels the pending events of the open transaction and of antenna switching.',
 ['schedules','histories'],'every sequence of commands, replies and power cycles',
 'No test touches the RFID model.',
 [RF+'handlers.py',RF+'objects.py'],[('Transaction',RF+'objects.py'),('turn_reader_on/turn_reader_off/finish_transaction',RF+'handlers.py'),('power control modes, antenna switching',RF+'objects.py, '+RF+'handlers.py')],['scheduled events and delays'])
prop('R08','Tags are born, move and die on schedule, and each is accounted for',
 'Each generator creates tags at its intervals up to its limit, every tag with its own number, identifier and memory built from the generator settings; a tag lives for travel distance divided by velocity, moves by velocity times elapsed time along its direction at every update, and is removed exactly once. '
 'Positions are updated at the configured interval for the whole run, and the run stops when the requested number of tags has been simulated.',
 ['schedules','configurations'],'every generator configuration and number of tags',
 'No test touches the RFID model.',
 [RF+'handlers.py',RF+'objects.py'],[('start_simulation/generate_tag/remove_tag/update_positions',RF+'handlers.py'),('Generator',RF+'objects.py')],['tags in the model','scheduled events'])
prop('R09','Inventory statistics count each tag and each event once',
 'Each created tag has one record, moved to the history when the tag is removed; a round is counted once for each tag taking part at each Query, an identifier received opens one read record of that tag with round, antenna, positions and quality, memory received marks it, and it is closed into the tag\'s history at the end of the slot or with the tag. '
 'Inventory and read probabilities are the shares of finished tags with at least one read record and one with memory, and the average number of rounds is taken over finished tags; a read of a tag that has meanwhile been removed does no harm. With power statistics on, each power update adds one record of the moment per tag. Each Q adjustment that a tag adopts is counted in its record, and the list of these counts follows the order in which tags left.',
 ['histories'],'every history of rounds, reads and tag removals',
 'No test touches the RFID model.',
 [RF+'objects.py',RF+'handlers.py'],[('Statistics, _TagRecord',RF+'objects.py'),('_build_transaction, _one_tag_response',RF+'handlers.py')],['statistics object'])
prop('R10','Link budgets add the right powers, gains and losses, and use the medium settings',
 'The power received by the tag is reader power plus forward path loss plus both antenna gains and both cable losses, the power received by the reader the same with tag transmit power and backward path loss, and none without transmitter power; each direction uses its own positions, velocities and antenna patterns, the configured medium, and the time since the field was switched on (zero without Doppler). '
 'Signal quality is computed from that power, the reader noise, and the actual encoding, rate and preamble of the reply, with the configured error model, and logarithmic conversions are inverse to each other.',
 ['configurations','inputs'],'every medium, reader and tag configuration',
 'No test touches the RFID model.',
 [RF+'objects.py',RF+'channel.py'],[('Medium',RF+'objects.py'),('to_log/from_log/snr/snr_full/ber',RF+'channel.py')],['estimated powers, SNR, BER'])
prop('R11','Exactly one undamaged reply is received, collisions never are',
 'A transaction delivers a frame only if exactly one tag replied, and then with probability (1-BER) to the power of the reply length, together with that tag, its SNR and BER; otherwise nothing is received. '
 'All tags that answer a command, and only they, are part of the transaction; a received frame is handed to the reader once and a missing one is handled as empty slot or collision.',
 ['histories','inputs'],'every number of replying tags and every random outcome',
 'No test touches the RFID model.',
 [RF+'objects.py',RF+'handlers.py'],[('Transaction.received_tag_frame',RF+'objects.py'),('finish_transaction, _build_transaction',RF+'handlers.py')],['received frame, next command'])
prop('R12','Path loss, antenna, reflection and error formulas describe the two-ray channel',
 'The attenuation between two antennas (receiver polar direction without component along the track axis y, velocities along the wall) is wavelength/4pi times the sum of the direct ray and the ray reflected by the wall x=0 (image of the receiver), each with both antenna patterns in its direction, over its length, with phase -2pi/wavelength times length minus time times rate of change, and the reflected one times the wall coefficient, which is asked once with its angle, the wavelength and the medium settings; it is returned as amplitude, as level in decibel, or as power. '
 'Isotropic, dipole and patch patterns, constant and Fresnel reflection mixed by polarization, sine, power and vector conversions, quality of a reply from raw ratio, symbols, preamble and bandwidth, and the error probability (Rayleigh or none; one half without signal) follow their formulas.',
 ['inputs','configurations'],'every geometry, velocity, pattern, material, wavelength and signal level (as real numbers; rounding excluded)',
 'No test touches the channel module.',
 [RF+'channel.py'],[('two_ray_pathloss, reflection, rp_dipole, rp_patch, rp_isotropic',RF+'channel.py'),('to_power, to_log, snr_full, ber, q_func',RF+'channel.py')],['returned values'])
prop('N01','Channel computations are numerically accurate',
 'Computed path loss, reflection coefficients, antenna patterns and bit error rates are within floating-point accuracy of the physical formulas, for every geometry.',
 ['inputs'],'every geometry and material','No test touches the channel module.',
 [RF+'channel.py'],[('two_ray_pathloss, reflection, ber',RF+'channel.py')],['returned values'])
prop('N02','Estimates converge to the analytic values',
 'With growing numbers of transmissions, trials or tags the simulated and Monte-Carlo times and probabilities converge to the analytic ones.',
 ['inputs','schedules'],'every parameter set, in the limit of many trials','No test compares them.',
 [TT+'mc.py',TT+'analitical_model.py',TT+'model.py'],[('models',TT)],['means over runs'])
prop('N03','Real-time limits and run times are kept in wall-clock time',
 'A run with a real-time limit ends within one handler duration of the limit in wall-clock time, and sweeps use the available processors.',
 ['schedules','configurations'],'every machine load','One test checks one limit with a tolerance of 50 ms.',
 [SIM],[('real_time_elapsed',SIM)],['wall clock'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
