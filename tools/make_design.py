"""Writes the generated part of DESIGN.md: the rules of every property (from spec/) and the planted bugs (from seeded/)."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/make_design.py from here on -->'

HOW = {
    'S01': 'Oracle: a reference queue ordered by (time, number), written in spec/refsim.py. Times and delays are unknown reals; every order of three or four of them is a region of the comparison. `shuffled` and `crowd` fix the order of up to 60 events and leave their handlers unknown.',
    'S02': 'Handlers are unknown callables; each call is an effect with handler, simulation object and arguments. The effect logs of code and oracle must be the same on every path.',
    'S03': 'Cancellation with known and unknown identifiers, from handlers and from outside; the remaining events and the queue lengths are compared.',
    'S04': 'Limits, times and wall-clock readings are unknown (each possibly None); which condition ends the run is compared for every ordering of them.',
    'S05': 'As S04, on the fields of the result object.',
    'S06': 'Initializer, finalizer, context and what they return are unknown; identity of objects is part of the value. Also: errors raised by them reach the caller.',
    'S07': 'Part 1: pairs of runs/objects, in turn and nested, against the single run. Part 2 (rules/S07.py): the rules of all other properties are interpreted again with a monitor on writes to anything that existed before (class, module, default argument, singleton); plus a syntax-tree rule over every function of the package, also those that no rule reaches.',
    'L01': 'logging is modelled in lib/logging.py (records with level, message, arguments, exc_info, extra); the clock is an unknown callable.',
    'L02': 'Configurations with every field given or not; the handlers attached, their levels and formats are compared, and what they write for a record.',
    'C01': 'pkgutil/importlib/click are modelled; the package directory is an unknown set of modules with and without commands.',
    'C02': 'Pool.map is map; configurator.run_model or the simulation is replaced by a recording stand-in; values are distinct, unsorted, repeated. Also what is printed, saved and plotted, and the reported run times.',
    'C03': 'Each option/field is an own unknown value; where it arrives is compared (a provenance analysis). Refused values: each declared choice or type of the options.',
    'C04': 'All texts, with unknown field values: format directives, order and names of fields.',
    'C05': 'Calls of the plotting library are effects; the platform is an unknown text, tick values are unknown whole, real or textual values.',
    'P01': 'A whole journey of a ping through the four nodes, the loss drawn arbitrarily; induction step: whatever the count so far, and whatever the bound.',
    'P02': 'Counters after any short history, and the induction step from arbitrary counters.',
    'T01': 'For each scenario and state one step with an arbitrary draw, plus the chunk counter over whole transmissions.',
    'T02': 'As T01, for delays and stopping.',
    'T03': 'Closed forms of the three scenarios, compared as rational functions of unknown probabilities and times; one trial of the Monte-Carlo loop against the row of its state.',
    'T04': 'Chunk lengths for unknown numbers of words and chunks (div/mod reasoning), formulas as terms.',
    'E01': 'Bit strings as concatenations of fields with unknown values; oracle in spec/epcref.py, written from the Gen2 standard.',
    'E02': 'Durations as linear forms of tari, RTcal, TRcal, Delim and the bits of the fields; the oracle counts symbols itself.',
    'E03': 'T1..T7 and the tolerance table for unknown RTcal, TRcal, temperature: piecewise formulas compared region by region.',
    'E04': 'Every kind of command in every tag state, every kind of reply in every reader state; the kind not handled elsewhere must be refused.',
    'E05': 'Truth tables over all members of the code enumerations; unknown times for persistence.',
    'E06': 'Each kind of slot as a sum of frames and waits (the pieces are those of E02/E03); greatest and least slot by bounds of max/min terms.',
    'R01': 'All states times all stimuli, with unknown numbers; whole exchanges over several rounds.',
    'R02': 'Rounds for Q of 0..4 (0..6 thorough), listeners told in order; Q changed in and between rounds.',
    'R03': 'All tag states times all commands with unknown or foreign numbers, unknown slot counters and draws.',
    'R04': 'Command histories from any acknowledged/other state; all four flags are compared.',
    'R05': 'Power above, at and below sensitivity from each state; unknown off-times against persistence.',
    'R06': 'The real step Q_fp is unknown in each region (stay, step, jump) of each Q 0..15; tags at the ends.',
    'R07': 'Delays of planned events as terms; scripted tags stand in for tags; courses over several commands and power cycles.',
    'R08': 'Generators with unknown intervals, limits, directions and velocities; positions as vectors of terms.',
    'R09': 'Histories of reads, losses, collisions, removals and power cycles; the statistics records and the shares.',
    'R10': 'Sums of powers, gains and losses as terms; BER from the configured distribution.',
    'R11': 'Chance of reception as a power of the bit success probability; which tags take part.',
    'R12': 'Formulas of pattern, reflection, path loss and error rates; compared in normal form and, if they look different, at sampled points (random interpretation of terms, engine/sample.py), within the domain stated in the property.',
}


def main():
    props = {}
    for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
        d = json.loads(l)
        props[d['id']] = d
    out = ['', '## Properties, rules, and what decides them', '',
           'Every rule is a class in `spec/<ID>.py`; each is evaluated for all its parameters (more of them in the thorough tier).', '']
    for i, d in props.items():
        f = os.path.join(HERE, 'spec', i + '.py')
        if not os.path.exists(f):
            continue
        out.append('### %s %s' % (i, d['title']))
        out.append('')
        out.append(HOW[i])
        out.append('')
        for n in ast.parse(open(f, encoding='utf-8').read()).body:
            if isinstance(n, ast.ClassDef):
                doc = (ast.get_docstring(n) or '').split('\n')[0]
                names = {b.name for b in n.body if isinstance(b, ast.FunctionDef)}
                if 'expected' in names:
                    out.append('* `%s`%s' % (n.name, ': ' + doc if doc else ''))
        out.append('')
    out += ['## Planted bugs', '',
            'All are caught by the check of their property (`tools/plant.py` applies, builds, tests, demonstrates and checks each).', '',
            '| bug | caught by | needs | breaks |', '|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m, encoding='utf-8'))
        out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks']))
    p = os.path.join(HERE, 'DESIGN.md')
    s = open(p, encoding='utf-8').read()
    s = s.split(MARK)[0].rstrip() + '\n\n' + MARK + '\n' + '\n'.join(out) + '\n'
    open(p, 'w', encoding='utf-8').write(s)


if __name__ == '__main__':
    main()
