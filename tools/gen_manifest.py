"""Write MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'N01': 'pure function of one stream; no schedule, time, I/O, fault or history is involved, so there is nothing to simulate',
 'N02': 'pure numerical function of slowness, phase, reference and model; nothing to simulate (its history independence is R09)',
 'N03': 'pure numerical function of model, slowness and back azimuth; nothing to simulate',
 'N04': 'pure numerical convention of one stream; nothing to simulate',
 'N05': 'pure least-squares fit of its input; nothing to simulate (order independence of its input is R11)',
 'N06': 'pure geometry of its arguments; nothing to simulate',
 'N07': 'pure rendering of its input; nothing to simulate (that plotting leaves the input alone is part of R13)',
 'N08': 'pure arithmetic on times of one trace; nothing to simulate',
}
NOTES = {
 'R01': 'seeded search over answer faults of the simulated data centre and ray tracer; sampled, not exhaustive',
 'R02': 'seeded search; every delivered sample is identified by channel and time against the simulated ground truth',
 'R03': 'seeded search over the instant of the interrupt (requests, ray tracer, progress display, disk operations)',
 'R04': 'seeded search over kill instants (with torn writes) and numbers of restarts; HDF5 only killed between file updates',
 'R05': 'seeded search over failing disk operations, full disks and interrupts while saving',
 'R06': 'seeded search over save/read/convert histories, process death right after the acknowledgement',
 'R07': 'seeded search over damaged, missing and unreadable records and read errors',
 'R08': 'seeded differential search, command line chains against library calls',
 'R09': 'seeded search over operation histories (including failing operations), compared with a fresh process per operation',
 'R10': 'seeded search over thread interleavings at line granularity of rf and obspyh5, compared with sequential runs',
 'R11': 'seeded search over arrival orders and losses, compared with each group processed alone',
 'R12': 'seeded search over arrival orders, sources ending early or failing, compared with an independent accumulator model',
 'R13': 'seeded search over sequences of derivations, requests and in-place processing with deep state comparison after every step',
 'R14': 'seeded search over interleavings of several batch jobs at data-request, disk-operation and line granularity',
 'R15': 'seeded fault injection into set-up (files, reads, data source, options), with comparison of all files, requests and progress',
 'R17': 'seeded search over failing operations on the output of batch commands, with bookkeeping of what follows the failure and a repetition',
 'R18': 'seeded search over surroundings (clock, listing order, paths, time zone, random state), compared with a run in plain surroundings',
 'R19': 'seeded search over thread schedules of retrievals and batch commands with failing requests, compared with each thread alone',
 'R16': 'seeded interleaving of consumers and observation of requests, files and live records whenever work turns to another record',
}


def main():
    props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
    claimed = [p['id'] for p in props if p['id'] not in NA and os.path.exists(
        '%s/dst/props/%s.py' % (HERE, p['id'].lower()))]
    checks = [{
        'property': i,
        'quick_cmd': './check %s' % i,
        'thorough_cmd': './check %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation with fault injection (seeded '
                     'search over faults, schedules and histories)',
        'level': 'exploration',
        'level_note': NOTES[i]} for i in claimed]
    na = [{'property': p['id'], 'reason': NA.get(
        p['id'], 'the check is under construction')}
        for p in props if p['id'] not in claimed]
    man = {'version': 1, 'setup_cmd': './check setup', 'checks': checks,
           'not_applicable': na}
    with open(HERE + '/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        jsonschema.validate(man, json.load(open(
            '/root/.vp/MANIFEST.schema.json')))
    except ImportError:
        print('not validated')
    print(len(checks), 'checks')


main()
