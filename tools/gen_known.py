"""Write known_findings.json (commits are looked up by subject)."""
import json
import subprocess

FIXED = [
    ('R01', 'skip event-station pair if data source returns no stream',
     'a data source returning None for one pair ended the whole data command'),
    ('R01', 'skip event-station pair if its data cannot be merged',
     'pieces with different sampling rates or types of one pair ended the '
     'whole data command'),
    ('R01', 'skip events without origin',
     'an event without origin ended the whole iteration'),
    ('R05', 'restore station codes if writing of Q file fails',
     'a failed Q write left the seed id in the station codes of the stream'),
    ('R05', 'restore index of obspyh5 if writing of H5 file fails',
     'a failed H5 write left the process with the index of rf'),
    ('R06', 'do not write headers of other formats to H5 files',
     'a stream read from SAC or Q could not be written to H5 and read back '
     'with equal headers'),
    ('R09', 'calculate delay times anew for other reference slowness',
     'moveout used delay times of a previous call with another reference '
     'slowness'),
    ('R09', 'model files with equal relative path in different directories '
            'are different models',
     'after a change of the working directory the same relative path of a '
     'model file gave the model of the first directory'),
    ('R13', 'stack does not share processing information with its input',
     'appending to the processing of a stack changed its input'),
    ('R13', 'profile does not share processing information with its input',
     'appending to the processing of a profile changed its input'),
    ('R13', 'return copy of data which is hold in memory',
     'processing of data retrieved from a file held in memory changed what '
     'is retrieved later'),
    ('R12', 'stack takes metadata of each id from traces with that id',
     'stack of several ids took its headers from other ids'),
    ('R12', 'edges of profile boxes follow the geodesic and are shared by '
            'neighbours',
     'piercing points between two neighbouring boxes were counted in none or '
     'in both'),
    ('R12', 'profile boxes may cross the date line',
     'piercing points in a box across the date line were not counted'),
    ('R11', 'keep phases of traces in stream with several phases',
     'rf() wrote the phase of the first trace into all other traces'),
    ('R04', 'stack command replaces stacks of H5 file if run again',
     'a repeated stack command added further traces to the H5 file'),
    ('R08', 'names of records do not depend on precision of event time in '
            'file formats',
     'calc or convert renamed records of events in the last half '
     'millisecond of a second'),
    ('R08', 'other bands of same station are records of their own',
     'profile counted stations with two bands twice'),
    ('R02', 'metadata of events are not replaced by headers in files of the '
     'data source',
     'headers of SAC, Q or H5 files which the data source serves replaced '
     'the metadata which were computed for the pair'),
    ('R06', 'distance and back azimuth are not calculated anew when writing '
     'SAC files',
     'traces which were read from SAC files of other programs (lcalda true) '
     'got another distance and back azimuth when they were saved as SAC'),
    ('R15', 'failed import of a plugin does not change the module search '
     'path',
     'the current directory stayed on the module search path of the process '
     'after the import of a plugin had failed'),
    ('R15', 'data command does not accept the same step twice',
     'the data command with calc (or moveout) given twice was not rejected '
     'but calculated receiver functions of receiver functions'),
    ('R10', 'write H5 files with one index at a time',
     'threads writing to separate H5 files used the index of each other'),
    ('R14', 'directory of records may be created by another process',
     'a job failed if another one created the output directory at the same '
     'time'),
    ('R08', 'batch commands accept events which are in memory',
     'run_commands refused a catalogue given as an object'),
    ('R08', 'batch commands do not change options of their caller',
     'entries were removed from the option dictionaries of the caller'),
]
FINDINGS = [
    {'id': 'K1', 'property': 'R08', 'cls': 'bands:Q',
     'key': "['data']: ['CX.ST00..BHE', 'CX.ST00..BHN', 'CX.ST00..BHZ']",
     'what': 'names of Q records do not contain the band: of a station with '
             'two bands (BH and LH) at one location only the records of the '
             'band which is written last survive the data command'},
] + [
    {'id': i, 'property': 'R08', 'cls': 'samesec:' + fmt,
     'key': "['data']: 3 of 6",
     'what': 'names of %s records contain the event time without fractions '
             'of a second: of two events in the same second only the records '
             'of the event which is retrieved last survive the data command'
             % fmt}
    for i, fmt in (('K2', 'Q'), ('K3', 'SAC'))]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                         capture_output=True, text=True).stdout.splitlines()
    subj = {l.split(' ', 1)[1]: l.split(' ', 1)[0] for l in log}
    fixed = []
    for p, s, what in FIXED:
        if 'fix: ' + s in subj:
            fixed.append('fixed: property=%s %s %s' % (p, subj['fix: ' + s],
                                                       what))
        else:
            print('no commit', s)
    with open('/verif/known_findings.json', 'w') as f:
        json.dump({'findings': FINDINGS, 'fixed': fixed}, f, indent=1)
        f.write('\n')


main()
