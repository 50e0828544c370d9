#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                               mechanism=[dict(zip(('name', 'where'), m)) for m in mechanism],
                               observe_at=list(observe), hook_needed=hook)))


p('R01', 'A failed retrieval costs exactly its own event-station pair',
  'While waveform data are retrieved for a catalogue of events and an inventory of stations, every pair whose ray parameters can be '
  'computed and whose answer holds complete, gap-free three-component data for the request window is delivered exactly once, whatever '
  'happens to the other pairs. A pair for which the data source raises an error, answers nothing, answers with other than three components '
  'or with gaps, conflicting overlaps or unmergeable segments inside the window, or whose event or station information is unusable or out '
  'of range, is left out without ending the retrieval. The progress indicator is told the true number of pairs and advances once per pair.',
  ['fault_sequences', 'histories', 'configurations'],
  'every catalogue/inventory, every assignment of data-source faults to pairs, every way of wiring the data source (callable, client, '
  'plugin, files), several iterations interleaved',
  'The tests retrieve 7 healthy events from one local file for one station; no request ever fails, no response is ever gappy, split, empty or absent.',
  ['rf/util.py', 'rf/batch.py'],
  [('iter_event_data: try/continue around coordinates, ray parameters, retrieval; component count and mask checks', 'rf/util.py iter_event_data'),
   ('init_data wrapper turning source errors into a message and no data', 'rf/batch.py init_data')],
  observe=['streams yielded by the event-data iterator', 'files written by the data command', 'progress bar total/count'])

p('R02', 'Delivered streams hold the true samples and metadata of their own pair',
  'Each stream delivered by event-data retrieval has three gap-free components cut to the request window around the theoretical onset, and '
  'every sample equals what the data source holds for that channel at that time, however the answer was split, reordered, duplicated or padded. '
  'Its station, event, onset, distance, back azimuth, slowness and inclination metadata are those of its own event and its own station at the '
  'origin time. The data source is asked for exactly that channel set and the request window widened by the pad.',
  ['fault_sequences', 'histories', 'inputs'],
  'every packetisation, order and duplication of the answer; every catalogue, epoch history of the stations, phase, window and pad',
  'The tests only count the files produced from one fully healthy file.',
  ['rf/util.py', 'rf/rfstream.py', 'rf/batch.py'],
  [('request window, trim, merge, stats.update', 'rf/util.py iter_event_data'), ('rfstats / obj2stats', 'rf/rfstream.py')],
  observe=['requests seen by the data source', 'data and stats of yielded streams'])

p('R03', 'Interrupt and exit requests stop the work and are never swallowed',
  'A keyboard interrupt or exit request that arrives at any time while the library works (waiting for the data source, the travel-time calculation, the progress '
  'display or a file read or write, or between any two of its own lines of code) ends the running iteration or batch command with that same exception; it is never counted as missing data, '
  'never followed by further data requests or further output for later pairs. Output files finished before it stay complete and unchanged.',
  ['fault_sequences', 'crash_points'],
  'every point at which control is outside the library (each data request, ray computation, progress update, file open/read/write) and every line of the library, every command and format',
  'No test raises an interrupt anywhere.',
  ['rf/batch.py', 'rf/util.py', 'rf/rfstream.py'],
  [('except (KeyboardInterrupt, SystemExit): raise', 'rf/batch.py init_data wrapper'), ('except Exception (not BaseException) clauses', 'rf/util.py, rf/batch.py')],
  observe=['exception leaving the iterator or command', 'request log', 'output files'])

p('R04', 'A killed batch command can simply be run again',
  'If a batch command is killed at any instant and run again to completion, any number of times, the output directory ends up with exactly the '
  'same records (names, samples, metadata) as one uninterrupted run, with nothing missing, duplicated or left over from the torn attempt. For '
  'HDF5 output this holds for kills that do not fall inside an HDF5 file update; SAC and Q output tolerate a kill at any file operation.',
  ['crash_points', 'histories', 'configurations'],
  'every file operation as kill point, torn last write, repeated kills, all commands (data, calc, moveout, convert, stack, profile) and formats',
  'The tests run each command once to completion in a fresh directory.',
  ['rf/batch.py', 'rf/rfstream.py'],
  [('deterministic per-record file names, overwrite on rewrite', 'rf/batch.py write, FNAMES'), ('HDF5 append mode with a content-derived index', 'rf/rfstream.py _H5INDEX, RFStream.write')],
  observe=['records read back from the output directory in a fresh process'])

p('R05', 'A failed save is reported and leaves no trace outside the target file',
  'When saving a stream fails for any reason (disk full, I/O error, missing or unwritable target, interrupt), the failure reaches the caller and '
  'the in-memory stream, its trace ids, data and metadata (apart from the format-specific header blocks), all library-wide settings and all other files are as they were before the call. Once the '
  'cause is removed (and a torn HDF5 file that was being appended to is put back), saving the same stream again succeeds and yields the same file contents as if the failure had never happened.',
  ['fault_sequences', 'crash_points', 'inputs'],
  'every stream, format (SAC, Q, HDF5), entry point (stream, trace, batch writer) and every file operation as failure point',
  'The tests never make a write fail.',
  ['rf/rfstream.py', 'rf/batch.py'],
  [('temporary station rename for Q, temporary HDF5 index', 'rf/rfstream.py RFStream.write')],
  state=[('obspyh5._INDEX', 'process-wide HDF5 index set while writing', 'rf/rfstream.py RFStream.write')],
  observe=['exception', 'in-memory stream', 'obspyh5 index', 'directory contents'])

p('R06', 'A completed save holds every sample and supported header',
  'Once saving a stream as SAC, Q or HDF5 has returned, the file holds all its traces even if the process dies right then: reading it gives the '
  'same trace ids, sampling, times and samples (to single precision for SAC and Q) and every rf header of the documented mapping table that was '
  'set, with the value it had when saved, in the documented field for SAC and Q. This holds for any history of saving, reading, changing headers, overwriting and converting between the formats.',
  ['inputs', 'histories', 'crash_points', 'fault_sequences'],
  'every combination of present/absent headers and legal values, any sequence of save/read/modify/convert steps, short writes and short reads, process death right after return',
  'Tests save one trace per format with one fixed header set and compare to two places.',
  ['rf/rfstream.py', 'rf/batch.py'],
  [('_HEADERS/_FORMATHEADERS mapping and conversions', 'rf/rfstream.py'), ('RFTrace._write_format_specific_header/_read_format_specific_header', 'rf/rfstream.py')],
  observe=['streams read back in a fresh process'])

p('R07', 'A damaged input record never harms the processing of the others',
  'When a batch command reads records of which some are missing, unreadable or damaged, or cannot be read because of I/O errors, it either stops with an '
  'error or produces for every undamaged record exactly the output it produces without the damage, and a damaged record affects at most its own output; nothing is invented or duplicated. '
  'Records that are missing or unreadable as a whole are skipped without stopping the commands calc, moveout, convert and profile. A stack or profile is absent or the mean of exactly the '
  'readable records. (A record that can be read but lacks components or headers may stop the command with an error.)',
  ['fault_sequences', 'inputs'],
  'every subset of damaged records and damage kinds (deleted, emptied, truncated, garbage, bit flips, open/read errors), every command and format',
  'The tests process only healthy directories.',
  ['rf/batch.py', 'rf/util.py'],
  [('try/except around reading one record', 'rf/batch.py iter_event_processed_data')],
  observe=['records in the output directory', 'exception leaving the command'])

p('R08', 'Batch commands equal the library calls they stand for, once per record',
  'For every event-station pair whose data could be retrieved, a chain of batch commands (data, calc, moveout, convert, stack, profile, plot, plot-profile) produces each '
  'record, stack, profile and plot exactly once, with the samples and headers that the corresponding library calls give on the retrieved stream, and nothing else. The result does not '
  'depend on whether steps run in one command or several, on the file formats used in between, or on whether options come from the configuration file, the command line or a Python call with events, '
  'stations and options as objects, which are left unchanged. A command repeated with other data of the same records replaces its earlier results completely.',
  ['histories', 'configurations', 'fault_sequences'],
  'every staging of the chain, every format per stage, every option source, repetitions with other data, every set of pairs lost to retrieval faults',
  'The tests run one fixed chain per format and count files; contents are not compared.',
  ['rf/batch.py', 'rf/util.py', 'rf/rfstream.py', 'rf/profile.py'],
  [('run_commands dispatch', 'rf/batch.py'), ('run: merge of configuration and command line', 'rf/batch.py')],
  observe=['records in the output of each stage'])

p('R09', 'Results do not depend on what the process did before',
  'The result of any operation (retrieving data for given events and stations, receiver functions, moveout to any reference, piercing points, ray parameters, stacking, profiles, harmonics, '
  'saving and loading, example data) depends only on its stream and arguments, not on which operations, with which parameters, models or formats, succeeded or failed earlier in the same process, and no operation, whether it succeeds or fails, changes process-wide settings.',
  ['histories', 'fault_sequences'],
  'every sequence of operations with arbitrary parameters by several clients sharing one process, including operations that fail halfway',
  'Tests call each operation with default parameters, mostly once per process; cached state is never exercised with a second parameter value.',
  ['rf/simple_model.py', 'rf/rfstream.py', 'rf/util.py', 'rf/deconvolve.py'],
  [('model cache and reference delay-time cache', 'rf/simple_model.py'), ('example cache', 'rf/util.py'), ('HDF5 index switch', 'rf/rfstream.py')],
  state=[('_MODEL_CACHE, SimpleModel.t_ref', 'process-wide caches', 'rf/simple_model.py'), ('obspyh5._INDEX', 'process-wide HDF5 index', 'rf/rfstream.py')],
  observe=['result of each operation compared with the same operation alone in a fresh process'])

p('R10', 'Threads working on separate streams get the sequential results',
  'When several threads each work on their own streams and files (processing, moveout, piercing points, profiles, saving and loading in any format), then under '
  'every interleaving each thread gets exactly the results it would get alone, no operation fails because of the others, and process-wide settings are unchanged once all are done.',
  ['schedules', 'histories'],
  'every interleaving at source-line granularity of up to four threads running arbitrary operation sequences on disjoint streams and files',
  'The tests are single-threaded.',
  ['rf/simple_model.py', 'rf/rfstream.py', 'rf/util.py'],
  [('shared caches filled on demand', 'rf/simple_model.py load_model, stretch_delay_times'), ('HDF5 index switch around writing', 'rf/rfstream.py RFStream.write')],
  state=[('obspyh5._INDEX', 'process-wide HDF5 index', 'rf/rfstream.py')],
  observe=['per-thread results', 'process-wide settings afterwards'])

p('R11', 'Each event-station group is processed alone, in any arrival order',
  'Receiver function calculation on a stream that mixes many events and stations gives every trace exactly the result it would get if its own three-component group '
  'were processed alone, whatever the order in which traces arrived and whatever components other groups lost or received in excess; a group that cannot be processed is left out or raises an error and never '
  'leaks into other groups. The same independence of trace order and '
  'of unrelated traces holds for ray parameters, moveout correction, piercing points and, with unique event times, the harmonic decomposition.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every arrival order of the traces, every loss or duplication of components in other groups, all deconvolution methods, both rotations, P and S',
  'Tests process one stream in its natural order and check peak positions.',
  ['rf/rfstream.py', 'rf/util.py', 'rf/deconvolve.py', 'rf/harmonics.py'],
  [('grouping by seed id and onset', 'rf/util.py IterMultipleComponents'), ('per-group rotate/deconvolve', 'rf/rfstream.py RFStream.rf')],
  observe=['data and stats per trace'])

p('R12', 'Stacks and profiles count every contributing trace exactly once',
  'A stack holds for each trace id the mean of exactly the traces with that id, with the station metadata and onset of that id; a profile holds for each box and component the mean '
  'and the number of exactly the traces of that component whose piercing point lies in that box, in order of position. Both are the same for every arrival order of the traces, and whether traces come as a stream, '
  'one by one from an iterator that may end early or fail, or in several files; traces outside all boxes contribute nowhere.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every arrival order, every loss and duplication of traces, any mixture of stations, components and piercing points, iterator or stream input',
  'The tests stack and profile one fixed stream and compare counts or one label.',
  ['rf/rfstream.py', 'rf/profile.py'],
  [('mean over traces with equal id', 'rf/rfstream.py RFStream.stack'), ('running sum per (position, component)', 'rf/profile.py profile')],
  observe=['data, num, box and id headers of the result'])

p('R13', 'Derived products never alter their inputs or the data source',
  'Stacking, profiling, harmonic decomposition, slicing, plotting, saving and copying leave samples, headers and processing history of the input traces unchanged, and stacks, profiles, harmonics, copies and saved files do not change when '
  'the inputs are processed further (slices are views as in ObsPy). Processing streams handed out by retrieval never changes what the data source delivers for later, possibly overlapping, requests.',
  ['histories', 'schedules'],
  'every interleaving of read-only and in-place operations by several clients sharing streams, and of retrieval with in-place processing of earlier results',
  'Tests never look at the inputs after an operation and never request overlapping windows.',
  ['rf/rfstream.py', 'rf/profile.py', 'rf/harmonics.py', 'rf/util.py', 'rf/batch.py', 'rf/imaging.py'],
  [('new arrays for stacked data', 'rf/profile.py, rf/rfstream.py'), ('slices of an in-memory data source', 'rf/batch.py init_data')],
  observe=['fingerprints of inputs, data source and results after every step'])

p('R14', 'Overlapping batch jobs on disjoint work do not interfere',
  'When several batch jobs run at the same time on different events or stations and write SAC or Q records into the same output directory, then under every interleaving of their data requests and file '
  'operations each job completes and the directory ends up with exactly the records that each job gives alone. A job that is killed part-way lacks only records of its own, and they are complete once it has been run again.',
  ['schedules', 'configurations', 'crash_points'],
  'every interleaving at data-request, file-operation and source-line granularity of two to four jobs sharing an output directory that may not exist yet, every point at which one of them is killed',
  'The tests run one job at a time.',
  ['rf/batch.py'],
  [('directory creation', 'rf/batch.py _create_dir'), ('one file set per record', 'rf/batch.py write')],
  observe=['exceptions of the jobs', 'records in the shared directory'])

p('R15', 'A command that cannot be set up does nothing and says so',
  'If a batch command cannot read its configuration, event file or station file (missing, damaged, of another kind, unreadable, hit by a read error), cannot create its data source, or is given an unknown option or the same processing step twice, it reports that by a message or an error, '
  'starts no work on any pair, requests no data, creates, changes and removes no file and leaves the settings of the process alone. Repeated after the cause is removed it works as if the failed attempt had not been made (print: it shows every event, station or trace that was asked for).',
  ['inputs', 'fault_sequences', 'configurations'],
  'every cause of a failing set-up, every position of damage and read error, every command and format, every state of the output directory',
  'The tests start commands with intact files only.',
  ['rf/batch.py'],
  [('configuration', 'rf/batch.py run, run_commands'), ('events and inventory', 'rf/batch.py run_commands'), ('data source', 'rf/batch.py init_data, load_func')],
  observe=['output and error of the command', 'requests', 'progress', 'all files before and after'])

p('R16', 'Work proceeds record by record, nothing is withheld or retained',
  'Event-data retrieval requests the data of a pair only when its consumer asks for the next record, makes no request before that or after it was closed, and several retrievals over the same catalogue and inventory which are consumed alternately each deliver what they deliver alone and leave catalogue and inventory unchanged. '
  'A batch command has completely saved every finished record (for stack: station) before it requests or reads the next one, so that stopping it at any instant costs at most the record in progress. '
  'Records that have been handed on are not retained: the number of records in memory does not grow with the number of events and stations.',
  ['schedules', 'histories', 'crash_points'],
  'every interleaving of several consumers, every instant at which a command turns to another record, every pattern of missing data',
  'The tests exhaust one retrieval at a time and look at the output after the command has ended.',
  ['rf/util.py', 'rf/batch.py', 'rf/profile.py'],
  [('lazy retrieval', 'rf/util.py iter_event_data'), ('one record at a time', 'rf/batch.py run_commands, iter_event_processed_data')],
  observe=['requests in relation to the consumer', 'files whenever another record begins', 'live traces and sample arrays'])

p('R17', 'A batch command that cannot save a record stops with the error',
  'If a batch command (data, calc, moveout, convert, stack, profile, plot, create) cannot save a record (create: one of the example files) because of a disk error, a full disk, missing permissions, an allocation failure or something else in its place, the command ends with an error: it requests no further data, reads and writes no further records and does not report success. Records that were finished before stay complete and unchanged (for HDF5 output: as long as the file is not torn), inputs and all other files are untouched. '
  'Repeated after the cause is removed (and a torn HDF5 file put back) it leaves exactly the records of an undisturbed run.',
  ['inputs', 'fault_sequences', 'crash_points'],
  'every command, format and output operation at which any disk error may strike, once or lastingly, with any part of a write done',
  'The tests write to a working disk only.',
  ['rf/batch.py', 'rf/rfstream.py'],
  [('saving of records', 'rf/batch.py write, _create_dir'), ('loop over records', 'rf/batch.py run_commands')],
  observe=['outcome of the command', 'requests and file operations after the failure', 'files and records'])

p('R18', 'Results do not depend on the surroundings of the process',
  'A chain of batch commands produces the same records under the same names with the same samples and headers, whatever the order in which the disk lists its entries or the inputs were written, the wall clock (other epoch, jumps, going backwards), the time zone, the state of the random generators, the hash seed, short reads and writes, the working directory, the spelling of paths (relative, absolute, with symbolic links, spaces, dots or braces), the order of options in the configuration, the umask, and with or without progress display.',
  ['inputs', 'schedules', 'histories'],
  'every combination of surroundings (clock, disk order, paths, time zone, hash seed, random state) and command chain',
  'The tests run in one directory with one clock, one time zone and the listing order of one file system.',
  ['rf/batch.py', 'rf/rfstream.py', 'rf/util.py'],
  [('file names and paths', 'rf/batch.py FNAMES, write, _create_dir, iter_event_processed_data'), ('reading by pattern', 'rf/rfstream.py read_rf'), ('order of traces', 'rf/rfstream.py RFStream.stack, rf')],
  observe=['names of files', 'records'])

p('R19', 'Retrievals and batch commands in threads do not disturb each other',
  'Threads of one process that retrieve event data at the same time from the same catalogue, inventory and data source (a client, a function, data held in memory), or run batch commands with outputs of their own on shared inputs, each with options, formats and failing or interrupted requests of its own, get exactly the records and files each of them gets when it is alone; a failure or interrupt ends only the thread it hits. '
  'Catalogue, inventory and settings of the process are the same afterwards, and no thread waits for ever.',
  ['schedules', 'fault_sequences', 'configurations'],
  'every interleaving of the threads at source line level, every combination of tasks, options and failing requests',
  'The tests run everything in one thread.',
  ['rf/util.py', 'rf/batch.py', 'rf/rfstream.py', 'rf/simple_model.py', 'rf/profile.py'],
  [('retrieval', 'rf/util.py iter_event_data, rf/rfstream.py rfstats'), ('commands', 'rf/batch.py run, run_commands, init_data, write'), ('index of HDF5 files', 'rf/rfstream.py RFStream.write, read_rf')],
  observe=['records delivered to each thread', 'files of each thread', 'outcome of each thread', 'settings of the process'])

# --- pure functions of their input: listed, not claimed ---------------------------------
p('N01', 'Deconvolution recovers the receiver-side response',
  'For each deconvolution method, deconvolving a source from its convolution with a response returns the response filtered as documented, with zero delay at the onset and the source normalised to 1.',
  ['inputs'], 'every source, response, window and parameter', 'Tests use one example and one synthetic pulse.',
  ['rf/deconvolve.py'], [('deconv_time/waterlevel/iterative/multitaper', 'rf/deconvolve.py')])
p('N02', 'Delay times and moveout follow the 1D model',
  'Delay times of converted phases and multiples equal the integral of vertical slownesses over depth, and moveout maps an arrival at the delay time for its slowness to the delay time for the reference slowness.',
  ['inputs'], 'every model, phase, slowness and reference', 'Tests compare a few stored values.',
  ['rf/simple_model.py'], [('calculate_delay_times, stretch_delay_times, moveout', 'rf/simple_model.py')])
p('N03', 'Piercing points lie at the ray-theoretical distance along the back azimuth',
  'Piercing points lie along the back azimuth at the horizontal distance given by the ray parameter and model.',
  ['inputs'], 'every depth, phase, slowness, station', 'Tests compare a few stored values.',
  ['rf/simple_model.py', 'rf/util.py'], [('ppoint_distance, ppoint, direct_geodetic', 'rf/simple_model.py')])
p('N04', 'Rotation and polarity conventions',
  'After rotation and deconvolution a positive velocity contrast gives a positive Q/R conversion at positive delay for P and S receiver functions.',
  ['inputs'], 'every incidence, azimuth, method', 'Tests check one example.',
  ['rf/rfstream.py'], [('RFStream.rf', 'rf/rfstream.py')])
p('N05', 'Harmonic decomposition is the least-squares fit of the documented basis',
  'The returned terms are the least-squares coefficients of constant, cos, sin, cos2, sin2 back-azimuth dependence per sample.',
  ['inputs'], 'every stream, azimuth, weighting', 'Tests compare two stored numbers.',
  ['rf/harmonics.py'], [('decomp_one, decomp_two, lstsq', 'rf/harmonics.py')])
p('N06', 'Profile boxes tile the profile line',
  'Boxes generated for a profile are adjacent, have the requested lengths and width and are centred on the profile line.',
  ['inputs'], 'every start, azimuth, bin list, width', 'Tests build one set of boxes.',
  ['rf/profile.py'], [('get_profile_boxes', 'rf/profile.py')])
p('N07', 'Plots show the plotted traces to scale',
  'Receiver function, profile, station and harmonic plots draw every trace at its position with the documented scaling and axes.',
  ['inputs'], 'every stream and option', 'Tests only create plots.',
  ['rf/imaging.py'], [('plot_rf, plot_profile, plot_harmonics', 'rf/imaging.py')])
p('N08', 'Relative-time windows cut the stated interval',
  'Trimming and slicing relative to a reference time keep exactly the samples in the stated interval and drop traces that become empty.',
  ['inputs'], 'every window and reference time', 'Tests use one window each.',
  ['rf/rfstream.py'], [('trim2, slice2, _seconds2utc', 'rf/rfstream.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')
print(len(P))
