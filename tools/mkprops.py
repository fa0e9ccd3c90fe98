"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PT, PE, FP, UT, FC, CO, GT, LG, PL = ('src/fpfind/lib/parse_timestamps.py', 'src/fpfind/lib/parse_epochs.py', 'src/fpfind/fpfind.py',
    'src/fpfind/lib/utils.py', 'src/fpfind/freqcd.c', 'src/fpfind/lib/constants.py', 'src/fpfind/lib/generate_freqcd_testcase.py',
    'src/fpfind/lib/logging.py', 'src/fpfind/fpplot.py')
NOT = 'No existing test imports this module\'s function with more than a handful of inputs; '
P = []


def p(i, title, st, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe or [], 'hook_needed': None}})


IN = ['inputs', 'configurations']
p('C01', 'Raw timestamp files decode to exactly the events they contain',
  'For every well-formed timestamp file in any of the three storage formats (hexadecimal words, binary, hexadecimal long words), legacy or not, reading it in memory or as a stream yields one event per record, in file order, whose timestamp is the upper 54 bits and whose detector pattern is the lowest 4 bits of the 64-bit event word. No event is dropped, duplicated, reordered or altered, including the first and last event, files with no or one event, and words with the top bit set.',
  IN, 'every file content, length, storage format and word order', NOT + 'the bit slicing has to hold for all 2^64 words and any event count', [PT],
  [('word slicing and reshape', PT + ' read_a0/read_a1/read_a2'), ('block streaming', PT + ' sread_a0/sread_a1/sread_a2')], ['return value of the six readers'])
p('C02', 'Timestamp unit and precision conversion is exact',
  'Timestamps are returned in the requested unit (1 ns, 1/8 ns, 1/256 ns): with sub-unit precision requested the value is exactly the stored count divided by the units ratio and keeps all 54 bits, without it the value is the exact floor of that quotient as an integer. This holds for all readers, in memory or streamed.',
  IN, 'every 54-bit timestamp and every resolution/precision combination', 'tests sample one value per setting; rounding faults appear only for timestamps above 2^53 or specific low bits', [PT, CO],
  [('unit conversion', PT + ' _format_timestamps'), ('unit table', CO + ' TSRES')], ['return value of the readers', 'dtype of the arrays'])
p('C03', 'Writing timestamps is the exact inverse of reading them',
  'For every sequence of representable timestamps and detector patterns, every writer (in-memory or streaming, each format, legacy or not, each resolution) stores exactly one record per event in order, and the record is the one from which the matching reader recovers the same timestamp at full 54-bit precision and the same 4-bit pattern. Nothing else is written to the file.',
  IN, 'every timestamp k/256 ns with k below 2^54, every pattern, every batch split', 'round trips in tests use a few values; the equality has to hold for each of 2^54 counts and each batch boundary', [PT],
  [('event packing', PT + ' _consolidate_events'), ('writers', PT + ' write_a*/swrite_a*')], ['bytes of the output file'])
p('C04', 'Block streaming neither loses nor repeats events at batch boundaries',
  'For every file size and every positive buffer size, the concatenation of the streamed batches is the whole file\'s event sequence, each batch except the last holds exactly the requested number of events, and the announced number of batches equals the number produced (for files of at least one event).',
  IN, 'every number of events and every buffer size', 'tests use files smaller than one buffer, so a boundary fault is invisible', [PT],
  [('chunked read', PT + ' sread_a*'), ('batch count', PT + ' num_batches')], ['batches yielded', 'announced batch count'])
p('C05', 'Detector-pattern filtering selects exactly the documented events',
  'Exact mode keeps events whose pattern equals the given one (or, inverted, those that differ) unchanged; mask mode keeps events sharing a bit with the mask, reduced to the shared bits; inverted mask mode removes the mask\'s bits and drops the events left with none, except that events without any detector are kept unchanged. The returned selection and the returned patterns always describe the same events in the same order.',
  ['inputs', 'configurations'], 'every pattern sequence over all 16 patterns and every filter pattern 0..15', 'tests would need all 16x16x4 combinations in every order', [PT],
  [('filter', PT + ' get_pattern_mask')], ['returned mask and patterns'])
p('C06', 'Time filtering keeps exactly the events inside the closed interval',
  'For every chronologically sorted sequence, the time filter selects the events with start <= t <= end in the unit of the data; an omitted bound is unbounded, an empty input or an interval that misses all events selects nothing, and no other event is affected.',
  ['inputs', 'configurations'], 'every sorted sequence (including repeats), every bound, every unit', 'bound and duplicate handling depends on orderings that samples miss', [PT],
  [('filter', PT + ' get_timing_mask')], ['returned mask'])
p('C07', 'The timestamp converter applies what its command line says, nothing else',
  'For every valid combination of options the converter reads the input with the given format and word order and writes exactly the selected events, in order and at full precision, to the output in the given output format and word order; pattern filtering precedes time filtering, time bounds are in seconds. With printing requested it prints the statistics of the selected events and writes no file.',
  ['configurations', 'inputs'], 'all option combinations and all inputs', 'no test runs the command line', [PT],
  [('option wiring', PT + ' main')], ['output file', 'standard output'])
p('C08', 'Reported statistics count exactly the given events',
  'The report shows the number of events, the number with each detector bit, with several bits, with none, the set of patterns that occur, and the first/last timestamp in seconds, and both the in-memory and the streaming report agree for every split into batches. A selection without events, or with a single event, is reported without failing.',
  ['inputs', 'histories'], 'every event sequence and every split into batches, empty ones included', 'no test calls the statistics; the batch-split independence quantifies over all splits', [PT],
  [('in-memory', PT + ' print_statistics'), ('streaming', PT + ' print_statistics_stream'), ('report', PT + ' print_statistics_report')], ['standard output'])
p('C09', 'T1 epoch files decode to exactly their events',
  'Reading a T1 file yields the events between header and terminator in order: timestamp the upper 54 bits and detector the lowest 4 bits of each event, first stored word being the more significant. Units, integer or fractional output and the optional addition of the full epoch follow the request exactly, without overflow or loss of the bits that the output type can hold.',
  IN, 'every event list, epoch number and output option', 'tests use one or two events and mostly zero epochs', [PE], [('reader', PE + ' read_T1')], ['return value'])
p('C10', 'Writing a T1 epoch file is the exact inverse of reading it',
  'A written T1 file is named by the 32-bit epoch in hexadecimal, its header states tag, epoch, number of events, and bit widths, its events carry the epoch\'s low 17 bits plus the given timestamp and detector in order, and it ends with the terminator; a single detector value applies to all events and unequal lengths are refused. Reading it returns the same events.',
  IN, 'every epoch, timestamp and detector list', 'tests write a couple of events', [PE], [('writer', PE + ' write_T1')], ['bytes and name of the file'])
p('C11', 'Bit extraction conserves the bit stream',
  'Taking the top bits off a bit buffer returns exactly these bits and leaves exactly the remaining ones, refilling by one little-endian 32-bit word behind the existing bits when too few are buffered; no bit is lost, repeated or reordered for any widths up to 32.',
  ['inputs', 'histories'], 'every buffer content, size and field width', 'bit alignment faults need specific width/size combinations', [PE], [('bit extractor', PE + ' extract_bits')], ['return value'])
p('C12', 'T2 epoch files decode to the cumulated timestamps they encode',
  'Reading a T2 file accumulates the encoded time differences (short or, after a zero code, 32-bit long ones) on the epoch\'s low 17 bits shifted by 32, one event per entry with its detector bits, until the terminator code one. Units, fractional output and full epoch follow the request exactly and succeed for every combination.',
  IN, 'every header width, entry sequence and output option', 'no T2 test runs reliably', [PE], [('reader', PE + ' read_T2')], ['return value'])
p('C13', 'T4 epoch files decode to the index sequence they encode',
  'Reading a T4 file accumulates the encoded index steps (short or, after a zero code, 32-bit long ones), each reduced by two, one entry with its base bits per event, until the terminator code one.',
  ['inputs'], 'every header width and entry sequence', 'T4 tests need data files absent here', [PE], [('reader', PE + ' read_T4')], ['return value'])
p('C14', 'Malformed or truncated epoch files are rejected, never silently misread',
  'An epoch file whose entry count contradicts a non-zero header length, whose terminator carries non-zero base bits, or which ends before its terminator makes the reader raise an error; it neither returns events that are not in the file nor loops forever.',
  ['inputs', 'fault_sequences'], 'every truncation point and every inconsistent header', 'faults at arbitrary byte positions', [PE], [('length check', PE + ' read_T1/read_T2/read_T4'), ('short read', PE + ' extract_bits')], ['exception'])
p('C15', 'Epoch headers are read with the documented layout',
  'Each epoch type\'s header is decoded into its documented fields, in order, as 32-bit little-endian words with the documented signedness, and the event reader of that type starts exactly behind it; a wrong tag or a name that differs from the epoch yields a warning, not a failure.',
  ['inputs'], 'every header content', 'field order or width slips only show for particular values', [PE], [('header readers', PE + ' read_T1_header..read_T4_header')], ['returned header', 'warnings'])
p('C16', 'T3 service files are tallied exactly',
  'Reading a T3 file counts each of the first n entries (n from the header) in the cell of the 4x4 matrix given by its two single detectors, or as garbage of the side(s) without exactly one detector, and derives the accepted count and the error rate (three decimals, one half without data) from that matrix.',
  ['inputs'], 'every byte sequence', 'all 256 entry values and their order of packing matter', [PE], [('tally', PE + ' read_T3')], ['returned service record'])
p('C17', 'Epoch selection and concatenation follow the epoch numbers',
  'Epoch names and numbers convert into each other without loss; the first common epoch of two directories is the smallest one present in both and not below the requested one, with the length of the uninterrupted run from it; and timestamps of consecutive epochs are concatenated in ascending epoch order, each epoch exactly once, starting at the requested offset.',
  IN, 'every pair of directories, start epoch, offset and count', 'needs all set relations between two directories', [UT, PE],
  [('overlap', UT + ' get_first_overlapping_epoch'), ('concatenation', UT + ' get_timestamp'), ('names', PE + ' epoch2int/int2epoch/date2epoch/epoch2date')], ['return values', 'files opened'])
p('C18', 'Accumulated offsets describe the compensation actually applied',
  'Whenever the refinement loop returns, the returned offset dt and skew df satisfy: applying (t - dt) / (1 + df) to the original target timestamps equals the composition of all single-step compensations that were applied or accepted. Each step measures the delay once in the window [0, len) and once in the window [sep, sep + len) of the compensated target against the reference, with equal lengths limited by the data available, and its skew is (late - early) / sep. The same composition holds for the precompensation combined with the fine result.',
  ['histories', 'inputs'], 'every number of refinement steps and every measured delay', 'the compositional law holds per iteration and must hold for every sequence of measurements', [FP],
  [('recursive relations', FP + ' time_freq'), ('outer composition', FP + ' fpfind')], ['return value'])
p('C19', 'Out-of-bounds or insignificant results are never returned as success',
  'No result is returned if the initial correlation peak is flat or stays below the threshold, if an early delay exceeds the network delay bound, or if the accumulated skew reaches the maximum correctable one; each of these ends the search with the peak-finding failure. A later step whose delay or skew is spurious (more than ten times the accumulated offset or skew, taken as at least 1 ns and 1e-9) ends the refinement with the last accepted values.',
  ['histories', 'inputs'], 'every measurement sequence', 'guard placement matters for every path of the loop', [FP, CO], [('guards', FP + ' time_freq'), ('limits', CO)], ['exception', 'return value'])
p('C20', 'Precompensation scan tries the listed values in order and reports a found peak',
  'The scan applies each precompensation in turn to the target timestamps, skips the failing ones, and returns the result of the first success (or, in full-scan mode, continues over all values and still returns a found result); it fails only if none succeeds. The generated list starts at the start value and enumerates the steps in the documented order: alternating outwards from the start while the distance k*step does not exceed the stop value, or ascending while the value does not exceed the stop value; a zero step gives the single value 0.',
  ['histories', 'configurations'], 'every success/failure pattern over the list and every list', 'needs all success/failure histories', [FP], [('scan', FP + ' fpfind'), ('list', FP + ' generate_precompensations')], ['return value', 'exception'])
p('C21', 'The output line follows the selected output flags',
  'For every result and each of the 16 flag values, standard output receives exactly one line with the skew and, unless suppressed, the delay, inverted together when requested, the skew as an integer multiple of 2^-34 when requested and the delay in 1/8 ns when requested, rounded to the nearest integer and tab separated.',
  ['inputs', 'configurations'], 'all 16 flag values and all results', 'no test runs the command', [FP], [('output', FP + ' main')], ['standard output'])
p('C22', 'fpfind uses the inputs and parameters its command line names',
  'Every option reaches the computation it documents: reference and target sources, word order, skipped time or epochs, number of wraps, bins 2^q, resolutions, threshold, separation and precompensation range; the reference side is never swapped with the target side, and from epoch directories as many epochs are read as the separation plus one correlation window need, plus one as buffer. Missing sources end with an error exit before any computation.',
  ['configurations'], 'all option combinations', 'no test runs the command', [FP], [('wiring', FP + ' main')], ['arguments of the computation', 'exit status'])
p('C23', 'Normalisation and slicing keep exactly the events of the window',
  'Normalising shifts all series by one common start (latest first event plus the skipped time) and drops exactly the events before it; slicing keeps exactly the events from start (inclusive) to start plus duration (exclusive), shifted to zero. Order, spacing and the relative delay between the series are preserved and an empty window gives an empty series, not a failure.',
  ['inputs'], 'every pair of series, start and duration', 'boundary events and empty windows', [UT], [('slice', UT + ' slice_timestamps'), ('normalise', UT + ' normalize_timestamps')], ['return value'])
p('C24', 'The delay read off a correlation is the nearest alias of the peak',
  'The circular correlation peak at bin p of n is reported as both aliases p and p-n (in time units), the one of smaller magnitude first, bin zero giving zero; histogram re-centring is a pure rotation; and the top-k listing reports the k largest bins in descending order.',
  ['inputs'], 'every histogram and every peak position', 'alias selection depends on the peak position relative to n/2', [UT],
  [('delay', UT + ' get_timing_delay_fft/get_delay_at_index_fft/get_top_k_delays_fft'), ('rotation', UT + ' convert_histogram_fft'), ('binning', UT + ' generate_fft/get_xcorr')], ['return value'])
p('C25', 'The frequency corrector never accesses memory out of bounds',
  'For every command line and every sequence of input and correction reads, every buffer access of the corrector stays inside the buffer, no read or copy exceeds the capacity of its destination and no uninitialised variable influences the output.',
  ['inputs', 'schedules'], 'every read length, argument length and interleaving of the two inputs', 'no test runs the program', [FC], [('buffers', FC + ' main'), ('file names', FC + ' FNAMEFORMAT')], ['buffer accesses'])
p('C26', 'Correction changes only the timestamp of an event',
  'Each output event has the low 10 bits of its input event, a timestamp equal to the input timestamp plus the correction modulo 2^54, and the word order of the input; the order of events is preserved.',
  ['inputs', 'configurations'], 'every 64-bit event, legacy or not', 'no test runs the program', [FC], [('per-event update', FC + ' main')], ['output stream'])
p('C27', 'The applied correction is the accumulated skew times elapsed time',
  'The correction added to an event is the sum of the corrections accumulated up to the last event of the previous read plus the current skew times the time since that event, in fixed-point arithmetic that cannot overflow for any skew below 2^-13; the accumulation happens exactly once per processed read, and reads without a complete event change nothing.',
  ['histories', 'inputs', 'schedules'], 'every split of the stream into reads and every sequence of skew updates', 'no test runs the program; the split of the stream is environment dependent', [FC], [('recurrence', FC + ' main')], ['output stream'])
p('C28', 'Only in-range frequency corrections take effect',
  'A skew given on the command line or received later takes effect if and only if it is a well-formed decimal integer with magnitude below 2^21 in units of 2^-34 (after conversion in decimal mode); an invalid command-line value ends the program with an error and an invalid received line leaves the current skew unchanged.',
  ['inputs'], 'every argument and line text, including huge numbers', 'range and truncation faults need extreme values', [FC], [('parsing', FC + ' readint, main')], ['applied skew', 'exit status'])
p('C29', 'Correction lines are reassembled across reads',
  'Newline-terminated correction values take effect in the order received regardless of how the channel splits them into reads; a partial line is kept until its newline arrives, and a line longer than the buffer is discarded without stopping later lines.',
  ['schedules', 'inputs'], 'every split of the byte stream', 'the split depends on the writer and the kernel', [FC], [('partial lines', FC + ' main')], ['applied skew'])
p('C30', 'The event stream is reassembled and forwarded completely',
  'Every complete 8-byte event received is written exactly once and in order regardless of how reads split the stream, bytes of an incomplete event are kept for the next read, and events are not written twice or dropped when only the correction channel is readable; a failed or short write stops the program.',
  ['schedules', 'fault_sequences'], 'every split of the byte stream and interleaving with the correction channel', 'the split depends on the kernel', [FC], [('partial events', FC + ' main')], ['output stream'])
p('C31', 'Failures are reported by exit status and on the error stream',
  'When a source cannot be opened, an option is invalid or required inputs are missing, the programs stop with a non-zero status and a message on the error stream, before producing any data.',
  ['fault_sequences', 'configurations'], 'every failing call', 'fault injection for every call is not tested', [FC, FP, PT], [('error returns', FC + ' emsg'), ('exits', FP + ' main')], ['exit status', 'standard error'])
p('C32', 'Data streams on standard output carry data only',
  'Programs whose standard output is a machine-readable result (skew/delay line, corrected events, generated events) never write diagnostics, logs or progress to it on any path; logs go to the error stream or the log file.',
  ['inputs', 'configurations'], 'every call path to an output operation', 'a diagnostic on a rare path escapes tests', [FP, FC, LG, UT, GT], [('log handlers', LG), ('output', FP + ' main')], ['standard output'])
p('C33', 'Inputs are never modified',
  'No reading, filtering, statistics, normalisation or correlation operation opens its input files for writing or changes the arrays its caller passed; only the writers open a file for writing, and only the destination they were given.',
  ['inputs', 'configurations'], 'every call path to a file opening or array write', 'aliasing effects are invisible to value-comparing tests', [PT, PE, UT, FP, GT], [('effects', 'all modules')], ['files opened', 'caller arrays'])
p('C34', 'Components agree on the shared physical constants',
  'The unit table, epoch length, maximum and resolution of the frequency correction and the event bit layout are the same wherever they appear: in the finder, the readers and writers and the corrector program, so that a value produced by one is interpreted identically by the others.',
  ['configurations', 'programs'], 'every place that encodes the constant', 'no test spans the two languages', [CO, FC, FP, PT, PE], [('constants', CO), ('macros', FC)], ['constant values'])
p('C35', 'The test-case generator emits exactly the requested events',
  'The generator writes one event per requested timestamp, in order, truncated to 54 bits, with the given detector, in the requested word order, to the requested destination; given an event file it prints the timestamps it holds and leaves the file unchanged.',
  ['inputs', 'configurations'], 'every timestamp list and option combination', 'no test runs the generator', [GT], [('encoding', GT + ' get_event'), ('wiring', GT + ' main')], ['output bytes', 'standard output'])
p('C36', 'Every internal call matches the interface it calls',
  'Each call between the project\'s own functions passes an acceptable number of arguments with known names, and every result is unpacked into as many parts as the callee returns, so that no public function fails for all inputs.',
  ['programs'], 'every call site', 'untested functions fail only when first used', ['src/fpfind'], [('call sites', 'all modules')], ['exception'])
p('C37', 'Measured delays converge to the true offset',
  'For correlated timestamp series with a true offset and skew inside the search range, the reported offset and skew match the true ones within the final resolution.',
  ['inputs'], 'every pair of correlated series', 'statistical', [FP, UT], [('search', FP + ' time_freq')], ['return value'])
p('C38', 'The peak search terminates',
  'For every input the refinement loop ends after finitely many iterations with a result or a failure.',
  ['inputs', 'histories'], 'every parameter combination', 'non-termination needs special parameters', [FP], [('loop', FP + ' time_freq')], ['termination'])
p('C39', 'The correlation counts every event once, in its bin',
  'The transformed series holds in element k the number of events whose time falls into bin k modulo the number of bins, for any number of bins; the correlation is the magnitude of the circular cross-correlation of reference and target (a positive delay meaning a late target), filtered if asked; a histogram built from two series uses exactly the events of the common window after the frequency correction, and reports how many these were. An empty series is refused.',
  ['inputs'], 'every pair of series, resolution and number of bins', 'wrapped, empty and boundary bins need particular series', [UT],
  [('binning', UT + ' generate_fft'), ('correlation', UT + ' get_xcorr'), ('histogram', UT + ' histogram_fft')], ['return value'])
p('C40', 'The significance compares the peak with its own background',
  'The signal of a histogram is the bins within half the window of the given centre (of the maximum if none is given, negative centres counted from the end), cut at the ends; the background is the nearer half of the bins on either side and never contains the signal. The significance is the excess of the largest signal bin over the background mean in units of the background standard deviation, to three digits, and zero when the background has no spread.',
  ['inputs'], 'every histogram, centre and window', 'peaks near either end and empty backgrounds need particular histograms', [UT],
  [('regions', UT + ' get_statistics'), ('significance', UT + ' PeakStatistics')], ['return value'])
p('C41', 'Epoch names and dates stand for each other',
  'The epoch named for a time is the one containing its whole second, counted in units of 2^32 times 125 ps since 1970, written as at least eight lower-case hexadecimal digits, exact also for a second that begins an epoch; the date of an epoch is the local time at which it begins.',
  ['inputs'], 'every time and epoch', 'the faults show only at seconds that coincide with the start of an epoch', [PE],
  [('name of a time', PE + ' date2epoch'), ('time of a name', PE + ' epoch2date')], ['return value'])
if __name__ == '__main__':
    with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
