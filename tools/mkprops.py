#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

C = 'pkg/col/'
p('P01', 'A finished file returns exactly what was written, also after a power failure',
  'Once a writer has reported that a file is finished, reopening it yields exactly the id/value pairs that were accepted, block by block and in order, for every one of the eight encodings, every 64-bit id and every 64-bit value. This still holds after a kill or a power failure at any later moment, whatever part of the unsynced state the disk kept. Interrupted and partial system calls on the way change nothing.',
  ['inputs', 'configurations', 'crash_points', 'fault_sequences'],
  'All contents, block sizes and encodings; every crash point after the acknowledgement with any surviving subset of unsynced sectors; any pattern of short or interrupted transfers.',
  'The tests write to a healthy temporary directory and read back from the page cache; none loses unsynced data, none sees a short write, and each encoding is tried on a handful of smooth sequences.',
  [C+'writer.go', C+'writer_block_io.go', C+'writer_finalize.go', C+'encoding.go', C+'reader_block.go', C+'reader_decode.go'],
  [('sync before the finish is acknowledged', C+'writer_finalize.go Finalize'), ('section encoders and decoders', C+'encoding.go, '+C+'reader_decode.go')],
  ['Writer.FinalizeAndClose / SimpleWriter.Close result', 'Reader.GetPairs of every block after a simulated power failure'],
  [('page cache', 'written but not yet synced bytes', 'simulated kernel')])
p('P02', 'A crash leaves no openable file or the complete one, never a hybrid',
  'If the process or the machine dies at any moment while a file is being written, the path afterwards either does not open, or opens as the complete intended contents (or, when an older complete file was being replaced and nothing of it had been destroyed durably, as that older file). A file that was never finished does not open, neither after a crash nor while it is being written. A path left unusable by a crash can be written again.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'Every system-call boundary of a write history as crash point; kill or power failure with any per-sector outcome of the unsynced writes; a concurrent observer at any interleaving.',
  'No test crashes the writer, and a real file system shows neither lost nor reordered writes.',
  [C+'writer_finalize.go', C+'writer_header.go', C+'reader_header.go', C+'reader.go'],
  [('order of header, index and trailer writes and syncs', C+'writer_finalize.go Finalize'), ('magic numbers and counts checked on opening', C+'reader_header.go')],
  ['NewReader on the path after a simulated crash'])
p('P03', 'A write, sync or close that failed is never acknowledged as success',
  'When storage fails during writing (I/O error, full disk, quota, failed sync, failed close, torn write), no call during which it failed reports success, and a file is reported finished only if everything accepted is in it and durable. Whatever the caller does after an error - stop, retry, carry on, finish again - the path never opens as a file that lost or altered accepted pairs.',
  ['fault_sequences', 'histories', 'crash_points'],
  'Any sequence of storage errors at any system call, any reaction of the caller, followed by a power failure.',
  'No test injects a storage error; error branches of the writers are not executed at all.',
  [C+'writer.go', C+'writer_block_io.go', C+'writer_finalize.go', C+'simple_writer.go'],
  [('error propagation of each write', C+'writer_block_io.go'), ('a failed writer stays failed', C+'writer.go')],
  ['result of WriteBlock, Write, Finalize, Close', 'the file after reboot'])
p('P04', 'The buffered writer stores every accepted batch exactly once',
  'A file closed successfully through the buffered writer contains each pair of each accepted batch exactly once, whatever the batch sizes, automatic block splits and size changes in between; a batch whose call failed is contained wholly or partly at most once per attempt, and rejected arguments leave no trace. The count the writer reports equals the number of pairs stored, each call\'s pairs appear in id order, and the caller\'s slices are never modified or retained.',
  ['histories', 'inputs', 'fault_sequences'],
  'Histories of batches of any size and order, interleaved with invalid calls, target-size changes, storage errors and repeated closes.',
  'Tests use a few round batch sizes without errors; the carry-over of partially flushed batches is a function of the whole history.',
  [C+'simple_writer.go', C+'writer_block_io.go'],
  [('pending buffer and split carry-over', C+'simple_writer.go flushIfNeeded')],
  ['SimpleWriter.Write, Close, TotalItems', 'the stored pairs'])
p('P05', 'Reads under storage errors fail visibly and recover, never yield wrong data',
  'A read operation on an intact file returns the exact stored data or an error, never wrong, short or made-up data, when any system call under it fails, returns short, is interrupted, or the file shrinks underneath the reader. After the storage recovers the same reader returns the exact data again. Opening either fails or gives a reader for the whole file.',
  ['fault_sequences', 'histories'],
  'Any read errors, short reads and interrupts at any call or on any byte range, transient or permanent; truncation of the file between any two operations; any order of operations with retries.',
  'Tests read healthy files only; error paths and partial reads are never taken.',
  [C+'reader_io.go', C+'reader_block.go', C+'reader_header.go', C+'reader.go'],
  [('complete reads or an error', C+'reader_io.go readBytesAt')],
  ['NewReader, GetPairs, GetGlobalIDBitmap, DebugInfo results'])
p('P06', 'Aggregates never include wrong data when blocks cannot be read',
  'When some blocks cannot be read, an aggregate contains no pair that is not stored, counts none twice, and is exact over every block that could be read; aggregates over statistics that were loaded on opening stay exact. Once reads succeed again the same reader gives the exact result. An aggregate over unreadable blocks is not passed off as complete.',
  ['fault_sequences', 'inputs', 'schedules'],
  'Any set of failing byte ranges or calls, sequential and parallel aggregation, with and without filters, over one or several files.',
  'No test makes a read fail; a failing block takes a different path in each aggregation routine.',
  [C+'reader_aggregate.go', 'pkg/multicol/aggregate.go'],
  [('skipping of failed blocks', C+'reader_aggregate.go')],
  ['AggregateWithOptions of one and of several files'])
p('P07', 'Every way of aggregating a file gives the same exact answer',
  'Count, minimum, maximum, wrapping sum and average of a file equal those of the stored pairs, whether taken from stored statistics, from a full scan, or in parallel with any degree, any number of cores and any interleaving of the workers.',
  ['schedules', 'inputs', 'configurations'],
  'All interleavings of the aggregation workers, degrees from negative to far above the block count, 1 to 64 cores, all encodings and extreme values.',
  'Tests run each mode a few times under the one schedule the Go runtime happens to choose, on small positive data.',
  [C+'reader_aggregate.go', C+'utils.go', C+'reader_header.go'],
  [('merging of per-block and per-worker results', C+'reader_aggregate.go')],
  ['AggregateWithOptions, Aggregate'])
p('P08', 'Parallel aggregation always terminates and leaves no goroutine behind',
  'A parallel aggregation returns within a bounded number of scheduling steps for any degree, any number of blocks (none included), any interleaving, stalled workers and failing reads, and once it has returned no goroutine it started is still alive or changes anything. Concurrent aggregations do not delay each other for ever.',
  ['schedules', 'fault_sequences', 'configurations'],
  'All worker interleavings and stalls, read errors at any block, degrees from negative to very large, one to many cores.',
  'A deadlock or leak that needs one interleaving does not show in a test that runs once; leaks are not looked for.',
  [C+'reader_aggregate.go'],
  [('work distribution and joining of workers', C+'reader_aggregate.go parallel aggregation')],
  ['return of AggregateWithOptions', 'goroutine count'])
p('P09', 'Filtered aggregation counts exactly the allowed and not denied ids',
  'An aggregate with an allow set, a deny set or both covers exactly the stored pairs whose id is in the allow set (when given) and not in the deny set, in every mode, degree of parallelism and interleaving. Caller-owned sets are not modified.',
  ['inputs', 'schedules', 'configurations'],
  'Allow and deny sets empty, full, disjoint, straddling blocks and 64-bit extremes; all modes, interleavings and benign read interruptions.',
  'The property-style test samples small dense ids sequentially; parallel filtered runs meet one schedule.',
  [C+'reader_aggregate.go', C+'reader_block.go'],
  [('block skipping by id range and per-pair filtering', C+'reader_aggregate.go')],
  ['AggregateWithOptions with Filter and DenyFilter'])
p('P10', 'The stored id set is exact, and so are block lookups by id',
  'The id set of a finished file contains exactly the ids stored in it, cached or not, for any ids including zero and the 64-bit maximum; a failed load returns an error and leaves a later load exact. Looking up blocks by ids lists every block that holds one of them, each at most once, and no block that does not exist.',
  ['inputs', 'histories', 'fault_sequences'],
  'All ids and block shapes; any order of loads, cache switches, read errors and retries.',
  'Tests use a few thousand small ids and never fail a load.',
  [C+'writer_block_io.go', C+'writer_finalize.go', C+'reader.go'],
  [('id set collected on writing, loaded lazily', C+'reader.go GetGlobalIDBitmap')],
  ['GetGlobalIDBitmap'])
p('P11', 'Across files, the newest file that holds an id decides its value',
  'Aggregating several generations of a column, newest first, counts for every id the pairs of the newest file holding it and none of the older ones, for any number of files, any overlap, any filters, and regardless of whether older files have failed or unfinished siblings. The result does not depend on earlier aggregations over the same readers.',
  ['histories', 'inputs', 'crash_points', 'fault_sequences'],
  'Histories of generations with arbitrary overlaps, encodings and filters, including generations lost to a crash while being written and readers whose reads fail.',
  'Tests use two or three tiny files; shadowing depends on the whole history of generations.',
  ['pkg/multicol/aggregate.go', C+'reader_aggregate.go', C+'reader.go'],
  [('ids of newer files denied in older ones', 'pkg/multicol/aggregate.go')],
  ['MultiReader aggregate'])
p('P12', 'One reader may be shared by any number of threads',
  'Any mix of operations issued concurrently on one reader returns to each caller exactly what it would return alone, without a data race and without one caller\'s options or cache switches affecting another\'s result.',
  ['schedules', 'programs', 'fault_sequences'],
  'All interleavings at statement granularity of 2 to 6 threads mixing pair reads, id set loads, cache switches and aggregates, with short and interrupted reads.',
  'The concurrency test reads from several goroutines under one schedule; unsynchronised lazy state shows only in some interleavings.',
  [C+'reader.go', C+'reader_io.go', C+'reader_aggregate.go'],
  [('positioned reads, guarded lazy state', C+'reader.go, '+C+'reader_io.go')],
  ['results per thread', 'race detector'])
p('P13', 'Damaged or foreign files cause errors, never crashes, hangs or invented data',
  'Opening or reading a file whose bytes were damaged, cut, extended or mixed up never panics, hangs or allocates out of proportion to the file; it returns an error wherever the stored structure contradicts itself, and pairs it does return are those the stored bytes decode to under the published format. (The internal bytes of the serialised id set belong to a third-party library and are not covered.)',
  ['inputs', 'fault_sequences'],
  'Bit flips, overwritten fields, zeroed or copied ranges, truncations and extensions anywhere in files of every shape.',
  'Tests damage nothing except a magic number.',
  [C+'reader_header.go', C+'reader_block.go', C+'reader_decode.go', C+'reader.go'],
  [('validation of sizes and offsets before use', C+'reader_header.go, '+C+'reader_block.go')],
  ['NewReader, GetPairs, aggregates, id set on damaged files'])
p('P14', 'Every finished file follows the published format',
  'A finished file, read by an independent implementation of the published format, is well formed: header fields, creation time, page alignment, contiguous zero-padded blocks, section layout and encodings, per-block statistics in header and index, id set, index and trailer all agree with what was written, whatever partial writes and clock jumps happened on the way.',
  ['inputs', 'configurations', 'fault_sequences'],
  'All contents, encodings and block sizes, any partial or interrupted transfers, any clock.',
  'Tests check a few constants with the same code that wrote them; two matching mistakes cancel out.',
  [C+'writer_header.go', C+'writer_block.go', C+'writer_block_io.go', C+'writer_finalize.go', 'column_format_spec.md'],
  [('field-by-field serialisation', C+'writer_block.go, '+C+'writer_header.go')],
  ['raw bytes of the file'])
p('P15', 'Blocks respect the target size, estimates are exact, splits are maximal',
  'The predicted size of a block equals the bytes it then takes; no block of more than one pair exceeds the target size; a call is cut short only when its pairs do not all fit, at the largest prefix that fits, and reports exactly how many pairs were stored, so that continuing from there loses and repeats nothing.',
  ['inputs', 'histories', 'configurations', 'fault_sequences'],
  'All encodings and targets, batches around every boundary, at any file position, with partial writes.',
  'Tests use one encoding and size where the arithmetic is linear; page rounding and variable-length pairs make it position dependent.',
  [C+'writer_block_io.go', C+'writer_encoding.go', C+'simple_writer.go'],
  [('size estimate and split search', C+'writer_block_io.go WriteBlock, EstimateBlockSize')],
  ['EstimateBlockSize, BlockFullError, file growth'])
p('P16', 'Closing releases the file, whatever failed before',
  'After a writer or reader was created and closed, successfully or not, or its creation failed, it holds no file handle; repeated closes do no harm and never touch a handle that meanwhile belongs to someone else.',
  ['fault_sequences', 'histories'],
  'Storage errors at any call of creation, writing, finishing and closing; damaged files on the read side; repeated finishing and closing.',
  'Tests never fail a call in between and do not count handles.',
  [C+'writer.go', C+'writer_finalize.go', C+'simple_writer.go', C+'reader.go'],
  [('close on every error path', C+'writer_finalize.go, '+C+'reader.go NewReader')],
  ['open handles of the simulated kernel'])
p('P17', 'A block is durable where it lies once its write is acknowledged',
  'Once writing a block has been acknowledged, its bytes survive any later power failure at the place in the file the finished index will name, even if the file is never finished, and nothing written later alters them.',
  ['crash_points', 'fault_sequences', 'histories'],
  'Every crash point after an acknowledgement, with any surviving subset of later unsynced writes.',
  'Needs a disk that loses unsynced data; a test file system never does.',
  [C+'writer_block_io.go'],
  [('sync after each block', C+'writer_block_io.go writeBlockInternal')],
  ['durable bytes of the unfinished file'])
p('P18', 'What is stored depends only on the data, not on timing or scheduling',
  'Writing the same calls again gives the same bytes except for the creation time, whatever the clock does (jumps, going backwards, before 1970), how transfers are cut up, how threads interleave with it, whatever random numbers the runtime draws, and wherever it is written (path, older file at the path, process, machine, number of cores).',
  ['schedules', 'fault_sequences', 'configurations'],
  'Any clock behaviour, partial transfers, stalls, interleavings with other writers.',
  'A test compares a run with itself in one environment.',
  [C+'format.go', C+'writer.go', C+'simple_writer.go'],
  [('single source of time, deterministic layout', C+'format.go')],
  ['raw bytes of repeated runs'])
p('P20', 'Files are independent: using one never disturbs another',
  'Writers and readers of different files used at the same time give exactly the files and results they give when used alone, without data races.',
  ['schedules', 'programs', 'fault_sequences'],
  'All interleavings of several writers and readers in one process, with stalls, partial transfers and clock jumps.',
  'Tests run one file at a time; shared package state would show only under interleaving.',
  [C+'writer.go', C+'reader.go', C+'encoding.go'],
  [('no shared mutable package state', C)],
  ['bytes written, results read', 'race detector'])

here = os.path.dirname(os.path.abspath(__file__))
EXTRA = os.path.join(here, 'extra_props.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
P.sort(key=lambda d: d['id'])
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
