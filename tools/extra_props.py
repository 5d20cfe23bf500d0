p('P19', 'The command line tools tell the truth about what is stored',
  'A writing command exits with status 0 only if the named file is complete, durable and holds exactly the given data; any other ending (an error status, a kill, a power failure) leaves a file that does not open, the complete one, or the untouched older one, and refused arguments change nothing. A reading command prints exactly the stored pairs and statistics, never changes the file, and exits with an error status when it could not open or read what it was asked to dump. The generator of test data stores exactly the requested number of values, the same ones again for the same seed, and its aggregation prints the exact result for any degree of parallelism.',
  ['inputs', 'fault_sequences', 'crash_points', 'schedules', 'configurations'],
  'All arguments; storage errors, crashes and partial transfers at any call of the process; any schedule of the parallel aggregation.',
  'The tools have no tests.',
  ['cmd/vibecol/main.go', 'cmd/loadtest/main.go'],
  [('exit status follows every error', 'cmd/vibecol/main.go runWrite, runRead'), ('close checked before success is printed', 'cmd/loadtest/main.go runImport')],
  ['exit status and standard output of the process', 'the file after a simulated power failure'])
p('P21', 'Any well-formed file is read right, whoever wrote it and however laid out',
  'A file that follows the published format reads back exactly (pairs, id set, block lookups, aggregates in every mode, several files newest first) no matter how its writer used the freedom the format leaves: the id set before or after the blocks or absent, blocks stored in any order, at any offset and of any size, unused bytes between and inside them with any contents, value section before id section, any target size and creation time. What the reader reports about the file (version, block count, encoding, description) is what the file stores.',
  ['inputs', 'configurations', 'schedules', 'fault_sequences'],
  'All contents and encodings in all layouts the format allows, alone and mixed with files of the library\'s own writer, with short and interrupted reads and any interleaving of parallel aggregation.',
  'Tests only read what the same code has just written, in its one fixed layout, so assumptions beyond the format go unnoticed.',
  [C+'reader_header.go', C+'reader_block.go', C+'reader_decode.go', C+'reader.go', 'column_format_spec.md'],
  [('places taken from stored offsets and sizes', C+'reader_block.go readBlock, '+C+'reader.go GetGlobalIDBitmap')],
  ['NewReader and every reader operation on files of an independent encoder'])
p('P22', 'A refused call changes nothing',
  'A call that asks for something impossible - ids and values of different lengths, no pairs, an encoding that does not exist, a target size the format cannot hold (negative or over 32 bits), a block that does not exist, anything stored through a writer or read as a block from a reader that is already closed - reports an error, and everything else is as if it had not been made: the outcomes of the other calls, the bytes of the file, the totals, the caller\'s slices. Once a writer is closed nothing changes its file any more, and a file that was abandoned is not reported finished later. (An empty batch to the buffered writer is allowed and does nothing.)',
  ['histories', 'inputs', 'fault_sequences'],
  'All histories of valid calls with invalid ones at any place, also between the parts of a block that did not fit and after closing, with partial transfers on the way.',
  'Tests check a refusal on its own, not that the history around it is untouched.',
  [C+'writer_block_io.go', C+'simple_writer.go', C+'writer_finalize.go', C+'reader_block.go'],
  [('arguments checked before any state changes', C+'writer_block_io.go WriteBlock, '+C+'simple_writer.go Write')],
  ['results of all calls and bytes of the file, compared with the history without the refused calls'])
p('P23', 'A query reads only the blocks it needs, and no other block can affect it',
  'Opening a file, listing blocks, loading the id set and an aggregate without filters over stored statistics read no block at all; an aggregate with an allow set reads only blocks whose id range meets the range of that set; reading the pairs of a block reads that block only. So storage that fails or stalls anywhere else cannot change a result, in any mode, degree of parallelism or interleaving.',
  ['inputs', 'fault_sequences', 'schedules', 'configurations'],
  'All contents and filters, every unneeded block failing or none, sequential and parallel, with retries of interrupted reads.',
  'A test sees results, not which bytes were read; reading too much shows only when the superfluous read fails.',
  [C+'reader_aggregate.go', C+'reader_block.go', C+'reader.go'],
  [('blocks skipped by the id range in the index', C+'reader_aggregate.go FilteredBlockIterator')],
  ['byte ranges read from the simulated disk', 'results while all unneeded blocks fail'])
p('P24', 'Open files stay the same files when their paths change',
  'A writer or reader keeps working on the file it opened when that file is renamed or removed, or another file takes its path: writing finishes completely into the original file wherever it is now (so writing under a temporary name and renaming is safe, also across a power failure), reading keeps returning its contents, also when reads fail and are tried again, and the file that took the path is neither read nor changed.',
  ['histories', 'fault_sequences', 'crash_points'],
  'Renames, removals and replacements at any point of any writing or reading history, with partial transfers, failing reads and a power failure at the end.',
  'No test touches a file behind an open handle.',
  [C+'writer.go', C+'writer_finalize.go', C+'reader.go', C+'reader_io.go'],
  [('one file handle for the whole life of a writer or reader', C+'writer.go, '+C+'reader.go')],
  ['the files at the old and the new path', 'reader results'])
p('P25', 'Results and arguments belong to the caller',
  'What a call has returned - ids, values, block lists, id sets, errors that carry numbers - stays as it is whatever is done afterwards with the same reader or writer, with other readers, by other threads, or after closing. What the caller does to it (overwriting, appending), and to the slices and filter sets it passed in once the call has returned, changes no later result and no stored byte; slices passed in are never written to, not even behind their end. (An id set handed out while caching is switched on is shared with the reader and must not be changed by the caller.)',
  ['histories', 'schedules', 'inputs', 'fault_sequences'],
  'All histories of calls in which the caller reuses its slices and sets and changes results in place, from any number of threads, with failing and retried reads.',
  'Tests look at a result at once and throw it away; that a buffer is shared shows only when an older result is looked at again after other calls.',
  [C+'reader_block.go', C+'reader_decode.go', C+'reader_aggregate.go', C+'reader.go', C+'writer_block_io.go', C+'simple_writer.go'],
  [('every result in memory of its own', C+'reader_decode.go decodeBlockData, '+C+'reader_aggregate.go FilteredBlockIterator')],
  ['copies of results compared with the originals later', 'files written through reused slices compared with files written through fresh ones'])
p('P26', 'A reader may be closed while it is in use',
  'When a reader, or a group of readers, is closed - also twice, also by several threads - while other threads use it, each of their calls ends and returns either the exact result or an error (an aggregate may leave out whole blocks it could no longer read), and a block asked for after the closing is refused. Nothing panics, hangs or races, no handle and no goroutine is left, and no call reads from or closes a file that was opened meanwhile by somebody else.',
  ['schedules', 'histories', 'fault_sequences'],
  'All interleavings of closing with any mix of operations and with other files being opened into the freed handles; stalled, short and interrupted reads.',
  'No test closes a reader that is in use; the moment between a check and the read behind it is a few instructions long.',
  [C+'reader.go', C+'reader_io.go', C+'reader_aggregate.go', 'pkg/multicol/aggregate.go'],
  [('closing through the file handle that counts its users', C+'reader.go Close'), ('index never changed after opening', C+'reader_header.go')],
  ['results of all threads', 'open handles of the simulated kernel, which gives out the lowest free descriptor'])
p('P27', 'The example programs show exactly what the example file holds, or fail',
  'write_example exits with status 0 only when example.col is completely and durably written, whatever was at that path before: read_example then shows exactly its ten pairs and their statistics, also after a power failure. Any storage error gives a non-zero status, and after an error or after being killed the file is either refused by read_example or shown as exactly those pairs. read_example prints, for a file of that layout with any ids, values and index entries, exactly the pairs, the statistics of the pairs and those of the index, exits with a non-zero status when reading fails, is not affected by partial or interrupted reads and changes nothing. The program in examples/ prints the five results that belong to its data and filters and leaves no file behind, or, when storage fails while it writes, ends with a non-zero status.',
  ['inputs', 'fault_sequences', 'crash_points', 'configurations'],
  'All contents of the ten pairs and of the index, any old file at the path, any sequence of write, sync, open, close and read errors, partial and interrupted transfers, kills at any system call, power failure after the exit.',
  'There is no test of these programs at all.',
  ['cmd/write_example/main.go', 'cmd/read_example/main.go', 'examples/filtered_aggregation_example.go'],
  [('all write errors looked at before success is reported', 'cmd/write_example/main.go writeFile'), ('every read complete or an error', 'cmd/read_example/main.go DumpKVPairs')],
  ['exit status', 'printed pairs and statistics', 'the file after a simulated power failure'])
