# Property texts. gen.py writes properties.jsonl and MANIFEST.json from this file and checks.py.
PR = []
NA = []   # (property, reason)
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, note=''):
    PR.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, note=note))
prop('P01', 'Counter names become safe, canonical names and stay inside the store',
 'Whatever bytes a client sends as a counter name, the stored name contains only lower-case printable ASCII without slashes, backslashes, colons or quotes, sanitising is idempotent and maps each byte independently (other characters unchanged), and the file of a counter never contains a dot or a separator other than those made from the dots of the name. The parent of a name is everything before its last dot, settings file names accept exactly letters, digits, underscore, dash and dot, joining two paths keeps an absolute right side, and exposition metric names use only lower-case letters, digits and underscore and never start with a digit.',
 ['inputs'], 'every byte string as a name', 'The unit tests sample a handful of names; an unsafe byte at any position of any name is a path escape or a corrupt reply.',
 ['lib/strfunc.cpp'], [('munge', 'lib/strfunc.cpp munge()'), ('counter_filename', 'lib/strfunc.cpp counter_filename()'), ('stripext', 'lib/strfunc.cpp stripext()'), ('prom_munge', 'lib/strfunc.cpp prom_munge()'), ('is_valid_settings_name', 'lib/strfunc.cpp'), ('combine_paths', 'lib/strfunc.cpp')])
prop('P02', 'Caret expansion of a counter name yields exactly the documented counters',
 'A name "base^a^b" stands for base.a and base.b, an empty trailing part stands for the base itself, and a name without a caret stands for itself; for every name the expansion terminates and yields exactly those counters, in order, and reports the base.',
 ['inputs'], 'every byte string without NUL', 'Tests use well-formed names; adjacent, leading and trailing carets in any combination are not sampled.',
 ['lib/strfunc.cpp', 'daemon/StatServer.cpp'], [('extract_ctrs', 'lib/strfunc.cpp extract_ctrs()')])
prop('P03', 'Interval texts and seconds convert both ways without loss',
 'Printing a number of seconds as an interval text and reading the text back gives the same number of seconds. Reading accepts exactly one or more number-unit pairs (s, m, h, d, y), whose values add up, and refuses every other text.',
 ['inputs'], 'every number of seconds within the bounds; every short text', 'Tests check a few round values; carries between units and malformed texts are not covered.',
 ['lib/strfunc.cpp'], [('seconds_to_interval', 'lib/strfunc.cpp'), ('interval_to_seconds', 'lib/strfunc.cpp')])
prop('P04', 'Quoting is invertible and quoted text stays on one line and inside its quotes',
 'Unquoting a quoted value gives back the original bytes, for both the settings-file quoting and the JSON-text quoting, for every byte string. Settings-file quoting never leaves a line break or NUL in its output, and JSON-text quoting between double quotes is a valid JSON string that denotes the original.',
 ['inputs'], 'every byte string', 'Tests sample a few strings; one unhandled byte value corrupts a settings file or a JSON reply.',
 ['lib/strfunc.cpp'], [('sql_quote/sql_unquote', 'lib/strfunc.cpp'), ('js_quote/js_unquote', 'lib/strfunc.cpp')])
prop('P05', 'Wildcard matching of counter names follows its definition',
 'In a pattern, "*" matches any run of characters, "?" any run without a dot, and every other character itself; for every name and pattern the answer equals this definition and matching always terminates.',
 ['inputs'], 'every name and pattern within the bounds', 'Backtracking bugs need specific pattern/name combinations that example tests do not contain.',
 ['lib/strfunc.cpp'], [('str_pat_match', 'lib/strfunc.cpp str_pat_match()')])
prop('P06', 'URL-decoding and query parsing return what the client encoded',
 'A percent-encoded text decodes to the bytes that were encoded ("+" to a space), an escape cut off by the end of the text becomes a percent sign, malformed escapes never lengthen the text or read outside it, and a query string of encoded key=value pairs yields exactly those keys and values.',
 ['inputs'], 'every short byte string; every encoded pair list within the bounds', 'Tests sample a few escapes; every byte value and truncation point matters because the input is attacker controlled.',
 ['lib/strfunc.cpp'], [('urldecode', 'lib/strfunc.cpp urldecode()'), ('querystring', 'lib/strfunc.cpp querystring()')])
prop('P07', 'Splitting text loses nothing and returns the right number of fields',
 'Splitting a text at a separator, into two, a bounded number of, or all fields, reports the number of fields found, never leaves a separator inside a field that should end there, and joining the fields gives the text back; trimming removes exactly the surrounding white space.',
 ['inputs'], 'every short byte string and every field count from 2 to 6', 'Tests sample fixed texts; empty fields and the last field of each variant are off-by-one territory.',
 ['lib/strfunc.cpp', 'include/istat/strfunc.h'], [('split/splitn/explode/trim', 'lib/strfunc.cpp')])
prop('P08', 'Bucket statistics combine exactly and stay finite',
 'Merging buckets adds counts, sums and sums of squares, takes the extremes, is commutative and associative for exactly representable values and leaves an empty bucket as the identity; collated events add up to one total with count one. Averages and deviations are the textbook values and never negative or undefined, out-of-range values are reported as the largest finite value of their sign, and blending with a weight is the weighted mean with a count of at least one.',
 ['inputs'], 'every pair/triple of buckets with values in the stated ranges', 'Tests use a few literal buckets; sign, overflow, cancellation and emptiness combinations are not sampled.',
 ['lib/Bucket.cpp', 'include/istat/Bucket.h'], [('Bucket::update', 'lib/Bucket.cpp'), ('Bucket::expUpdate', 'lib/Bucket.cpp'), ('Bucket::avg/sdev', 'lib/Bucket.cpp')])
prop('P09', 'Every accepted record is found in its interval, and nothing else',
 'After any sequence of records to a counter file, each interval inside the retained window reads back exactly the combination of the records made for it (or the imported value, for the import modes), every other interval reads as having no data, records older than the window are refused, and the running totals equal what was accepted. This holds before and after flushing, closing and reopening, for plain, collated and fixed-count files.',
 ['histories', 'inputs'], 'all 2-record (3-record) histories over boundary slots with arbitrary offsets and values', 'Tests replay a few fixed timelines; wrap-around, lap aliasing, page edges and times before creation combine in more ways than they sample.',
 ['lib/StatFile.cpp', 'lib/Mmap.cpp', 'lib/Bucket.cpp'], [('StatFile::rawUpdateBucket', 'lib/StatFile.cpp'), ('page cache', 'lib/StatFile.cpp mapSinglePage()')])
prop('P10', 'Time-to-slot arithmetic, range reads and file geometry are exact',
 'Every time maps to the one interval that contains it, is inside the file exactly when that interval is within the retained window, and rounding up gives the next boundary. Reading any range returns, in time order and once each, exactly the recorded intervals of the range that are still retained; a new file holds at least the requested samples in whole pages, an existing file keeps its own geometry, and a read-only open never changes the file.',
 ['inputs', 'histories', 'configurations'], 'every time near the creation time, every sample count, boundary ranges', 'Tests check a few indices after creation time; negative distances and window edges are not covered.',
 ['lib/StatFile.cpp'], [('mapTimeToBucketIndex', 'lib/StatFile.cpp'), ('readBuckets', 'lib/StatFile.cpp'), ('writeNewHeader', 'lib/StatFile.cpp')])
prop('P11', 'Opening a foreign or damaged counter file never destroys or misuses it',
 'A non-empty file that is too short for a header, lacks the magic, or was written by a newer version is refused and left byte for byte as it was, by every way of opening it. A file with the right magic and arbitrary geometry in its header is either refused or used without any access outside its memory, crash or division by zero.',
 ['inputs'], 'arbitrary header bytes and file sizes within the bounds', 'Tests only open files istatd created.',
 ['lib/StatFile.cpp', 'lib/Mmap.cpp'], [('header validation', 'lib/StatFile.cpp open()')])
prop('P12', 'A crash or full disk never loses flushed data or leaves an unusable counter file',
 'After the process dies between any two changes it makes to the disk, or any one of them fails for lack of space, the counter file can be opened again with its settings, keeps accepting records, and (after a crash) every interval that had been flushed reads back as flushed or as later updated.',
 ['crash_points', 'fault_sequences'], 'every crash point and every single disk-full failure in create, record, flush, record, flush, close', 'No test interrupts the writer.',
 ['lib/StatFile.cpp', 'lib/Mmap.cpp'], [('creation order', 'lib/StatFile.cpp writeNewHeader()'), ('flush', 'lib/StatFile.cpp flush()')])
prop('P13', 'Trailing files blend each interval with the same interval one season before',
 'In a trailing-average file each interval, once three newer ones have begun or it is flushed out, reads back as the weighted mean of what was recorded and the value stored exactly one season earlier, or as recorded when that interval holds no data. No other interval changes, intervals that left the window are dropped, and nothing outside the file is touched.',
 ['histories', 'inputs'], 'all sequences of 4 (5) records over same/next/season/window/page distances with arbitrary values, three geometries', 'One test checks a single season step; jumps, window edges and page-cache interactions are not covered.',
 ['lib/StatFile.cpp', 'lib/Bucket.cpp'], [('flushOneExpBucket', 'lib/StatFile.cpp'), ('getTrailingBucket', 'lib/StatFile.cpp')])
prop('P14', 'Event counters: every accepted event is counted exactly once per level',
 'Events of a collated counter are accepted when they are at most one interval in the future and not older than the collation window (five intervals ending at the newest event or flush time). After a flush or close, the finest level holds for each interval the total of its accepted events divided by the interval length and zero or nothing elsewhere, and each coarser level holds the exact total of the events in its interval with the fixed sample count; nothing is lost, doubled or moved by late events, idle gaps, window shifts, flushes, or closing and reopening the counter.',
 ['histories', 'inputs'], 'all sequences of 2 or 3 events, flushes, forced flushes, reopenings and clock advances with arbitrary event values', 'Tests replay a few timelines; which interval is shifted out, rewritten or zeroed depends on the order of late events, gaps and flushes.',
 ['daemon/StatCounter.cpp', 'lib/StatFile.cpp'], [('collation window', 'daemon/StatCounter.cpp shiftCollated()'), ('acceptance', 'daemon/StatCounter.cpp record()'), ('closing', 'daemon/StatCounter.cpp ~StatCounter()')], note='Recording into an interval that already had events before a reopen is known finding K2.')
prop('P15', 'A gauge sample reaches every retention level or none',
 'A sample of a gauge is rejected, without any effect, when it has no samples, lies more than a minute in the future, or its average is outside its minimum and maximum (beyond rounding). Otherwise every retention level whose window still holds its time combines it into the interval it belongs to; all other intervals keep what they had, also across closing and reopening.',
 ['histories', 'inputs'], 'all pairs of samples over 10 boundary times with arbitrary values and kinds', 'Tests check one level and a few rejected samples; levels have windows of different lengths.',
 ['daemon/StatCounter.cpp', 'lib/StatFile.cpp'], [('record', 'daemon/StatCounter.cpp record()')])
prop('P16', 'A range query returns exactly the data of its range, aligned and in order',
 'A query for a range normalises it outwards to whole intervals of the reply, at most one interval on each side, and to no more buckets than asked for (plus the two ends) as long as they need not be longer than a day; one bucket means one bucket. The reply lists buckets in time order, on interval boundaries, inside the normalised range, and when the finest file still holds the start, the buckets together hold exactly the samples of the range and each exactly those of its own interval, for gauges and event counters. No range, however long, late or empty, crashes the server or makes it allocate more than a file holds.',
 ['inputs', 'histories'], 'boundary starts, lengths, limits and intervals with arbitrary offsets; two samples at arbitrary places with arbitrary values', 'Tests check a few ranges; alignment, gaps, window edges, limits and extreme times combine.',
 ['daemon/StatCounter.cpp', 'lib/StatFile.cpp'], [('normalizeRange', 'daemon/StatCounter.cpp'), ('readBucketsFromFile', 'daemon/StatCounter.cpp'), ('reduce', 'daemon/StatCounter.cpp')])
prop('P17', 'A retention policy text yields exactly its levels or is refused',
 'A text of comma-separated entries interval:length[:name[:weight]] yields those levels in order, each with length/interval samples, its name (default: the interval text) and its weight. It is refused when an entry has no length, a zero or unparsable interval, a length shorter than the interval, a weight that is not a plain number strictly between 0 and 1, an interval not longer than that of the level before (weighted levels excepted), or a plain level after a weighted one.',
 ['inputs', 'configurations'], 'all one- and two-entry texts over the tables, all short byte strings', 'One fixed policy is tested.',
 ['daemon/Retention.cpp'], [('addInterval', 'daemon/Retention.cpp')])
prop('P18', 'A record line records exactly its samples or nothing',
 'A line of 2, 3 or 7 fields separated by white space (name value; name time value; name time sum sumsq min max count) records, for each counter its name expands to, exactly that sample; spacing and line endings do not matter, NaN counts as 0, fields beyond the seventh are ignored. Any other line - 1, 4, 5 or 6 fields, a malformed or out-of-range number, a reserved first character, empty - records nothing, for none of its names, and does not disturb the lines after it.',
 ['inputs'], 'all lines over the tables of field texts, separators and endings; all short lines over the syntax characters', 'Tests send a handful of well-formed lines.',
 ['daemon/StatServer.cpp', 'lib/strfunc.cpp'], [('handle_counter_cmd', 'daemon/StatServer.cpp'), ('number parsing', 'daemon/StatServer.cpp to_double()')])
prop('P19', 'What is recorded does not depend on how lines arrive',
 'The lines of a TCP stream are recorded as if handled one by one, in order, however the stream is cut into segments and however connections interleave; an unfinished line is used once its newline arrives and dropped when the connection ends. A UDP packet of at least five bytes that ends with a newline records the same as its lines do on TCP (lines of one character, which record nothing, may be skipped); any other packet or a receive error records nothing, and receiving resumes within two seconds.',
 ['inputs', 'schedules'], 'all texts of up to 2 (3) lines from a table, cut at every pair of places', 'Tests send whole lines.',
 ['daemon/StatServer.cpp', 'daemon/EagerConnection.cpp', 'daemon/EagerConnectionFactory.cpp'], [('handle_inputData', 'daemon/StatServer.cpp'), ('on_udp_recv', 'daemon/StatServer.cpp'), ('on_read/consume', 'daemon/EagerConnection.cpp')])
prop('P20', 'Outgoing connections deliver lines in order, once, and keep retrying',
 'On an outgoing connection each established connection first sends the initial data, then the written lines whole and in order; no line is sent twice, and a line is lost only if it was part of the write under way when a connection broke, or pruned because the backlog exceeds its limit (oldest whole lines first, the newest is kept). At most one read and one write are outstanding. After a failed resolve, connect, read or write it tries again within 200 seconds, until it is closed; after that it refuses data and never reconnects. Writers on other threads do not disturb this.',
 ['histories', 'schedules', 'fault_sequences'], 'all sequences of 4 (6) events with delayed handlers; one or two writer threads with up to three preemptions', 'Connection failures and their timing are not tested.',
 ['daemon/EagerConnection.cpp'], [('writeOut/startWrite', 'daemon/EagerConnection.cpp'), ('reconnecting', 'daemon/EagerConnection.cpp tryLater()')])
prop('P21', 'An agent forwards every accepted sample exactly once',
 'Every sample received whose ten-second interval lies at most three intervals before or one after that of the first sample of its counter in the round is forwarded in one line its receiver understands, to one agent, exactly once: per counter and interval the forwarded sums (and for gauges count, minimum, maximum and, in single precision, squares) equal what was received; anything else is not forwarded. Data waits for an unreachable agent that was chosen; after four rounds without connection an agent gets no new data until it is back. A flush request is answered exactly once.',
 ['inputs', 'histories', 'fault_sequences'], 'all sequences of 1 or 2 samples over 9 times, 4 values, 3 forms, 2 counters with agents connecting early, late or after the round', 'One functional test forwards a single sample.',
 ['daemon/StatServer.cpp', 'daemon/Bucketizer.cpp', 'daemon/EagerConnection.cpp'], [('clearForward', 'daemon/StatServer.cpp'), ('Bucketizer::update', 'daemon/Bucketizer.cpp'), ('AgentFlushRequest', 'daemon/StatServer.cpp')], note='A flush request may be answered before the data it covers was sent: known finding K3.')
prop('P22', 'Every HTTP request gets one complete reply and its resources are released',
 'Whatever bytes a client sends and however they are cut into segments, the server answers a complete request (header block with a blank line, and a body of exactly Content-Length bytes for POST) with exactly one HTTP reply whose Content-Length is the length of its body, closes the connection, and returns the count of current requests to zero; the reply does not depend on the segmentation, and errors are reported as 4xx with a JSON error text. Malformed requests, bodies that are no JSON object, are nested deeply or larger than 64 MiB, and clients that leave early or do not read the reply crash or block nothing: later requests are answered the same.',
 ['inputs', 'schedules', 'fault_sequences'], 'all requests of a table cut anywhere; 2 (3) arbitrary bytes at 8 places of a request and in JSON bodies', 'Tests send whole well-formed requests.',
 ['daemon/HttpServer.cpp', 'daemon/RequestInFlight.cpp', 'lib/jsoncpp.cpp'], [('parseMethod/parseHeaders/on_body', 'daemon/HttpServer.cpp'), ('go/complete/on_multigetBody', 'daemon/RequestInFlight.cpp')])
prop('P23', 'Replies use only a content coding the client accepts, and say which',
 'A reply is compressed only with gzip or deflate, only if the Accept-Encoding header lists that coding (or *) with a weight above zero and ranks no other gzip, deflate or identity entry above it; the Content-Encoding header names exactly the coding applied, and its absence means none was. A header listing just gzip or just deflate with full weight is honoured. Any other header text still gets a complete reply.',
 ['inputs'], 'all headers of up to 2 (3) codings of 5 names and 6 weights, over 4 kinds of reply; 2 (3) arbitrary bytes', 'Two functional tests use one header each.',
 ['daemon/HttpServer.cpp', 'daemon/RequestInFlight.cpp'], [('AcceptEncodingHeader', 'daemon/HttpServer.cpp'), ('prepareEncoding/chooseEncoding', 'daemon/RequestInFlight.cpp')])
prop('P24', 'HTTP data replies are valid and complete',
 'Every JSON reply is one valid JSON object with no member twice. A multi-get reply has one member for every distinct requested name: the series (range, interval, every bucket with all eight figures, compact or not) of a known counter, or "Not found."; plus the common start, stop and interval, and nothing else. A listing repeats the pattern and has every matching counter with its leaf flag and type; the agent list has every agent with the texts it sent and whether it is connected; a counter query returns every bucket of the resolved range in JSON or CSV, defaulting to the last 15 minutes, and refuses a range that ends before it starts.',
 ['inputs'], 'all lists of up to 2 (3) keys of 11, texts of 1 (2) arbitrary bytes, 7 start and end times', 'Tests look for a few fixed strings in replies.',
 ['daemon/RequestInFlight.cpp', 'lib/jsoncpp.cpp', 'lib/Bucket.cpp'], [('MultiCounterWorker', 'daemon/RequestInFlight.cpp'), ('generateCounterJson/CSV', 'daemon/RequestInFlight.cpp'), ('createCountersMatchingResponse/listAgentsMatching', 'daemon/RequestInFlight.cpp')])
prop('P25', 'Only files of the files directory are served, unchanged',
 'GET /files/NAME and /?f=NAME reply 200 with exactly the content of the file NAME (every / replaced by a dot) of the files directory when that is a regular file of at most 1 MiB, / replies index.html and /favicon.ico favicon.ico; anything else is refused. No name reaches a file outside that directory, and no file stays open.',
 ['inputs'], 'all names of up to 4 (5) characters of . / a A (%)', 'Tests fetch one file.',
 ['daemon/RequestInFlight.cpp'], [('serveFile', 'daemon/RequestInFlight.cpp')])
prop('P26', 'Samples reach their counter and its aggregates exactly once; lists are exact',
 'Every sample recorded under a name whose components are all non-empty reaches the counter of that name, created on first use with the kind its leading * says, and, with aggregation over N levels, each of its up to N ancestors, exactly once, unchanged and in order; other names record nothing. With recursive creation every ancestor is created too; without it a name that extends an existing counter is refused. No two counters ever share a directory. A listing has exactly the existing counters and their ancestors, each once, with its type, and a leaf flag exactly on counters nothing lies below. All this holds for any number of threads recording, listing and deleting.',
 ['inputs', 'histories', 'schedules'], 'all sequences of 3 (4) operations, names of 3 (4) characters, every schedule of 2 or 3 threads with up to 2 (3) preemptions', 'Tests use a few names, one after the other.',
 ['daemon/StatStore.cpp', 'daemon/AllKeys.cpp', 'daemon/ShardedMap.h'], [('record/openCounter', 'daemon/StatStore.cpp'), ('AllKeys', 'daemon/AllKeys.cpp'), ('KeyMatch', 'daemon/AllKeys.cpp')])
prop('P27', 'Deleting counters removes exactly those, into a backup; the store works on',
 'Deleting a counter or a pattern removes exactly the named existing counters, is reported done exactly once, and moves their files, with all their data including pending events, to the same place under STORE.bak; afterwards the listing lacks them, recording under such a name starts a new counter that gets every sample, and no other counter loses a sample. It holds however deletions, records, flushes and the handlers they start overlap, for bursts of deletions, and when a file operation fails: then every counter still has its data in the store or in the backup, and the rest of the batch is deleted.',
 ['histories', 'schedules', 'fault_sequences'], 'all orders of 4 (7) operations and handlers; each of 12 file operations failing; every schedule of 3 threads with up to 2 (3) preemptions', 'One functional test deletes idle counters.',
 ['daemon/StatStore.cpp', 'daemon/StatCounter.cpp', 'daemon/AllKeys.cpp'], [('Deleter/deleteCounter/refreshAllKeys', 'daemon/StatStore.cpp'), ('purge', 'daemon/StatCounter.cpp')], note='A second deletion under the same name leaves the first backup in place; what the backup then holds is not pinned.')
prop('P28', 'A restart finds every counter; counters are flushed and dirs pruned in time',
 'When the daemon starts on an existing store it offers exactly the counters with files there (with recursive creation, one for every directory), with their data and kind, ignoring hidden entries and plain files. While it runs every counter is flushed at least once per flush interval (up to rounding by the number of counters), whatever is created or deleted meanwhile. Within two pruning intervals every empty directory below the store is removed, and nothing else: never a file, a directory in use or the store itself; the store works on.',
 ['histories', 'inputs'], 'all sets of 7 directories; 1..6 (12) counters with a deletion at any time; all values', 'Tests restart a daemon with one or two counters.',
 ['daemon/StatStore.cpp', 'daemon/StatCounterFactory.cpp'], [('scanDir/loadCtr', 'daemon/StatStore.cpp'), ('syncNext/flushOne', 'daemon/StatStore.cpp'), ('pruneEmptyDirs', 'daemon/StatStore.cpp')])
prop('P29', 'Settings survive flushes, restarts, crashes and full disks, and none is lost',
 'A setting under a valid key (no white space, quotes, brackets or other reserved characters) and with a non-empty value reads back byte for byte: at once, through any handle, after a flush, after the save timer and in a restarted daemon; an empty value removes it. Files are independent. A crash at any point of a save leaves the complete old or the complete new settings; a failing disk keeps the new ones in the running daemon, is reported nowhere but the log, and the save is tried again later, not in a tight loop. A setting made while another thread or an administrator flushes, opens or saves is not lost. A file edited by hand is read with white space around keys and values ignored and # lines skipped, is not overwritten by a flush when nothing was set, and is loaded again after a flush.',
 ['inputs', 'histories', 'fault_sequences', 'schedules'], 'values of 0..2 (3) and keys of 2 (3) arbitrary bytes, all sequences of 3 (4) operations, a crash or (lasting) failure at each disk change of a save, three threads with up to 2 (3) preemptions', 'Tests set two plain values and flush once, without faults or threads.',
 ['daemon/Settings.cpp', 'lib/strfunc.cpp'], [('save/write/queueSave', 'daemon/Settings.cpp'), ('loadSettingsPath/open/flush', 'daemon/Settings.cpp'), ('sql_quote', 'lib/strfunc.cpp')])
prop('P30', 'The Prometheus page is valid and has exactly the samples sent',
 'GET /metrics always replies 200 with one valid text/plain exposition (version 0.0.4): each name typed before its samples and with one type, names, labels and escapes well formed, whatever names and label values agents send. It has every gauge sample of the last 30 seconds, and every counter reported in the last day as one series per name and set of labels with the running sum (restarting at 2^32), each with its value exact to 13 digits, its time, and its allowed labels (host, role, class, pool, proxy_pool, cluster) unchanged, and nothing else; an aggregated gauge record shows its average. What is no longer reported disappears. Other paths and methods are refused with a complete reply, and no client stops the page.',
 ['inputs', 'histories'], 'all sequences of 2 (3) of 18 lines; 1 arbitrary byte or 2 (3) of 17 characters in names and labels; 2 (3) samples at any times in 100 s (25 h); 7 requests cut anywhere', 'Tests compare a few fixed pages.',
 ['daemon/PromExporter.cpp', 'daemon/PromServer.cpp', 'daemon/RequestInFlight.cpp', 'daemon/StatServer.cpp', 'lib/strfunc.cpp'], [('storeMetrics/extract_tags/toString', 'daemon/PromExporter.cpp'), ('servePrometheus', 'daemon/RequestInFlight.cpp'), ('onCleanup/onRemoveStaleCounter', 'daemon/PromExporter.cpp')], note='Several samples of one gauge, and the samples of one name not standing together, are pinned by tests and accepted.')
