"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

SD='stream2py/utility/sorted_deque.py'; SC='stream2py/utility/sorted_collection.py'
RW='stream2py/utility/reader_writer_lock.py'; LD='stream2py/utility/locked_sorted_deque.py'
SB='stream2py/stream_buffer.py'; BR='stream2py/buffer_reader.py'; SR='stream2py/source_reader.py'
SS='stream2py/stream_source.py'; SI='stream2py/simply.py'; UT='stream2py/util.py'; HT='stream2py/sources/http.py'

p('C01','Sorted containers answer every query like a plain sorted list',
  "After any sequence of operations, the sorted collection and the sorted deque hold exactly the items, in exactly the order, that a plain list kept sorted by key would hold (equal keys: insert adds to the left, insert_right to the right; building, copying and re-keying keep their order without comparing items; remove takes the first match). "
  "Every query (length, indexing, forward and reverse iteration, membership, index, count, find equal / at-or-below / below / at-or-above / above / last-above, inclusive key range with step, positional range) returns what a linear scan of that list returns. "
  "A search with no match raises ValueError, a range with no match is an empty list, and no query changes the container.",
  ['histories','inputs'],
  "every sequence of mutating operations up to the bound over a small key domain with colliding keys, and at every reached state every query with every probe key (present, between keys, below all, above all)",
  "The repository's tests touch the containers with one happy-path history (100 ascending items); duplicates, in-between probes, single-element and empty containers after removals are never reached.",
  [SC,SD],[('bisect over a key list kept parallel to the item list', SC),('deque-specific index/count/contains/range',SD)],
  [('_keys/_items','two parallel sequences; position i of one describes position i of the other',SC)],
  ['SortedCollection','SortedDeque'])

p('C02','A bounded sorted deque keeps the newest items and refuses stale appends',
  "Appending succeeds exactly when the new key is strictly greater than the last key (or the deque is empty); otherwise it raises ValueError and leaves the deque unchanged. "
  "A deque never holds more than its maximum length: an append to a full deque evicts exactly the lowest item, lowering the maximum length keeps the highest-keyed items, and dropping n items removes exactly the n lowest. "
  "Copying, pickling, clearing and changing the key function keep the bound, the key function and the content (none after clearing).",
  ['histories','configurations'],
  "every sequence of append / drop / re-key / re-bound / clear / copy / pickle operations up to the bound, for maximum lengths 1, 2, 3 and unlimited",
  "One test appends past maxlen once; rebounding, rekeying, copying a bounded deque, failing appends at the boundary and dropping interleaved with eviction are never combined.",
  [SD,SC],[('deque(maxlen) for keys and items',SD),('strictly-greater check in append',SD),('maxlen and key properties re-initialise the deque',SD)],
  [('maxlen','bound on both parallel deques',SD)],['SortedDeque'])

p('C03','Reader-writer lock: writers are exclusive and nobody hangs',
  "While a writer is between acquire and release no other writer and no reader is, however the threads interleave. "
  "Every acquire eventually returns when all holders release (no interleaving of balanced, non-nested acquire/release pairs deadlocks), and after all have released the lock is as good as new, also when the guarded block raised.",
  ['schedules'],
  "all interleavings (no preemption bound) of 2-3 threads, each doing 1-2 reader or writer sections on one lock",
  "The lock has no test that runs; a handful of timed sleeps could show one schedule, never all of them.",
  [RW,LD],[('light switches over no_readers / no_writers / readers_queue locks',RW),('context managers that acquire and release',LD)],
  [('reader and writer counters','first in locks, last out unlocks',RW)],
  ['RWLock.reader_acquire/reader_release/writer_acquire/writer_release','RWLockSortedDeque.reader_lock/writer_lock'])

p('C04','Reader-writer lock: readers share, and a waiting writer goes before new readers',
  "A reader can enter while other readers are inside as long as no writer holds the lock or waits for it. "
  "Once a writer is waiting, a reader that arrives later does not enter before that writer has entered, and when several writers are waiting they all go before the readers that are waiting. ",
  ['schedules'],
  "all interleavings of the arrival/exit scripts with up to 3 readers and 2 writers, where 'later' means the writer was already blocked when the reader started to acquire",
  "The recipe's own scenario tests are dead code (they use a removed unittest API and are not collected), and they sample one timing each.",
  [RW],[('a waiting writer turns off the no_readers switch; readers queue behind it',RW)],
  [('no_readers','held while any writer waits or writes',RW)],['RWLock'])

p('C05','Reader calls see one consistent snapshot of the buffer during ingestion',
  "While the stream is being ingested (with eviction and manual drops) from another thread, every result of a reader's read, multi-item read, range, head or tail equals what the same call would return on the buffer as it was at one single moment between the call's start and its return, and those moments never go backwards for one reader. "
  "No such call fails because ingestion happened concurrently.",
  ['schedules'],
  "all interleavings, up to the preemption bound and at source-line granularity, of the ingesting thread with one or two reading threads that each do a short script of reader calls, with buffers small enough to evict",
  "The tests read from a buffer whose source is idle or slow, so an append never lands inside a reader call; torn keys/items, unlocked reads or eviction between two look-ups need one specific interleaving.",
  [SB,BR,LD,SD],[('reader call bodies run under the reader lock, appends and drops under the writer lock',BR+' '+SB)],
  [('buffer','shared sorted deque behind a reader-writer lock',SB)],
  ['StreamBuffer.mk_reader','BufferReader.read/range/head/tail','StreamBuffer.drop'])

p('C06','No combination of reader calls, drops and ingestion deadlocks',
  "Any reader call with any combination of its options, and any making of a reader, iteration or status query on the stream buffer, running concurrently with ingestion, with manual drops and with calls on other readers of the same buffer, finishes, and ingestion goes on afterwards. "
  "In particular a call that fails or finds nothing leaves the buffer usable by everybody else.",
  ['schedules'],
  "all interleavings up to the preemption bound (at lock-operation granularity) of ingestion with every pair of reader calls from a catalogue of all option combinations that take different paths, including failing ones",
  "A deadlock here needs a writer to arrive inside one particular reader call; the tests never have a writer arrive inside any call and never combine the options.",
  [BR,LD,RW,SB],[('one reader-lock section per reader call, released on every path',BR),('writer sections released on error',SB)],
  [],['BufferReader','StreamBuffer'])

p('C07','Successive reads deliver every retained item exactly once, in key order',
  "A read returns the buffered item with the smallest key greater than the reader's last seen key (for n > 1 the list of the up to n smallest such items), so a reader that only reads gets every item that is not dropped before it gets there exactly once, in order. "
  "With no newer item it raises ValueError, or returns None if told to ignore that; with strict_n it raises ValueError exactly when fewer than n newer items are buffered. "
  "Options left out of a call take the values the reader was made with (item count, peek, strictness, ignoring), also when iterating. A list that is returned is the caller's: changing it changes nothing else, and no later call changes it.",
  ['histories','inputs'],
  "every sequence of appends, drops/evictions and read calls up to the bound, crossed with every combination of read options and reader defaults",
  "The tests read one item at a time from an ample buffer; multi-item reads near the end of the buffer, strict counts, defaults and cursors that fell off the buffer are untested.",
  [BR,SD],[('find_gt(last key) then positional slice',BR),('defaulting of call options from reader options',BR)],
  [('last item / last key','the cursor',BR)],['BufferReader.read','BufferReader.__next__','StreamBuffer.mk_reader'])

p('C08','Range queries return exactly the buffered items of the requested key range',
  "range(start, stop, step) returns, in order, every step-th buffered item whose key lies in [start, stop] inclusive; start_le first rounds start down to the nearest buffered key at or below it (if there is one), stop_ge rounds stop up to the nearest buffered key at or above it and fails with ValueError (None when ignoring) if there is none. "
  "only_new_items restricts the range to items newer than the reader's last seen item and fails with ValueError (None when ignoring) when there are none, whatever kind of values the keys are. "
  "A non-peeking range that finds nothing raises, or returns None when ignoring. The list returned is the caller's own.",
  ['inputs','histories'],
  "every buffer content over a small gapped key domain (including evicted prefixes), every cursor, every start/stop (present, between, outside, reversed), step and flag combination, for integer, tuple and string keys",
  "The doctests query one dense buffer of 100 integers with few flag combinations; start_le / stop_ge are never exercised and only_new_items once.",
  [BR,SD],[('bisect bounds with rounding look-ups under one reader lock',BR),('inclusive key range',SD)],
  [],['BufferReader.range'])

p('C09','Cursors move only on successful non-peeking calls, and only the caller\'s own',
  "After a successful non-peeking read, range, head or tail the reader's last item and last key are those of the last item returned; peeking calls and calls that fail or find nothing leave them unchanged, and assigning or deleting the last item repositions or resets the cursor. "
  "head returns the oldest and tail the newest buffered item; tail with only_new_items returns it only if it is newer than the last seen item and otherwise raises ValueError (None when ignoring). "
  "No call on one reader changes the cursor or the results of another reader, nor the content of the buffer.",
  ['histories'],
  "every sequence of up to the bound of reader calls on two readers of one buffer interleaved with appends and evictions",
  "Tests check the cursor after single successful calls on one reader; failing calls, two readers interleaved and cursors left behind by eviction are not exercised.",
  [BR],[('cursor held in each reader, set only after success and only without peek',BR)],
  [('last item / last key','the cursor',BR)],['BufferReader.last_item','BufferReader.last_key','BufferReader.head','BufferReader.tail'])

p('C10','Iteration delivers everything that was ingested before the stream ended',
  "A loop over a reader or over the stream buffer (also in chunks) that runs while the source produces and then ends — by itself failing or by being stopped — yields, in order and without duplicates, every item ingested before the end that was not dropped, and then terminates. "
  "While the stream runs, asking for the next item (by next, or by calling the stream buffer) when there is none gives None and never ends the iteration; after it ended and everything was delivered it raises StopIteration, every time.",
  ['schedules','histories'],
  "all interleavings up to the preemption bound, at source-line granularity, of a consuming thread, the ingesting thread and the stop, for all short source scripts",
  "Losing the last items needs the source to append and end between the consumer's empty look and its check for the end, a window of a few bytecodes; the tests stop an idle source.",
  [BR,SB],[('StopIteration only when stopped and nothing new',BR),('stop flag set after the last append',SB)],
  [('stop event','end of the session',SB)],['BufferReader.__iter__','BufferReader.__next__','StreamBuffer.__iter__','StreamBuffer.__next__'])

p('C11','A blocking read returns the next item, and None only at the true end',
  "A blocking read waits until a newer item is available and returns it (a list for n > 1) exactly as a plain read would, within one polling interval of it being ingested. "
  "It returns None only once the stream has stopped and everything ingested before that has been delivered, and never later than one polling interval after the stop.",
  ['schedules'],
  "all interleavings up to the preemption bound of one or two blocking consumers with the ingesting thread and with a stop, for all short source scripts with delays",
  "The tests block once on an already idle source and stop it; the race between the last append, the stop and the waiting reader is never produced.",
  [BR,SB],[('polling loop that re-reads and re-checks the stop flag',BR)],
  [('stop event','end of the session',SB)],['BufferReader.read(blocking=True)'])

p('C12','Sources are opened, read and closed in a strict discipline',
  "For any history of start, restart, stop and context-manager use, a source is only read while open, always by one thread at a time, and every successful open is followed by exactly one close before the next open. "
  "When stop returns (reads in progress completing within its one-second grace) the source is closed and is not read again; a restart never opens the source before the previous session has closed it, however long a read takes.",
  ['histories','schedules','fault_sequences'],
  "every sequence of lifecycle calls up to the bound over sources whose reads are immediate, empty, or slow (shorter and longer than the stop grace) and whose polling sleeps are short or long, under the default schedule and all schedules with up to the bounded number of preemptions",
  "The tests start and stop each buffer once or twice with an instant source; overlap of sessions needs a read or sleep that outlasts the stop.",
  [SB],[('one read thread per session that closes the source when it ends',SB),('stop flag per session',SB)],
  [('stop event / read thread','per-session',SB)],['StreamBuffer.start/stop/__enter__/__exit__','Source.open/read/close'])

p('C13','Sessions are isolated: a restart never mixes old and new data',
  "After a restart, readers of the new session see only data read since its open, from the first item on, and readers of the old session keep seeing only the old data, report stopped, and do not compare as the same buffer. "
  "Nothing the old session still has in progress (a read in flight, its shutdown) can add to, end or close the new session, and iterating the stream buffer itself after a restart follows the new session.",
  ['schedules','histories'],
  "all histories of up to three sessions with slow or failing reads in flight at the restart, with readers kept from every session, under all schedules up to the preemption bound",
  "One test restarts an idle source and compares timestamps; a read in flight across the restart is never produced.",
  [SB,BR],[('buffer, stop flag and thread are created afresh for each session',SB)],
  [('source buffer','per-session',SB)],['StreamBuffer.start','StreamBuffer.mk_reader','BufferReader.is_stopped','BufferReader.is_same_buffer'])

p('C14','A failing source ends the stream cleanly and loses nothing already ingested',
  "If reading raises, or a read item's key is not greater than the previous one or cannot be computed, the session ends: the source is closed exactly once, the buffer reports not running, its readers report stopped, and everything ingested before stays readable and in order. "
  "If opening or describing the source raises, the error reaches the caller, the buffer does not report running and a source that was opened is closed; an error while closing is contained. "
  "In every case the buffer can be started again and then works as new.",
  ['fault_sequences','histories'],
  "every placement of one or two faults (open, info, read n-th, key, out-of-order key, close) in every lifecycle history up to the bound",
  "No test injects a fault into any source method.",
  [SB],[('finally block of the read loop sets the stop flag and closes',SB),('start opens before it creates the buffer',SB)],
  [],['StreamBuffer.start','StreamBuffer.is_running','BufferReader.is_stopped'])

p('C15','The buffer retains exactly the promised window',
  "With automatic dropping the buffer always holds exactly the most recent maxlen ingested items (all of them when unlimited) and never stops reading the source. "
  "Without it nothing is ever lost: reading pauses while the buffer is full, each manual drop removes exactly the oldest n items and ingestion resumes, so every source item appears once and in order; an unlimited buffer never pauses. "
  "Manual dropping while automatic dropping is on is refused and changes nothing.",
  ['histories','configurations','schedules'],
  "all maxlen in {1,2,3,unlimited} x dropping modes x sequences of drops, reads and source production up to the bound, plus all schedules up to the preemption bound of a drop racing with ingestion",
  "No test uses auto_drop=False, drop(), maxlen=None with a StreamBuffer, or fills a StreamBuffer.",
  [SB,SD],[('full check before reading the source when auto_drop is off',SB),('bounded deque',SD)],
  [('maxlen / auto_drop','retention policy',SB)],['StreamBuffer','StreamBuffer.drop'])

p('C16','A stream source is open exactly while it has open readers, and can be reopened',
  "Opening the first reader opens and starts the source, further readers share that session, and the source is closed exactly once, when the last open reader is closed, no matter in which order, from which threads or how many times readers are closed. "
  "A reader that cannot be made or opened does not count. Opening a reader afterwards, or after a failed open, starts a fresh session: the source is opened again and the reader sees that session's data from the beginning.",
  ['histories','schedules','fault_sequences'],
  "every sequence of open / close / close-again / read on up to three readers up to the bound, with failing opens, and all schedules up to the preemption bound of readers closed from two threads",
  "The tests open one or two readers and close one; closing twice, reopening and reading fresh data, and concurrent closes are not covered (the reopening doctest passes on stale data).",
  [SS,BR,SB],[('count of open readers; last close stops the buffer',SS),('onclose callback of the reader',BR)],
  [('open reader count','0 means the source is closed',SS)],['StreamSource.open_reader','BufferReader.close','BufferReader.__exit__'])

p('C17','mk_stream_buffer: faithful wiring of plain functions to a stream',
  "The stream opens before the body runs and is closed exactly once with the opened instance when the body ends, normally or by exception (which propagates); each read, close and info call gets exactly the opened instance. "
  "Data arrives in order, wrapped with consecutive indices 0, 1, 2, ... when enumerating and unwrapped otherwise, ordered by the given key; a read of None means 'no data yet' and never becomes an item. "
  "Without an info function the info names the instance and the time it was opened, for each session anew. Given options (maxlen, dropping, polling sleep) take effect.",
  ['configurations','histories','fault_sequences'],
  "all combinations of the optional functions and options x all short read scripts over {item, None, raise} x bodies that read, drop, or raise",
  "mk_stream_buffer has no test at all.",
  [SI,SB],[('ad-hoc SourceReader built from the functions, wrapped in a StreamBuffer context',SI)],
  [('read index','enumeration counter',SI)],['stream2py.simply.mk_stream_buffer'])

p('C18','The HTTP source delivers the response faithfully, chunk by chunk',
  "Opening sends one request with the configured URL, method, headers and (except for GET) body; reads return (time, chunk) pairs whose chunks concatenate to exactly the response payload, in order, for every way the response is split into chunks, decoded with the given encoding even when a character is split across chunks, never more at a time than the configured read size. "
  "At the end of the response a read returns None (no data) rather than an item, the info has the configuration of the request and the number of bytes received, and closing closes the response, also twice. A stream of it delivers the whole response whatever the wall clock does meanwhile (coarse, standing, set back).",
  ['inputs','fault_sequences'],
  "every short payload over 1-4 byte characters, every split into chunks, every encoding option and request configuration",
  "Only a skipped doctest mentions it; tests have no network and no short reads.",
  [HT],[('urlopen + response.read(*args), decode per chunk',HT)],
  [],['HTTPResponseReader.open/read/close/info'])

p('C19','The context-forwarding wrapper calls, enters and exits exactly like the original',
  "Calling the wrapper passes arguments, results and exceptions through unchanged and exposes the wrapped callable's attributes; using it as a context runs the enter function once with the wrapped callable and returns its result, and the exit function once with the wrapped callable and the exception details, whose return value decides whether the exception is suppressed. "
  "For bound methods the context is that of the instance. At construction a non-callable, an enter function without parameters and an exit function that is not variadic and has fewer than four parameters (the callable and three exception details) are rejected with TypeError, and functions that can be called that way are accepted.",
  ['inputs','histories'],
  "all sequences of enter / call / raise / exit up to the bound over functions of every small signature, and every signature shape for the enter and exit functions",
  "One happy path is tested; suppression, exceptions and rejection of bad signatures are not.",
  [UT],[('ContextualizeCall',UT),('enter/exit validation',UT)],[],['ContextualizeCall','contextualize_with_instance'])

p('C20','Source readers iterate their data in order and report closed truthfully',
  "Iterating a source reader or stream source yields, in order, exactly the valid data its read returns (by default everything but None; filtered by the quick reader's validity test), waiting the configured time after each invalid read and never ending or busy-looping because data is late. "
  "The closed flag is true before opening, false from entering a context (or opening a quick reader) and true again after leaving it, for any sequence and also when the body raises; entering opens and leaving closes exactly once. "
  "Timestamps of source readers and stream sources are the wall clock in integer microseconds.",
  ['histories','inputs'],
  "all read scripts up to the bound over {valid, invalid, None} and all sequences of enter / exit / open / close / failing bodies",
  "Tests iterate three items and read `closed` in one doctest history; late data, waiting times and failing bodies are not covered.",
  [SR,SS],[('iteration loops sleeping on no data',SR),('closed flag set in context methods',SR)],
  [('closed flag','open state',SR)],['SourceReader','QuickSourceReader','StreamSource.get_timestamp'])

p('C21','Readers can only be obtained from a fully started stream',
  "Making or attaching a reader before the first start raises the stream-not-started error, and during a concurrent (re)start it either raises that error or gives a working reader of one completely started session; it never fails otherwise. "
  "From the moment start returns, the buffer reports running (until stopped or ended) and exposes the source info captured right after opening, even before any data has arrived, and concurrent queries of these never fail. "
  "An attached reader continues, from its cursor, on the buffer it was attached to and follows that session's end.",
  ['schedules','histories'],
  "all interleavings up to the preemption bound of starting or restarting with threads that make readers, attach readers and query the state",
  "Tests call mk_reader before and after start in one thread; nothing runs while start is in progress.",
  [SB],[('start lock held while starting and while making readers',SB),('buffer created after open',SB)],
  [('source buffer','absent until opened',SB)],['StreamBuffer.mk_reader/attach_reader/is_running/source_reader_info'])

p('C22','Polling honours the configured waits and reacts to stop promptly',
  "When the source has no data the stream waits the configured time before reading again: the explicit setting of the buffer if given (zero included), else the source's own, else the default of 0.3 s; when the source has data it reads on without waiting. "
  "Waiting consumers re-check at their own configured interval. "
  "A stop is honoured without waiting for the polling interval to elapse, whatever its length.",
  ['configurations','histories'],
  "all combinations of the three settings (absent, zero, fractional, long) x read scripts up to the bound over {data, none}, under a virtual clock",
  "Real-time tests cannot measure waits reliably; none checks which setting wins or how long a stop takes with a long interval.",
  [SB,BR],[('choice of the sleep time in the constructor; wait in the read loop',SB),('iteration sleep setting',BR)],
  [],['StreamBuffer(sleep_time_on_read_none_s)','Source.sleep_time_on_read_none_s','BufferReader.set_sleep_time_on_iter_none'])

p('C23','Packaging configs survive a write-read round trip, other sections untouched',
  "Writing a section's configs (one-line strings without leading or trailing blanks, not beginning with a comment sign; non-empty lists of such strings) and reading them back returns the same strings and lists, replaces exactly that section, and leaves every other section of the file as it was; reading without naming a section returns every section. "
  "A config that is refused leaves the file unchanged. Incrementing a version adds one to its last component only, and the next version of a package is the incremented highest released one, compared number by number.",
  ['inputs','histories'],
  "all sequences of up to the bound of writes of small configs (strings, one- and two-element lists) to two sections of one file, each followed by reads, and all short version strings",
  "Only the two pure conversion functions have doctests with one value each; files are never written or read in a test.",
  ['pack.py'],[('newline-separated list encoding and its inverse','pack.py'),('read-modify-write of the ini file','pack.py')],
  [],['pack.write_configs','pack.read_configs','pack.increment_version'])

p('C24','Template filling resolves references fully or fails loudly; URL joining is clean',
  "Filling a dict of string templates replaces every reference by the (recursively filled) dict value or, if the dict lacks it, the given keyword, leaving other values and the input dict untouched; missing fields, references that never resolve (cycles) and ones that the given number of rounds does not resolve raise ValueError instead of returning a half-filled result. "
  "Joining URL parts (each with at most one slash at either end) puts exactly one slash between consecutive non-empty parts and keeps a leading and a trailing slash only if the first and last part had them.",
  ['inputs'],
  "all reference graphs over three fields (chains, diamonds, self references, cycles) with every subset of keywords given, and all part lists up to length three over a small alphabet of slash placements",
  "Doctests show two templates and four joins.",
  ['pack.py'],[('iterated partial formatting with a loop limit','pack.py'),('slash normalisation','pack.py')],
  [],['pack.format_str_vals_of_dict','pack.ujoin'])

p('C25','Options take effect as given, each for exactly the object it was given to',
  "A stream made directly, by the source's convenience method, by the one-call helper or by opening a reader of a (configured) stream source retains, polls and drops exactly as its own options or their documented defaults say, in every session, whatever options other streams and sources were given before or after. "
  "Configuring a stream source returns it, replaces its earlier configuration, and is refused with ValueError, changing nothing, once its buffer exists. "
  "A reader reads and iterates with exactly the defaults it was made with, whatever other readers were made with, and is of the reader class its source names or was given.",
  ['configurations','histories'],
  "all combinations of the options (absent, None, small values) for every way to make a stream, next to a second stream with other options, in all orders of making and starting, over two sessions; all combinations of reader defaults for pairs of readers",
  "Tests make one stream at a time with one or two options; no test has two differently configured sources or checks that an option was obeyed.",
  [SB,SS,SR,BR,SI],[('options stored by the constructor and used by the read loop',SB),('buffer options kept until the first reader is opened',SS),('read defaults kept by the reader',BR)],
  [('_buffer_kwargs','options for the buffer to be made',SS),('_read_kwargs','defaults of one reader',BR)],
  ['StreamBuffer()','SourceReader.stream_buffer','StreamSource.configure_buffer/open_reader','StreamBuffer.mk_reader','simply.mk_stream_buffer'])

p('C26','Any object with the six members of a source can be streamed, no other',
  "An object with open, read, close, info, key and sleep_time_on_read_none_s - of any class, whether they are methods, static methods, properties or plain attributes, and whatever else the object is (false, empty, not hashable, not comparable, callable, a container) - is accepted by a stream buffer, is the buffer's source_reader, and is opened, read with its own wait, ordered by its own key and closed like a SourceReader in every session; only those six members are used. "
  "An object that lacks any of them is refused when the stream buffer is made, before anything of it is called.",
  ['configurations','inputs'],
  "19 shapes of objects times waits, buffer lengths and numbers of sessions; every proper subset of the six members for three shapes, and unrelated objects",
  "Tests only use subclasses of SourceReader.",
  [SB,'stream2py/protocols.py'],[('the check of the source in the constructor',SB),('the Source protocol','stream2py/protocols.py')],
  [],['StreamBuffer()','protocols.Source'])

p('C27','Items are opaque and keys need only an order',
  "Whatever objects the items are (false, empty, equal to each other or to None, not comparable, not hashable, containers, exceptions, classes) and whatever type the keys are, as long as < and > order the keys among themselves (zero, empty, negative, infinite and handwritten ones that cannot be compared with None included), the stream hands out the very objects that were read, and every reader call gives what it would give with numbers for items: only None read from a source means no data.",
  ['inputs','histories'],
  "50 pairings of kinds of items (11) and kinds of keys (20); for each all histories of appends, drops and reader calls up to a depth, and every way to make a stream with every way to take items from it",
  "Tests use numbers and strings that are their own keys; a truth test or comparison of an item, or of a key with None, passes all of them.",
  [BR,'stream2py/utility/sorted_deque.py',SB,SI],[('cursor key and cursor item, None before the first read',BR),('bisection by keys only','stream2py/utility/sorted_collection.py'),('None is the only no-data value',SB)],
  [('_last_key','key at the cursor, None before the first read',BR)],['BufferReader','StreamBuffer','SourceReader.__iter__','SortedDeque'])

p('C28','A stream keeps its window and the cursors of its readers, and nothing else',
  "Of everything that was ever read, a stream holds on to the items in the window of its buffer (with their keys) and to the item at the cursor of each of its readers that still exists, and to no other item or key for longer than the call or read in progress: what maxlen or drop() removed, what a reader passed or handed out, the readers a program has let go of (closed ones included), and, after a restart, the sessions before it become garbage at once. "
  "So a stream of any length needs the memory of its window, and a reader needs none that grows.",
  ['histories','configurations'],
  "all histories of appends, drops, makings and forgettings of readers and 21 reader calls on buffers of 1, 2, 3 and unlimited items, and all sequences of reader, stream and restart calls on running streams made in three ways; after each, weak references tell which items, keys and readers are still alive",
  "No test looks at what is still referenced; a list of handed out items, a registry of readers or the buffers of old sessions pass all of them until memory runs out.",
  [BR,SB,'stream2py/utility/sorted_deque.py',SS],[('items and keys leave together','stream2py/utility/sorted_deque.py'),('a reader keeps its cursor only',BR),('readers are not registered',SB)],
  [('_last_item','item at the cursor',BR),('_buffer','the window of the session',SB)],['BufferReader','StreamBuffer','StreamSource','SortedDeque'])

p('C29','Streams are independent, and the reader of one can be the source of another',
  "Whatever one stream does - stand still in, or fail from, its open, info, read, key, key comparison or close - every other stream of the process, of the same class or not, starts, delivers, ends and restarts as if it were alone; and the stream that stood still goes on where it was. "
  "A stream whose source takes its items from a reader of another stream (by read, next, iteration or range; that stream started and ended by the source itself or by the program; in stages and with several streams on one) delivers the other stream's items in order, each once, in every session, and the streams of such a chain end in whatever order they are ended, each source opened and closed once per session.",
  ['schedules','fault_sequences','configurations'],
  "9 pairs of kinds of streams x 6 places to stand still or fail in x before/after, and 408 chains (kind, way of reading, owner, order of the end, depth 1-2, fan 1-2, one or two sessions), with all schedules up to a preemption bound",
  "Tests run one stream at a time, or two that never wait for each other; a lock, an event or state shared by all streams passes them.",
  [SB,SS,BR,'stream2py/utility/reader_writer_lock.py'],[('locks, events and buffers belong to one stream',SB),('the lock of the readers of one source',SS)],
  [('start_lock','start and stop of one stream',SB),('_stop_event','end of one session',SB),('_open_readers','readers of one source',SS)],['StreamBuffer','StreamSource','BufferReader','mk_stream_buffer'])

p('C30','A source may use its own stream while it is read and closed',
  "The read and close methods of a source may use the stream (or stream source) they belong to: ask whether it runs and for its info, make, attach and use readers, take the next item, drop items, close readers, stop it, and wait until somebody else stops it. "
  "Nothing of this blocks for ever, whatever the program does with the stream meanwhile - starting it again while the last read is still at it included; the source sees its own session (its info, the items it delivered so far, running until it is stopped), "
  "and every session is opened and closed once and, when nobody stops it, delivers everything.",
  ['schedules','programs'],
  "46 things done inside read (first, second, each) or close, x 6 programs of one user (plain streams and stream sources) and 4 pairs of programs of two users, and 15 ways of closing readers x 5 programs, with all schedules up to a preemption bound",
  "Sources of the tests do not know their stream; a lock that is held while the stream waits for its source deadlocks only then, and only when both meet.",
  [SB,SS],[('start waits for the thread of the previous session without its lock',SB),('is_running, mk_reader and iteration take the lock of the stream',SB)],
  [('start_lock','start, making readers, asking',SB),('_stop_event','end of one session',SB)],['StreamBuffer','StreamSource','SourceReader'])

p('C31','An interrupt that hits a waiting call leaves everything usable',
  "A call that waits - for the reader-writer lock of the buffer, for an item, for a slow source or key, for the previous session or for the pause of stop - can be interrupted at any moment of its wait by an exception such as KeyboardInterrupt, and the exception comes out of the call. "
  "What was interrupted either took place or did not: no lock stays taken, no reader counts as open that is not, a reader's cursor is where it was or after an item that was delivered, an interrupted stop has stopped, and an interrupted start has left the stream stopped with its source closed, or the session running. "
  "Other threads, running sessions and readers go on as if nothing had happened, and whatever is done next - reading on, stopping, starting again, opening and closing readers - works as always, each source being opened and closed once per session.",
  ['schedules','fault_sequences'],
  "programs of one thread on plain streams and stream sources (with slow open, info, read, key and close), programs of two threads that share readers and window, and programs of two and three threads on the lock; the main thread is interrupted in its wait at each of the moments at which everybody waits (one interrupt per run), with all schedules up to a preemption bound",
  "Ctrl-C is how programs that read streams end; no test interrupts anything, and a lock that stays taken shows only later, and in another thread.",
  ['stream2py/utility/reader_writer_lock.py','stream2py/utility/locked_sorted_deque.py',SB,SS,BR],
  [('a writer that gives up waiting switches off what it switched on','stream2py/utility/reader_writer_lock.py'),('a lock is released only if it was acquired','stream2py/utility/locked_sorted_deque.py'),('a start that fails ends the session',SB)],
  [('__readers_queue','held by a waiting reader','stream2py/utility/reader_writer_lock.py'),('start_lock','held during start',SB),('_open_readers','readers that are open',SS)],['RWLock','RWLockSortedDeque','StreamBuffer','StreamSource','BufferReader'])

p('C32','A program that uses streams can end at any point',
  "Streams never keep a program alive and never change how it ends: whether it comes to its end, calls sys.exit, or is ended by an exception or an interrupt - with streams not started, running, stopped, restarted, full, with or without readers, inside or outside a with statement - and whatever the source does at that moment (delivers, has nothing, waits, failed, or never returns from its read), the process ends within seconds, with the exit status it would have without the stream. "
  "A stream left by a with statement on the way out is closed by then, exactly once, unless its read never returns.",
  ['programs','exit_points'],
  "13 states of a program x 7 sources x 4 ways to end x 2 places to keep the stream, each run as a process of its own",
  "A test runs inside a process that goes on; a thread that is not a daemon, or a stop that waits for the source, shows when the process ends.",
  [SB,SS,SI],[('the reading thread is a daemon',SB),('stop does not wait for the read',SB),('__del__ stops',SB)],
  [('_read_to_buffer_thread','reads the source',SB)],['StreamBuffer','StreamSource','mk_stream_buffer'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
