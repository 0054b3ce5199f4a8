"""Property texts. gen.py turns this into properties.jsonl and MANIFEST.json."""
SPEC = []
def S(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    SPEC.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["code/" + f for f in files], mechanism=[dict(name=n, where="code/" + w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where="code/" + w) for n, m, w in state], observe_at=list(observe), hook_needed=hook)))
H = "header/"; C = "source/"; EC = "header/essentials/collections/"

S("A01", "Allocators hand out disjoint, aligned, in-bounds blocks that keep their contents",
  "Whatever sequence of allocations, resizes, frees and resets is issued to the heap (with or without its analysis mode), arena, pool, scratch-ring and stack allocators, every block they return has the requested alignment and size, lies inside the memory they manage and overlaps no other live block or bookkeeping. The bytes of a live block change only when its owner writes them, freshly allocated blocks of the heap, arena, pool and scratch ring that the default flags promise to clear are zero, and a resized block keeps its old contents.",
  ["histories", "inputs", "configurations"], "all request sequences (allocator, size, alignment, order of frees) within the depth bound",
  "the tests allocate one fixed pool and one heap block; overlap and misalignment depend on the order and size mix of requests",
  ["source/essentials/memory_custom.c", "header/essentials/memory_custom.h"], [("allocator procedures", "source/essentials/memory_custom.c"), ("alignment helpers", "header/essentials/memory.h")],
  [("bump offset", "bytes handed out", "header/essentials/memory_custom.h"), ("intrusive free list", "pool blocks available", "source/essentials/memory_custom.c")], ["returned pointers", "block contents"])
S("A02", "Allocators reclaim, account and report exhaustion exactly",
  "Memory released to an allocator becomes available again: a pool serves exactly its number of blocks however they are freed, an arena or arena snapshot reset and a stack pop restore the earlier capacity, a scratch ring that has been fully freed is as good as new, and the heap statistics always equal the live allocations and bytes. A request that cannot be met is reported as a failed allocation and leaves the allocator unchanged.",
  ["histories", "inputs"], "all allocate/free/reset histories within the depth bound, up to and past exhaustion",
  "no test drives any allocator to exhaustion or through a reuse cycle other than one pool free/alloc pair",
  ["source/essentials/memory_custom.c", "header/essentials/memory_custom.h", "source/core/memory_virtual.c"], [("free list, snapshots, heap statistics", "source/essentials/memory_custom.c"), ("virtual memory trim/purge", "source/core/memory_virtual.c")],
  [("heap statistics", "live count and bytes", "source/essentials/memory_custom.c")], ["allocation results", "statistics"])
S("A03", "Out-of-memory is reported, never fatal, and changes nothing",
  "When the allocator behind a dynamic array, dynamic string, memory-backed file or copied block cannot provide memory, the operation reports failure instead of crashing. The object the operation worked on is then still valid and unchanged, and after it is released nothing remains allocated.",
  ["fault_sequences", "histories"], "every single allocation failure point of every operation sequence within the depth bound",
  "no test injects an allocation failure",
  ["header/essentials/collections/array.h", "header/core/string.h", "source/core/string.c", "header/essentials/memory_custom.h", "source/core/file_stream.c"], [("grow paths check the new block before using it", "header/essentials/collections/array.h")], (), ["return values", "contents after the failure"])
S("A04", "Raw memory primitives equal their byte-wise definitions",
  "Copying, moving (with overlap), filling, comparing, swapping and searching memory give exactly the byte-by-byte result for every length, alignment and overlap, and never touch a byte outside the ranges they were given. Alignment helpers return the smallest aligned value not below their argument.",
  ["inputs"], "all lengths up to 96 (and selected larger), all alignments modulo 16, all overlaps, all byte values at boundary positions",
  "the tests check one small case each of copy and search; word-at-a-time paths depend on length and alignment residues",
  ["source/essentials/memory.c", "header/essentials/memory.h"], [("word-wise loops", "header/essentials/memory.h"), ("memswap, memchr", "source/essentials/memory.c")], (), ["destination bytes", "return values"])
S("C01", "Dynamic arrays and fixed buffers behave as sequences",
  "After any sequence of appends, positional and bulk insertions, removals, pops, clears, fills, resizes, capacity changes and copies, an array holds exactly the element sequence a list would hold, its count matches, and its capacity is never below its count. Growing or shrinking capacity never loses or alters a counted element, insertion at or past the end appends, and a copy shares no storage with its source.",
  ["histories", "inputs"], "all operation sequences within the depth bound from every small initial capacity and every population 0..70, for element sizes 1, 8 and 12",
  "no unit test covers arrays beyond their use inside other modules",
  [EC + "array.h", EC + "buffer.h"], [("growth formula and header relocation", EC + "array.h")], [("header count/capacity", "sits in front of element 0", EC + "array.h")], ["element values", "count", "capacity"])
S("C02", "The ring buffer is a bounded FIFO that overwrites its oldest element",
  "A ring buffer of capacity n always holds the last min(n, pushed minus taken) elements in insertion order: appending to a full ring drops exactly the oldest one, taking returns and removes the oldest, and empty and full are reported exactly. Bulk append equals repeated append, and bulk take removes and returns the oldest elements, at most the requested number and never fewer than are available.",
  ["histories"], "all append/take/bulk histories within the depth bound for capacities 1..4, and every fill level of capacities 1..34",
  "the ring buffer has no tests", [EC + "ring.h"], [("head/tail arithmetic modulo capacity+1", EC + "ring.h")], [("head, tail", "write and read positions", EC + "ring.h")], ["returned elements", "empty/full"])
S("C03", "The hash table is a map from 64-bit keys to values",
  "After any history of insertions, overwrites, removals, clears and (fast or resizing) rehashes, looking up a key returns exactly the value last stored under it, or nothing if it was never stored or has been removed. Iteration visits every stored pair exactly once, in-place mutation through lookup or iteration is what later lookups see, and this holds whatever the collision pattern of the keys.",
  ["histories", "inputs"], "all operation sequences within the depth bound over colliding and extreme key sets, and every population 0..160 for six key patterns",
  "the tests insert a handful of keys and check an order-independent sum", [EC + "hashtable.h"], [("chaining through entry indices", EC + "hashtable.h")], [("hashes/entries", "chain heads and dense entries", EC + "hashtable.h")], ["lookup results", "iteration"])
S("C04", "The linked list stays a consistent doubly linked chain",
  "After any sequence of insertions after a chosen node and removals, walking forward from the head visits exactly the inserted and not removed nodes in order, and every node's back link names the node before it. Removal returns the following node and leaves its neighbours linked to each other.",
  ["histories"], "all insert/remove sequences within the depth bound over five nodes", "the list has no tests", [EC + "list.h"], [("add/remove relinking", EC + "list.h")], (), ["forward and backward walk"])
S("C05", "Sorting orders, searching finds, reversing and shuffling permute",
  "Sorting (comparison or radix, any element size, any input) leaves a permutation of the input in non-decreasing order, and only elements of the array are ever compared or moved. Binary search in sorted data returns the position of an equal element exactly when one exists; reversing yields the mirrored sequence and shuffling some permutation, whatever the random source returns, every permutation being possible.",
  ["inputs"], "all sequences over small alphabets up to length 17, all permutations up to length 9, structured inputs up to length 255 and 15 element sizes",
  "no test covers sorting; partition and sentinel loops fail only for particular key patterns and element sizes",
  ["source/core/sort.c", "header/core/sort.h", "source/essentials/memory.c"], [("quick/insertion sort with explicit stack", "source/core/sort.c"), ("binary search", "header/core/sort.h")], (), ["array contents", "returned index"])
S("S01", "Dynamic strings behave as byte sequences with a terminator",
  "After any sequence of making, appending, setting, resizing, trimming, duplicating and clearing, a dynamic string's length and bytes equal those of the reference byte sequence and a zero byte follows the last one. Its reported capacity and free space are true, operations on one string never change another, and equality is byte equality.",
  ["histories", "inputs"], "all operation sequences within the depth bound over short operands, including empty strings and embedded boundary lengths",
  "no unit test covers dynamic strings", ["header/core/string.h", "source/core/string.c"], [("header before the bytes, growth on append", "source/core/string.c")], [("length/capacity header", "precedes the bytes", "header/core/string.h")], ["length", "bytes", "terminator"])
S("S02", "C-string helpers match their definitions and stay in bounds",
  "Length, comparison, copy, concatenation, prefix/suffix, search, tokenising, splitting, trimming, case and reversal helpers give the result of their documented definition for every input string. They read only up to the terminator or the given limit, write only inside the destination they were given, and leave bounded destinations terminated where documented.",
  ["inputs"], "all strings over small alphabets up to the length bound, in exactly sized buffers, with every limit value around the length",
  "no unit test covers these helpers", ["header/core/string.h", "source/core/string.c", "source/core/stringlib.c", "header/core/stringlib.h"], [("byte loops", "header/core/string.h"), ("split/strip helpers", "source/core/stringlib.c")], (), ["results", "buffer contents", "out-of-bounds accesses"])
S("S03", "UTF-8 and UCS-2 conversion is exact and never leaves the buffer",
  "Every valid code point encodes to its standard UTF-8 form and decodes back to itself, every malformed, overlong, surrogate or truncated sequence is rejected, and length and classification agree with decoding. Conversion between UTF-8 and UCS-2 round-trips every representable text, stops at the destination's capacity, and reads nothing past the given input.",
  ["inputs"], "all 1,114,112 code points, all byte sequences up to length 3 and all boundary 4-byte sequences, all truncations",
  "no unit test covers unicode conversion", ["source/core/string.c", "header/core/string.h"], [("first-byte and accept-range tables", "source/core/string.c")], (), ["decoded code points and lengths"])
S("S04", "Number and text conversion are inverse",
  "Formatting any integer in any supported base (2 to 10 and 16) and parsing the text gives the same integer, and parsing accepts exactly a leading sign, the 0x prefix of base 16 and digits of the base, reporting where it stopped. Decimal and floating text parses to the value it denotes within double rounding.",
  ["inputs"], "all 16-bit values and all boundary values of 32/64-bit integers in every base, all digit strings up to the length bound",
  "the tests cover a few fixed numbers inside JSON documents", ["source/core/string.c"], [("digit loops", "source/core/string.c")], (), ["text", "value", "end position"])
S("S05", "Formatted printing honours size, format and arguments",
  "Formatting into a buffer never writes outside it, terminates it whenever its size is positive, and produces the prefix of the unbounded result that fits. For the supported conversions, flags, widths and precisions the text equals what the C standard specifies, except that reals are cut (not rounded) after the precision, with digits past the fifteenth significant one not promised, and that the '#' flag, pointers without prefix, a zero width and the 'r' conversion follow this library's own rules.",
  ["inputs"], "all combinations of flag, width, precision, length modifier, conversion and boundary argument, against every buffer size",
  "the tests check a few integer formats into a large buffer", ["source/core/print.c"], [("format interpreter", "source/core/print.c")], (), ["buffer bytes", "return value"])
S("F01", "Files and memory files behave as byte arrays with a cursor",
  "For every sequence of opens, reads, writes, seeks, positioned reads and writes, truncations and size queries, a file returns exactly the bytes last written at each position, and its cursor, size and returned counts agree with a byte array, on disk and in memory alike. Open modes grant and deny exactly what they name, reads and writes outside the contents never touch foreign memory, and closing releases everything.",
  ["histories", "inputs"], "all operation sequences within the depth bound over small positions and lengths, for disk and memory backends and each open mode",
  "the tests write and read a memory stream once", ["source/core/file.c", "source/core/file_stream.c"], [("file operations table", "source/core/file.c"), ("memory stream operations", "source/core/file_stream.c")], [("cursor and buffer", "memory stream position, size", "source/core/file_stream.c")], ["bytes", "cursor", "size", "errors"])
S("F02", "I/O faults and short transfers are reported or completed",
  "When the operating system transfers fewer bytes than asked, fails or is interrupted at any point of a file read, write, open, copy or whole-file load, the caller either gets the complete correct data or a reported failure with a truthful byte count. No descriptor or memory is leaked.",
  ["fault_sequences"], "every single fault (error or short transfer) at every system call of the driver operations",
  "no test injects an I/O fault", ["source/core/file.c", "source/core/file_misc.c"], [("positioned I/O wrappers", "source/core/file.c")], (), ["return values", "bytes", "open descriptors"])
S("F03", "Tar archives round-trip and damaged archives are rejected safely",
  "Packing any set of files and unpacking the archive yields the same names, sizes and contents in order, and the archive is valid for other tools. Unpacking truncated or corrupted input terminates, never touches memory outside its buffers, and never delivers contents that the archive does not contain.",
  ["inputs", "crash_points"], "all file-set shapes within the bound, every truncation point and every single header-byte corruption of small archives",
  "tar has no tests", ["source/core/file_tar.c", "header/core/file_tar.h"], [("header checksum, 512-byte blocks", "source/core/file_tar.c")], (), ["unpacked records", "archive bytes"])
S("F04", "Path, directory and whole-file helpers tell the truth",
  "Path helpers return the components their names promise for every path, and the file-system helpers (exists, type, list, copy, move, remove, make directory, load whole file or lines) report success exactly when the effect happened and then leave exactly that effect. They release every resource they acquire.",
  ["inputs", "histories"], "all paths over a small alphabet up to the length bound; all operation sequences within the depth bound on a small directory tree in a scratch directory",
  "no unit test covers paths or directories", ["source/core/file_misc.c", "header/core/file_misc.h", "source/core/file.c"], [("path splitting, POSIX wrappers", "source/core/file_misc.c")], (), ["returned strings", "directory contents", "open descriptors"])
S("D01", "The data tree keeps its structure under every edit",
  "After any sequence of adding, setting, finding, moving, swapping and removing nodes in a data tree, its ordered children, names and values equal a reference tree's, every child knows its current parent, and lookups by name or path return the node the path denotes or nothing. Removing a node unlinks it without destroying it, and moving one inside its parent counts positions before the removal. No edit reads freed memory or leaks.",
  ["histories"], "all edit sequences within the depth bound on small trees, including growth past reallocation points",
  "the tests build one fixed tree and query a few paths", ["source/adt.c", "header/adt.h"], [("child arrays with parent links", "source/adt.c")], [("nodes/parent", "child array and back link", "header/adt.h")], ["tree walk", "query results"])
S("J01", "JSON parsing is safe and terminates on every input",
  "For every byte string the JSON parser terminates, reads only the input it was given, and either produces a tree or reports an error. Whatever it produced, releasing it leaves nothing allocated.",
  ["inputs"], "all byte strings over a token alphabet up to the length bound, every truncation and every single-byte mutation of a document corpus",
  "the tests parse fixed, complete, mostly valid documents", ["source/parsers/json.c", "source/adt.c"], [("recursive descent over a terminated copy", "source/parsers/json.c")], (), ["error code", "memory accesses", "leaks"])
S("J02", "JSON documents mean what they say and survive writing",
  "A valid JSON document parses to the tree it denotes: the same nesting, order, names, strings (with their escape sequences as written), numbers with their value, and constants. Writing a tree and parsing the text gives an equal tree, apart from the escaping of quotes and from decimals past the sixth of reals; documents with unbalanced brackets, missing names, values, assignments or delimiters, unterminated strings or malformed numbers are reported as errors, and an open array or object, a missing assignment, name or value and an unknown word as errors of that kind.",
  ["inputs"], "all documents generated by the bounded grammar, all trees within the shape bound",
  "the tests cover a few fixed documents", ["source/parsers/json.c", "source/adt.c"], [("value/array/object parsing", "source/parsers/json.c"), ("number scanning and printing", "source/adt.c")], (), ["tree", "written text"])
S("V01", "CSV tables round-trip and malformed tables are reported safely",
  "A CSV text parses to the rectangular table of cells it denotes, with quoted cells unescaped, plain cells trimmed and plain numbers converted to their value, blank lines ignored and the first row as header when asked; writing a table and parsing it again yields the same cells. For every byte string the parser terminates inside its input, reports malformed tables (rows of different lengths, an open quote, data after a closing quote, no row) as errors and leaks nothing.",
  ["inputs"], "all byte strings over a delimiter/quote/newline/digit alphabet up to the length bound; all small tables of boundary cells",
  "the tests parse fixed tables", ["source/parsers/csv.c", "source/adt.c"], [("cell scanner", "source/parsers/csv.c")], (), ["cells", "error code", "memory accesses"])
S("U01", "URI parsing splits, decodes and rebuilds URIs faithfully and safely",
  "A URI parses into its origin, kept as written, and its query parameters in order, with plus signs and percent-encoding decoded, numbers converted to their value and parameters without a value as flags; it ends at white space. Writing the result, or a tree built by the program, gives an equivalent URI whose query is correctly encoded. For every byte string the parser terminates inside its input, and leaks nothing.",
  ["inputs"], "all byte strings over a URI token alphabet up to the length bound; all combinations of component values",
  "the tests parse fixed URIs", ["source/parsers/uri.c"], [("origin/path/query scanner", "source/parsers/uri.c")], (), ["tree fields", "written text", "memory accesses"])
S("O01", "Command-line options are compiled exactly as given",
  "For every argument vector, each declared option reports presence and value exactly as the arguments give it (long or short name, joined or separate value, flags, positionals in order), the last value counts, and numbers convert like the number parsers. Unknown options, missing values, values given to flags and surplus arguments are reported as errors, each of its kind, in order and with its text, and missing positionals are reported as such. Nothing is read outside the arguments and nothing leaks.",
  ["inputs", "configurations"], "all argument vectors up to the length bound over a token alphabet for several declared option sets",
  "options have no tests", ["source/opts.c", "header/opts.h"], [("argument state machine", "source/opts.c")], (), ["presence, values, errors"])
S("R01", "The regex engine matches what a reference matcher matches",
  "For every supported pattern and every subject text, whether it matches, where, and what the capture groups hold equal the leftmost first-alternative result of a reference backtracking matcher. Malformed patterns are rejected, each as the kind of mistake it is, matching terminates, and neither pattern nor text is read outside its length.",
  ["inputs"], "all patterns over the operator alphabet up to the length bound times all subject texts over a two-letter alphabet up to the length bound",
  "the regex engine has no tests", ["source/regex.c", "header/regex.h"], [("opcode compiler", "source/regex.c"), ("backtracking executor", "source/regex.c")], (), ["match result", "captures"])
S("H01", "Checksums, hashes and base64 equal their published definitions",
  "Adler-32, CRC-32, CRC-64, FNV (all variants), MurmurHash and base64 produce the values their published definitions give, for every input length and content, without reading outside the input. Base64 decoding inverts encoding exactly.",
  ["inputs"], "all inputs up to two bytes, all lengths up to 6000 of structured data at every alignment, base64 for all inputs up to three bytes and all lengths up to 200",
  "the tests hash one fixed string per function", ["source/hashing.c"], [("table-driven checksums, block loops", "source/hashing.c")], (), ["hash values", "encoded text"])
S("T01", "The job queue runs every accepted job exactly once and shuts down",
  "Under every schedule, each job that was accepted by the queue runs exactly once (at most once if the queue is shut down first), on one worker at a time, with the data it was enqueued with; jobs of one priority start in the order they were accepted, and once all have run the queue reports itself done and workers become available again. However long jobs of other priorities keep arriving, those of each priority go on being started. Shutting the queue down always completes, no job runs afterwards, and capacity and priority queries tell the truth.",
  ["schedules", "histories"], "all interleavings up to the preemption bound of producer and workers for all small job sets, queue sizes and priorities",
  "the job system has no tests, and the outcome depends on thread interleaving", ["source/jobs.c", "header/jobs.h"], [("worker status handshake", "source/jobs.c")], [("worker status", "waiting/ready/busy/term", "header/jobs.h")], ["execution counts", "termination"], None)
S("T02", "Parallel synchronisation primitives release everyone exactly when due",
  "Under every schedule, waiters on a synchronisation object proceed exactly when its target count is reached or it is released, none is lost or released early, and nobody waits forever once the condition holds. Merged rendezvous objects behave the same in every round of reuse.",
  ["schedules"], "all interleavings up to the preemption bound of 2-3 threads per scenario",
  "the primitives have no tests, and the outcome depends on thread interleaving", ["source/threading/sync.c"], [("mutex + semaphore counting", "source/threading/sync.c")], [("current/waiting/target", "arrivals", "header/threading/sync.h")], ["order of passage", "termination"])
S("T03", "Threads, mutexes and semaphores give their contracted ordering",
  "Under every schedule, a started thread runs its procedure exactly once with its data, joining returns after it has finished and yields its result, a mutex admits one holder at a time and try-lock succeeds exactly when it acquires it, and each semaphore wait consumes exactly one post. Failures of the underlying system are reported, and no resource is left behind.",
  ["schedules", "fault_sequences"], "all interleavings up to the preemption bound of 2-3 threads per scenario; every injected failure of thread creation",
  "threads have no tests, and the outcome depends on thread interleaving", ["source/threading/thread.c", "source/threading/mutex.c", "source/threading/sem.c"], [("start handshake through a semaphore", "source/threading/thread.c")], (), ["execution counts", "mutual exclusion", "return values"])
S("T04", "Atomic operations are indivisible and spin locks exclude",
  "Under every interleaving of machine instructions, each atomic load, store, exchange, compare-exchange, add, and, or takes effect at a single instant and returns the value it replaced. At most one thread at a time holds a spin lock built from them, try-lock fails exactly when the lock is held, and unlocking lets a waiter in.",
  ["schedules"], "all instruction-level interleavings of two threads with one to two operations each on 32-bit, 64-bit and pointer atomics",
  "atomics have no tests, and a broken operation fails only under a particular interleaving", ["source/threading/atomic.c", "header/threading/atomic.h"], [("lock-prefixed instructions and compare-exchange loops", "source/threading/atomic.c")], (), ["returned and final values"])
S("X01", "Random generation stays in range and is reproducible from its state",
  "Whatever the internal state, ranged random numbers lie inside the requested inclusive range and every value of the range can occur, the same state yields the same stream, and the unique generator does not repeat within its period's sampled windows. Initialisation terminates whatever the clocks return.",
  ["inputs", "schedules"], "all raw generator outputs at boundary values for all small ranges and all extreme ranges; all clock answer sequences within the bound",
  "random has no tests", ["source/core/random.c", "header/core/random.h"], [("modulo reduction, permutation", "source/core/random.c")], (), ["returned numbers"])
S("X02", "Vector, matrix, quaternion and half-float math equal their definitions",
  "Vector, matrix and quaternion operations return what their mathematical definition gives up to rounding, in-place forms equal the copying forms even when operands alias, inverse times matrix is the identity, and every half-precision value survives conversion to single precision and back. Intersection and containment tests on rectangles and boxes agree with their geometric definition.",
  ["inputs"], "all half-float values, all operand tuples over small integer lattices for every operation, all aliasing patterns",
  "math has no tests", ["source/math.c", "header/math.h"], [("component-wise formulas", "source/math.c")], (), ["returned components"])
S("X03", "Time queries are monotonic and consistent for every clock answer",
  "For every sequence of clock readings, relative time never runs backwards when the clock does not, seconds and milliseconds agree, absolute time and its local variant follow the documented epoch and offset, and sleeping lasts at least as long as asked even when interrupted.",
  ["inputs", "fault_sequences"], "all sequences of clock answers from a boundary set within the bound",
  "the tests read the clock once", ["source/core/time.c"], [("clock reading and unit conversion", "source/core/time.c")], (), ["returned times"])
S("N01", "Sockets deliver bytes and datagrams intact and release descriptors",
  "Over the loopback network, bytes sent on a connected stream and datagrams sent to a bound address arrive unaltered and in order, the reported peer address is the sender's, and counts are truthful. When any step of creating, binding or connecting fails, failure is reported and no descriptor is left open.",
  ["histories", "fault_sequences"], "all operation sequences within the depth bound on loopback endpoints; every single failing step of socket creation",
  "sockets have no tests", ["source/socket.c", "header/socket.h"], [("BSD socket wrappers", "source/socket.c")], (), ["received bytes", "addresses", "open descriptors"])
S("M01", "Environment, commands, shared libraries and bit helpers tell the truth",
  "Reading an environment variable gives what was last set in this process, absent ones are absent, and copies stay independent. Running a command delivers its output byte for byte, cut only at the given buffer's end, and leaves no stream or child behind, also when memory runs out. A library is loaded until it is unloaded as often as it was loaded, and its symbols are found. The processor count is what the system reports. A failed assertion names its condition, file and line; an exit code arrives. Byte swaps, bit counts, single bits, powers of two and the comparison macros equal their definitions.",
  ["inputs", "histories", "fault_sequences"], "all histories of environment and library operations within the depth bound, all command outputs over a byte set up to the length bound into every small buffer, all 32-bit positions and a dense word set for the bit helpers, every failing allocation",
  "none of these helpers has a test", ["source/core/misc.c", "header/core/misc.h", "source/dll.c", "source/threading/affinity.c", "header/essentials/helpers.h", "source/essentials/debug.c"], [("environment and command wrappers", "source/core/misc.c"), ("bit helpers", "header/core/misc.h"), ("library loading", "source/dll.c")], (), ["returned values", "environment of the process", "output of commands"])
