"""Which harness decides which property, within which bounds.  PROPS is read by run.py and gen.py."""
PROPS = {}
def P(id, src, bounds, note, technique="bounded-exhaustive exploration of the real code against a reference model", level="model_checking", assume=(), rule="", **kw):
    """src: harness file, or dict, or list of those"""
    srcs = src if isinstance(src, list) else [src]
    PROPS[id] = dict(harness=[dict(src=s) if isinstance(s, str) else s for s in srcs], level=level, bounds=bounds, technique=technique, note=note,
                     assumptions=list(assume) or ["single-threaded use, as the API documents"], rule=rule)

GROW = dict(tag="grow1", cflags=["-DZPL_ARRAY_GROW_FORMULA(x)=((x)+1)", "-DMOST=600"])
P("C01", ["c01_array.c", dict(src="c01_array.c", **GROW)], "sequences of 3-4 operations (13 operations, all arguments from boundary sets, batches to 33 elements; every operand given as a compound expression) from init capacities 0,1,2,8; populations 0..70 followed by every pair of operations; buffers of capacity 0..4, 6 operations; elements of three sizes to populations of 70000; with the default growth and once more growing by one",
  "Every operation sequence within the bound is run on the real macros under AddressSanitizer and compared element by element with a plain C array.")
P("C02", "c02_ring.c", "capacity 1..4, all histories of 6 operations; capacity 1..34 with every fill level up to 3 times the capacity, all pairs of operations; capacities to 70000",
  "Real ring code compared with a queue reference after every step, then drained.")
P("C03", ["c03_table.c", dict(src="c03_table.c", **GROW)], "three key sets of six colliding/extreme keys, all sequences of 5 out of 21 operations; populations 0..160 under six key patterns and four edit scripts; populations 0..23 in every number of buckets 0..69 (thorough 0..39, 0..299); populations to 70000; with the default growth and once more growing by one",
  "Real table code compared with a reference map after every step (lookup of every key, iteration, slot).")
P("C04", "c04_list.c", "five nodes (prepared or not, removed and added again), all sequences of 7 insertions/removals; lists of up to 70000 nodes", "Real list code; forward and backward walk compared with a reference order after every step.")
P("C05", ["c05_sort.c", dict(src="c05_shuffle.c", extra=["c05_rand.inc.c"])], "adversarial orders to length 4000, shuffles under every raw generator answer to length 4 (reaching every order), all sequences over 2/3/4 letters to length 17/11/8, all permutations to length 9, 12 shapes x lengths 0..255 x 15 element sizes, radix over 14 boundary values to length 5 and lengths 0..599, binary search over all sorted sequences to length 8; lengths to 140000",
  "Real sort/search code on exactly sized heap blocks under AddressSanitizer; permutation and order checked on every input.")
for _p, _n in (("A01", 1), ("A02", 2)):
    P(_p, [dict(src="a_alloc.c", tag="p%d" % _n, cflags=["-DPROP=%d" % _n]), dict(src="a_alloc.c", tag="h%d" % _n, cflags=["-DPROP=%d" % _n, "-DZPL_HEAP_ANALYSIS"])],
      "request histories: heap 4 operations (5 sizes x 6-7 alignments, any free order, resize), arena 5 (3 sources, 4 start offsets, snapshots, 5 sizes x 5 alignments), pool of 1..4 blocks 9 operations (35 block shapes), scratch ring 6 operations over 15 regions, stack 5 operations; every allocator whose own memory cannot be had; 12 requests from 2^31-1 to 2^63-1 that must be refused; arenas, rings, stacks and pools of 2 to 20 GB (5 operations); thorough one to three deeper",
      "Every history runs on the real allocator inside guarded memory; after every request the contents of all live blocks, their disjointness, alignment and bounds (A01) or the accounting and capacity (A02) are compared with the reference.")
P("A03", "a03_oom.c", "arrays (3 capacities), strings (4 origins), memory files: all sequences of 2 (thorough 3) operations with every failing allocation (0..3 from each step on); all copying helpers with every failing allocation; capacities and offsets no memory can hold (12 sizes, three allocators)",
  "A failing allocator is armed at every point of every sequence; the object is compared with its reference after the failure, memory is returned, and every block must be released.")
P("A04", ["a04_mem.c", dict(src="a04_mem.c", tag="far", cflags=["-DFAR", "-fno-sanitize=all", "-O2", "-Wno-unused-function"])], "lengths 0..96 plus 16 larger (thorough 0..259 plus 10), offsets 0..15 (8 for overlaps), overlap distances -40..40, six fill values, all hit positions up to length 50 (thorough 80), all alignments to 4096; 14 lengths to 1048576; lengths beyond 31 and 32 bits; the typed macros with computed operands",
  "Each primitive runs on guarded buffers and on exactly sized heap blocks under AddressSanitizer and is compared byte by byte with the libc result.")
P("S01", "s01_dynstr.c", "one string: all sequences of 4 (thorough 5) out of 8 operations with every operand from 6 origins; two strings: all sequences of 3 (thorough 4) of 10 operations; joins of 0..4 parts; printed texts around the buffer limits; lengths around powers of two to 300001, made in 4 and changed in 7 ways",
  "Real strings under AddressSanitizer; length, bytes, terminator, capacity and equality compared with a byte-array reference after every step.")
P("S02", "s02_cstr.c", "all strings to length 6-9 (thorough 7-10) over 3-4 letter alphabets chosen per helper, all limits 0..11, all 256 characters; 34 lengths to 140000 with the deciding character at 9 places, destinations to 9000 bytes, character sets to 140000",
  "Each helper runs on heap blocks of exactly the allowed size under AddressSanitizer and is compared with its definition.")
P("S03", "s03_utf8.c", "all 1,114,112 code points and 8,192 beyond with every truncation; all byte sequences of length 1..3; 256 x 17 x 17 x 17 (thorough 256 x 256 x 17 x 17) sequences of length 4; all texts of up to 4 (thorough 5) of 13 boundary code points with every capacity and limit; all boundary byte/unit strings to length 4/5 for refusal; texts of 15 lengths to 140000 code points of 6 mixes with 4 places for a defect",
  "The real coder runs on exactly sized heap blocks under AddressSanitizer and is compared with the standard's table of well-formed sequences.")
P("S04", "s04_num.c", "all integers in -32768..33023 in 7 bases, powers of two and of the base +-4 in 10 bases for 64 bits, all strings to length 5 (thorough 6) over 14 characters in 5 bases for the grammar, real literals from sign x digits x fraction x exponent tables and all exponents -350..350 (thorough -700..700)",
  "Real conversions on exactly sized heap blocks; integers compared exactly with a reference, reals with strtod to 4e-15 relative.")
P("S05", "s05_print.c", "16 flag sets x 5 widths x 6 precisions x 7 length modifiers x 6 integer conversions x 20 values (and star arguments), strings and characters alike, 19 reals, all sequences of 3 (thorough 4) of 14 directives, each into every buffer size 0..13 and around the full length; 12 formats with 25 widths, precisions and string lengths to 140000; standard output and error on pipes and files",
  "The real formatter writes into exactly sized heap blocks under AddressSanitizer and is compared with the C library's text cut to the buffer (reals: exact shape, digits cut, not rounded).")
P("H01", ["h01_hash.c", dict(src="h01_hash.c", tag="far", cflags=["-DFAR", "-fno-sanitize=all", "-O2", "-Wno-unused-function"])], "all byte strings to length 2 and 4,194,304 of length 3; lengths 0..299 (thorough 0..1024) x 8 alignments x 5 contents; lengths around the Adler block limits and powers of two to 262148; lengths beyond 31 and 32 bits (2, thorough 5); base64 of all strings to length 2 and 1,048,576 (thorough all) of length 3, lengths 0..399 and around powers of two to 131076; all texts to length 6 (thorough 7) over 10 characters for decoding",
  "Real functions on exactly sized heap blocks under AddressSanitizer, compared with bit-by-bit reference definitions.")

P("X01", [dict(src="x01_random.c", tag="raw", cflags=["-DRAW"], extra=["c05_rand.inc.c"]), dict(src="x01_random.c", tag="real", ldflags=["-Wl,--wrap=clock_gettime"])],
  "16 x 16 range ends with every pair of 8 boundary raw answers (integers and reals), all values of ranges of 1..20 at 16 positions; 512 generator states x 49 draw patterns for reproducibility, 131072 (thorough 4194304, and the whole period of 2^32 twice) consecutive unique values from each; all sequences of 6 (thorough 7) clock steps out of 7 from 6 phases during start-up",
  "The raw generator is replaced at link time by a choice point to decide the ranges; the real one is run for reproducibility and uniqueness; clock_gettime is replaced for start-up.")
def X2(tag, opt="-O2", **k): return dict(src="x02_math.c", tag=tag, opt=opt, asan=False, wrap=False, objs=[("x02_ops.cpp", ["g++", "-g", "-O1", "-w"])], **k)
P("X02", [X2("o2"), X2("nomath", cflags=["-DZPL_NO_MATH_H"])],
  "every single-precision number for floor, ceil, round and conversion to half (all 2^32), every half; 2047 exponents x 110 fractions x 2 signs of doubles; all pairs of operands on a quarter lattice of +-20; all pairs of vectors over 8/6/4 component values; all 2x2 matrices over 6, 3x3 over 3 (thorough 4) and 4x4 over 2 (thorough 3) entry values; every aliasing of operands and result; products of all 2x2 matrices over 5 values and of 0/1 matrices of size 3 and 4 with 25..28 matrices; 10 axes x 17 angles for rotations, 800 views, 525 projections; all pairs of quaternions over 5 component values; all pairs of 170 rotations x 5 times for interpolation; 60 frusta x 125 points, spheres and boxes; all pairs of 625 rectangles; with and without math.h",
  "Every operation is evaluated and compared with its definition computed in double precision, up to a few roundings of the magnitudes involved; in-place forms are compared with the copying forms; the C++ operators are compiled as C++ and compared component by component.")

P("X03", dict(src="x03_time.c", ldflags=["-Wl,--wrap=clock_gettime", "-Wl,--wrap=nanosleep", "-Wl,--wrap=clock_nanosleep"]),
  "all sequences of 5 (thorough 6) of 8 clock steps; first queries from 4 starting points x 36 steps; 16 instants x 8 fractions; 10 time zones x 64 instants x 3 fractions; 12 durations with each of the first 4 sleeps cut short in 4 ways; the seconds/nanoseconds split at all multiples of a second",
  "clock_gettime and nanosleep are replaced at link time by choice points; results compared with integer arithmetic on the chosen clock.")

NW = ["getaddrinfo", "freeaddrinfo", "socket", "setsockopt", "bind", "listen", "fcntl", "fcntl64", "ioctl", "getsockname", "accept", "accept4", "recv", "recvfrom", "select", "poll", "send", "sendto", "connect"]
P("N01", dict(src="n01_socket.c", ldflags=["-Wl,--wrap=" + w for w in NW]),
  "2 address families x 2 protocols x 2 modes x 4 flag sets x every failing call x 4 error codes; all sequences of 4 (thorough 5) of 12 stream operations and of 3 (thorough 4) of 24 datagram operations; 72 bulk transfers; dual-stack and single-stack sockets; up to 3 pending connections; address texts in 25 buffer combinations; all sets of up to 3 selected sockets out of 4 x 8 data patterns x 3 times, descriptors beyond the descriptor set; 9 transfer operations x every failing call x 3 errors and short sends",
  "Real sockets on the loopback interface are driven through the library and compared with queues of the bytes and datagrams sent; the system calls are wrapped at link time so that each of them can fail; descriptors and address lists are counted.", assume=["the kernel delivers loopback datagrams in order and within 5 seconds"])

P("D01", dict(src="d01_tree.c", wrap=True), "three starting forests (nesting to depth 3) x all sequences of 2 (thorough 3) edits with every operand, all sequences of 5 edits from the empty forest, containers of 0..19 (thorough 0..33) children x every edit, every failing allocation of each edit; every query path of up to 3 steps on four trees; 12 types of value through the type-generic setters; containers to 70000 children, chains to 1000 levels",
  "Two real trees are edited and compared with a reference tree after every step (order, names, values, parent links); every name and path is looked up at the end, and everything must be released.")

P("J01", [dict(src="j_json.c", tag="p1", cflags=["-DPROP=1"]), dict(src="j_json.c", tag="plain", cflags=["-DPROP=1", "-DZPL_PARSER_DISABLE_ANALYSIS"])], "all sequences of 0..5 (thorough 6) of 24 tokens; all texts of 1-2 bytes and of 3 of 40 bytes; eight documents with every truncation, every single-byte change, every deletion of 1-4 bytes and every token inserted anywhere; nesting to 400; 23 kinds of value behind 8 lead-ins, cut anywhere or followed by any byte; all number-like texts to 5 (thorough 6) characters; literals to 300 digits; every failing allocation; once more compiled without parser analysis",
  "The real parser runs on exactly sized heap blocks under AddressSanitizer with a hang limit; accepted trees are walked and written, then everything must be released.")
P("J02", [dict(src="j_json.c", tag="p2", cflags=["-DPROP=2"]), dict(src="j_json.c", tag="plain", cflags=["-DPROP=2", "-DZPL_PARSER_DISABLE_ANALYSIS"])], "all sequences of 1..5 of 20 tokens, 23 kinds of value behind 8 lead-ins cut anywhere or followed by any byte, all sequences of 1..4 tokens inside 6 x 4 enclosing fragments, all documents of the bounded JSON grammar (nesting 3) in 4 layouts, pairs of 12 names x 6 assignments x 17 values x 9 delimiters, all number-like texts to 6 (thorough 7) characters and 2187 number forms, all trees built in 4 (thorough 5) steps, documents of up to 70000 members and 1000 levels; six documents written behind other data, into buffers of every size and to read-only files; single values written by themselves; once more compiled without parser analysis",
  "Trees are compared with two independent reference parsers (strict JSON must be accepted, text outside the extended grammar refused) and with themselves after writing in three layouts.")

P("V01", ["v01_csv.c", dict(src="v01_csv.c", tag="plain", cflags=["-DZPL_PARSER_DISABLE_ANALYSIS"])], "all sequences of 0..5 (thorough 6) of 12 tokens under 3 delimiters with and without header, all sequences of 0..8 (thorough 10) of 5 tokens, all number-like cells to 5 (thorough 6) characters, all tables of 1..3 x 1..3 cells out of 13 forms in 3 line-end styles, all row-length combinations to 4 rows, all built tables of 0..2 x 1..2 cells out of 17 values in 3 styles, 1..70000 rows, 1..70000 columns, cells to 131072 bytes; six documents with every truncation, byte change and token inserted; every failing allocation; once more compiled without parser analysis",
  "The real parser runs on exactly sized heap blocks under AddressSanitizer and is compared with a reference reader (cells, columns, headers, error class); every accepted table is written with three delimiters and parsed again.")

P("U01", ["u01_uri.c", dict(src="u01_uri.c", tag="plain", cflags=["-DZPL_PARSER_DISABLE_ANALYSIS"])], "all sequences of 0..5 (thorough 6) of 14 tokens, all queries of 0..7 (thorough 8) of 6 tokens, every pair of bytes in 5 frames, every percent sequence, all number-like values to 5 (thorough 6) characters, all built URIs of 7 origins x 0..3 parameters out of 12 names and 17 values, 0..40 and up to 70000 parameters, parts to 140000 bytes, every failing allocation; once more compiled without parser analysis",
  "The real parser runs on exactly sized heap blocks under AddressSanitizer and is compared with a reference splitter and decoder; every result is written, the text is checked against the URI alphabet and parsed again.")

P("O01", "o01_opts.c", "four option sets (short, long, both; 0..3 positionals; up to 20 options registered before or after the positionals) x all argument vectors of 0..3 (thorough 4) of 26 arguments, of 0..6 (thorough 7) of 8 arguments, all single arguments to 5 (thorough 6) characters out of 9, up to 600 options and positionals, values to 70000 characters, two successive vectors; help and error screens for every pair of arguments",
  "The real option parser runs on exactly sized argument blocks under AddressSanitizer; presence, values, errors and missing positionals are compared with a reference parser.")

P("R01", "r01_regex.c", "all patterns of 0..5 (thorough 6) of 21 tokens and of 5..6 (thorough 8) of 7 operators, each against all texts over {a,b} to length 3-5; quantifier, group, set, escape and hexadecimal grids; every pattern of 1-2 raw bytes; 8 patterns x 0..6 capture slots; successive matches of 12 patterns on all texts to length 6 (thorough 8); patterns around the limits of the program's length bytes; 18 patterns on texts of 21 lengths to 1000000; up to 200000 successive matches and 300 groups; every failing allocation",
  "The real compiler and matcher run on exactly sized heap blocks under AddressSanitizer and are compared with a reference backtracking matcher over a graph built independently from the pattern.")

P("F01", dict(src="f01_file.c", ldflags=["-Wl,--wrap=tmpfile", "-Wl,--wrap=fclose"]), "disk files in six modes (absent, empty, six bytes) and temporary files: all sequences of 3 (thorough 4) of 29 operations; four kinds of memory file: all sequences of 4 (thorough 5); every open situation and mode, closing twice; transfers to 300000 bytes; two handles 4 (thorough 5) operations; pipes and standard files; failing allocations; reads, writes and seeks at offsets no memory can hold",
  "The real files are compared after every operation with a reference byte array: contents seen from outside, cursor, size, returned counts, denied modes, descriptors left open.")

P("F02", dict(src="f02_faults.c", ldflags=["-Wl,--wrap=" + w for w in "read pread pread64 write pwrite pwrite64 sendfile copy_file_range open open64 fstat ftruncate link rename unlink mkdir dup close".split()]), "every operation (read, write, open, truncate, temporary file, whole-file load, lines, store, copy, move, pack, unpack) x each of its first 14 (thorough 24) system calls x {error, interrupted, one byte short, half, nothing}; all transfers limited to 1 or 3 bytes; every pair of faults up to 2 (thorough 8) calls apart; every failing allocation",
  "System calls are replaced at link time; each result is compared with the bytes that were really transferred, and descriptors and memory are counted.")

P("F03", dict(src="f03_tar.c", ldflags=["-Wl,--wrap=" + w for w in "open open64 mkdir".split()]), "archives of 0..3 files from 11 names x 10 sizes (sizes of all but the first derived; thorough: free for two files) on disk and in memory at two starting offsets; 256 (thorough 512) directory trees; every truncation of three archives; every header byte x 15 (thorough 256) values; 23 size fields in consistent headers; all names of 1..4 (thorough 5) components out of 6, absolute or not, into 3 forms of destination; names of 95..100 characters, destinations to 6000 characters; up to 600 entries and entries to 3000001 bytes; stopping at every record",
  "The real packer's bytes are read by a reference reader; damaged archives are unpacked from exactly sized memory and compared with what the reference reader still finds; creating calls are replaced at link time and refuse any path outside the scratch directory.")

P("F04", dict(src="f04_paths.c", ldflags=["-Wl,--wrap=realpath"]), "every path of up to 7 (thorough 9) characters over slash, dot and two letters; full names of every path of up to 6 (thorough 8); every tree over six nested names (153) x every copy, move, remove, mkdir, mkdir -p, rmdir, store and load on them in three spellings (thorough: every two in a row); histories of 2 (thorough 3) operations; listings and directory information of directories with up to 2 of 10 names x 6 kinds of node and with all names at once; every kind of node; all triples of 8 time stamps; every file of up to 5 (thorough 6) bytes over five; files of every size below 70 (thorough 600) and to 5000000 bytes, up to 1023 entries, 300 levels and 70000 lines; paths around the length limits",
  "The real functions run in a scratch directory; after every operation the directory is compared with a model tree, the results with the model's, and descriptors and memory are counted.")

TS_WRAP = "pthread_attr_init pthread_attr_destroy pthread_attr_setdetachstate pthread_attr_setstacksize pthread_create pthread_join pthread_detach pthread_self pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock sem_init sem_destroy sem_post sem_wait sem_trywait sem_getvalue sched_yield usleep nanosleep clock_nanosleep".split()
WRAPM = "malloc free calloc realloc".split()
def TS(src, **k): return dict(src=src, asan=False, opt="-O2", ldflags=["-Wl,--wrap=" + w for w in TS_WRAP], objs=[("t_lib.c", ["gcc", "-std=gnu11", "-g", "-O0", "-w", "-fsanitize=thread", "-D_GNU_SOURCE"])], **k)
P("T03", TS("t03_thread.c"), "every interleaving with up to 2-4 (thorough 3-6) preemptions of 1-3 threads: start/join/restart/destroy with and without handshake and stack size, every failing creation, lock/try-lock programs of 2-3 threads on one and on two mutexes, semaphores with up to 3 posters and waiters and interrupted waits",
  "The real threading code (compiled with -fsanitize=thread against the explorer's own runtime) runs on fibers; every memory access, pthread, semaphore and yield call is a scheduling point; deadlock, missing progress, double joins and undestroyed objects are violations.", technique="stateless exploration of all thread interleavings of the real code under a controlled scheduler, up to a preemption bound", assume=["sequentially consistent memory", "pthread and semaphore calls behave as POSIX specifies (they are replaced by models at link time)"])
P("T02", TS("t02_sync.c"), "every interleaving with up to 1-4 (thorough 2-5) preemptions of the caller and 1-3 workers over 1-3 rounds of one merge point, each arrival waiting or only counting; setting the next target early; releasing before the target is reached; all single-threaded histories of up to 4 rounds",
  "The real code runs on fibers; arrivals are counted independently and every passage is compared with the count; deadlock and missing progress are violations.", technique="stateless exploration of all thread interleavings of the real code under a controlled scheduler, up to a preemption bound", assume=["sequentially consistent memory", "pthread and semaphore calls behave as POSIX specifies (they are replaced by models at link time)"])
P("T01", TS("t01_jobs.c"), "every interleaving with up to 1-2 (thorough 1-4) preemptions of the caller and 1-2 workers: 1-2 batches of 1-3 jobs in up to 3 priorities, shutting down after 0-2 jobs and 0-2 rounds of processing, every failing thread creation; all histories of 5 (thorough 7) operations on queues of capacity 1-3; every filling of five short queues; every set of priorities kept supplied with jobs for up to 400 rounds from 26 (thorough 210) earlier histories; all mixes of 0-2 jobs in each of five priorities on 1-3 workers; 100 jobs on a queue of default capacity",
  "The real queue runs on fibers; every job counts its executions, thread and data; capacity answers are compared with a reference queue; deadlock and missing progress are violations.", technique="stateless exploration of all thread interleavings of the real code under a controlled scheduler, up to a preemption bound", assume=["sequentially consistent memory", "pthread and semaphore calls behave as POSIX specifies (they are replaced by models at link time)"])

def AT(tag, cmd=None, **k): return dict(src="t04_atomic.c", tag=tag, asan=False, wrap=False, cflags=[] if cmd else ["-DINLINED"], objs=[cmd] if cmd else [], **k)
P("T04", [AT("o2", opt="-O2"), AT("o0", opt="-O0"), AT("clang", cc="clang", opt="-O2"), AT("cpp", ("t_impl.c", ["g++", "-x", "c++", "-g", "-O2", "-w"])), AT("gen", ("t_arm.c", ["gcc", "-std=gnu11", "-g", "-O1", "-w", "-D_GNU_SOURCE"]))], "every interleaving of memory-accessing instructions of two threads with 2+1 (thorough 2+2) and three threads with 1 out of 9 operation instances each from three initial values on 32-bit, 64-bit and pointer atomics; two threads taking a spin lock 2+1 (thorough 2+2) times and three threads once, with and without time limits; all pairs of operations with 10 x 10 operands on one thread; five builds (gcc -O2 inlined, -O0, clang -O2, C++, and the portable branch)",
  "The real machine code is stepped: every access to the atomic's page faults and the explorer chooses which thread performs its access next; read-modify-write instructions without a lock prefix are split; every history must have a linearization.", technique="stateless exploration of all instruction-level interleavings of the real machine code, with a linearizability check", assume=["sequentially consistent memory", "an aligned access of up to 8 bytes and a locked instruction are indivisible in hardware"])

P("M01", dict(src="m01_system.c", ldflags=["-Wl,--wrap=" + w for w in "popen pclose sysconf".split()]),
  "all histories of 3 (thorough 4) of 18 environment operations; all command outputs of 0..5 (thorough 7) bytes over four, in portions, into every buffer of 0..9 bytes; 36 real commands; all histories of 4 loads and unloads of two libraries; 8 processor counts; every exit code; all 16-bit byte orders and all pairs of bytes in 32 and 64 bits; 32 bits x 262144 words; every power-of-two question up to 2^30; 13^3 operands of the comparison macros; every failing allocation",
  "The environment is compared with a map and with what the C library sees; popen is replaced at link time by a stream of chosen bytes; bit helpers are compared with their definition.")
