"""The properties: one table from which gen.py writes properties.jsonl and MANIFEST.json."""
P = []
def p(id, title, statement, over, qtext, why, files, mech, note, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append((d, note))

SCHED = "Stateless model checking of the real code under a controlled scheduler (all interleavings within the preemption/timeout/spurious-wakeup/fault bounds); trusts the pthread model in mc/mc.cpp and sequentially consistent memory. "
SEQ = "Bounded exhaustive enumeration on the real code against a reference model, under AddressSanitizer; says nothing beyond the stated alphabet and depth. "
NETN = "Trusts the in-memory TCP/DNS model in mc/net.cpp. "

p("C01", "Mutexes exclude, recursive locks nest, condition waits lose no wakeup",
  "At most one thread is inside a section guarded by a mutex or recursive mutex, a recursive mutex is released only after as many unlocks as locks by its owner and rejects unlocks by non-owners. A condition wait returns holding the mutex at its former depth, a waiter whose notification follows the state change is never left asleep, and a timed wait reports a timeout only after its full time has passed (and does report it when nobody notifies).",
  ["schedules", "programs"], "all interleavings of 2-4 threads locking, nesting, waiting (timed or not), notifying one or all, with early timeouts and spurious wakeups, up to a preemption bound",
  "The tests only instantiate these classes; no schedule with contention, foreign unlock, nested wait or lost wakeup is forced.",
  ["src/concurrent/mutex.cpp", "src/concurrent/mutex_impl.h", "src/concurrent/condition.cpp", "src/concurrent/internal.cpp", "src/concurrent/lock.h"],
  [("pthread mutex wrapper", "src/concurrent/mutex.cpp"), ("owner + count of the recursive mutex", "src/concurrent/mutex.cpp"), ("release/reacquire around wait", "src/concurrent/condition.cpp")],
  SCHED, state=[("holder, count", "owner of a recursive mutex and its nesting depth", "src/concurrent/mutex.cpp")], observe=["lock/unlock/wait/notify return values", "number of threads inside a guarded section"])
p("C02", "Reader/writer lock: readers share, writers exclude, timed attempts are truthful",
  "While a writer holds the reader/writer lock nobody else is inside, readers may be inside together, and the lock is free again once everybody released it. A try or timed attempt returns true exactly when it acquired the lock (the caller then holds it and must release it), and false only if its time has passed while the lock was unavailable.",
  ["schedules", "programs"], "all combinations of 3 threads over plain, timed and zero-timeout read and write requests and every lock-guard style, all interleavings up to a preemption bound",
  "The tests never contend on the lock and never call the timed variants from two threads.",
  ["src/concurrent/rwmutex.cpp", "src/concurrent/rwmutex.h", "src/concurrent/lock.h"],
  [("pthread rwlock wrapper, timed variants", "src/concurrent/rwmutex.cpp"), ("read/write lock guards", "src/concurrent/rwmutex.h")], SCHED)
p("C03", "Quantity semaphore is an atomic counter; no satisfiable waiter sleeps",
  "Concurrent waits for q units and signals of q units behave as atomic operations on one counter: a wait takes exactly q units and only when that many are there. No waiter stays asleep while enough units are available, and used as a lock it admits at most its initial quantity of holders.",
  ["schedules", "histories", "programs"], "all programs of 2-3 threads with up to 2 operations each over wait/signal/lock/unlock with quantities 1-2 and initial quantity 0-2; all interleavings up to a preemption bound with spurious wakeups; every history checked for linearizability including blocked calls",
  "The class is only instantiated by the tests; multi-unit waits racing with signals are never exercised.",
  ["src/concurrent/qsem.h"], [("counter under mutex and condition", "src/concurrent/qsem.h")], SCHED)
p("C04", "mvar is a linearizable one-place buffer",
  "Concurrent take, put, read, swap and their non-blocking forms on a one-place variable behave as atomic operations on a cell that is empty or holds one value: every value put is taken at most once and none is lost. A blocked call completes as soon as the cell allows it, in every schedule.",
  ["schedules", "histories", "programs"], "all programs of 3 threads x 1 operation and 2 threads x 2 operations over the seven operations from empty and full, all interleavings up to a preemption bound with spurious wakeups; linearizability incl. blocked calls",
  "Only instantiation tests exist; interleavings of put/take/swap and lost wakeups are never forced.",
  ["src/concurrent/mvar.h"], [("two conditions under one mutex", "src/concurrent/mvar.h")], SCHED)
p("C05", "Channels are FIFO; a duplicate sees everything written after it was made",
  "Reads of one channel return its values in write order, each value to exactly one reader, with un-got values first, and a reader never stays blocked while a value is there. A write to any member of a family of duplicated channels reaches every member alive, all in the same order, and a duplicate starts empty and misses nothing written after it was made; members may be created and destroyed while others are in use.",
  ["schedules", "histories", "programs"], "all programs of 2-3 threads over write/read/unget/size/empty, plus duplication and destruction racing with writes; all interleavings up to a preemption bound",
  "Only instantiation tests exist; ordering across duplicates and lifetime races need forced schedules.",
  ["src/concurrent/chan.h"], [("per-member queue, shared family list", "src/concurrent/chan.h")], SCHED)
p("C06", "Producer/consumer buffer is a linearizable bounded FIFO with exact timeouts",
  "Concurrent pushes, pops, size, emptiness and clear behave as atomic operations on a FIFO queue that never exceeds its capacity. Blocked producers and consumers proceed as soon as the queue allows it, and a timed push or pop fails only when the queue was full or empty and its time had passed, leaving the output argument alone.",
  ["schedules", "histories", "programs"], "all programs of 3 threads x 1 and 2 threads x 2 operations over 9 operations, capacities 1-2, from empty and full; all interleavings up to a preemption bound, with early timeouts and spurious wakeups; linearizability incl. blocked calls",
  "The existing test runs a few free-running producers and consumers: a handful of schedules, no timeouts racing with wakeups.",
  ["src/concurrent/pcbuf.h"], [("queue under mutex with two conditions", "src/concurrent/pcbuf.h")], SCHED)
p("C07", "Threads run their function exactly once per start; singletons are built once",
  "Each successful start runs the thread's function exactly once, join succeeds exactly when there is a started, unjoined, undetached run and returns only after it finished with its effects visible, and neither function objects nor threads leak whatever the order of start, join, detach and destruction and whichever thread creation fails. A sleep lasts at least as long as asked when it reports success, and all callers of a singleton get one and the same fully constructed instance.",
  ["schedules", "programs", "fault_sequences"], "all sequences of up to 6 start/join/detach operations and every interleaving with the started threads up to a preemption bound, every pattern of up to 2-4 failed thread creations and interrupted sleeps; 2-3 threads racing for a singleton incl. a throwing constructor",
  "Tests never fail thread creation, destroy a running thread object or race singleton construction.",
  ["src/concurrent/thread.cpp", "src/concurrent/thread.h", "src/lang/singleton.h"],
  [("start/join/detach state", "src/concurrent/thread.cpp"), ("once-only construction", "src/lang/singleton.h")], SCHED)
p("C08", "Cached DNS resolver answers like a bounded, expiring LRU cache over lookups",
  "A resolution returns the addresses of the name asked for, from a lookup that is either new or less than the expiration time old, and never disturbs other names or ports. The cache keeps at most its configured number of entries, evicting the least recently used one, forgets deleted and cleared entries, and stays consistent under concurrent use.",
  ["histories", "schedules"], "all sequences of 5 operations (resolve 3 names / 2 ports, delete, clear, time passing) for sizes 0-3, and 11 concurrent programs with every interleaving up to a preemption bound, compared with a reference cache",
  "Nothing tests the resolver's cache; eviction and expiry depend on histories and clock values.",
  ["src/network/dns.cpp", "src/network/dns.h"], [("name/port map with access times", "src/network/dns.cpp")], SCHED + NETN)
p("C09", "RPC server life cycle: start, stop and wait always reach the stopped state",
  "A server that was started serves until stopped; after stop, once its clients are gone, it reaches the stopped state in every schedule, everybody waiting for that is woken, and its port, threads and descriptors are released so it can be started again. Stopping from several threads, from inside a method, with receive timeouts, with no threads or after a failed start is safe.",
  ["schedules", "fault_sequences", "histories"], "start/serve/stop/wait/restart programs with 0-3 server threads, 1-2 waiters or stoppers and an active client; all interleavings up to a preemption or delay bound; every single failed thread creation, socket or option call while starting",
  "The RPC test does one start and stop with real sockets and time; no schedule or fault is controlled.",
  ["src/network/rpc/base.h", "src/network/rpc/base.cpp"], [("run state + condition", "src/network/rpc/base.cpp")], SCHED + NETN)
p("C10", "RPC calls return the method's result or an error and execute at most once",
  "A call returns exactly what the method computed from exactly the given arguments, or throws an RPC error (also when the method itself throws); per call the method runs at most once, and once if the call returned. A request that was cut short, carries an unknown method or a wrong protocol version is not executed and is reported as such, short reads and writes, interruptions and packet boundaries do not matter, and the connection or the server remains usable afterwards.",
  ["fault_sequences", "inputs", "schedules"], "4 method signatures under every placement of up to 2 short transfers, interruptions, resets or refusals; every truncation point and every two-packet split of raw requests; two concurrent clients",
  "The RPC test performs a few calls over an ideal loopback connection.",
  ["src/network/rpc/base.h", "src/network/rpc/base.cpp", "src/network/rpc/caller.h", "src/network/rpc/invoker.h"],
  [("request framing and dispatch", "src/network/rpc/base.cpp"), ("ping, reconnect, reply parsing", "src/network/rpc/base.cpp")], SCHED + NETN)
p("C11", "Sockets deliver the byte stream exactly, whatever the kernel does",
  "Bytes written to a connected socket (or stream) and flushed arrive at the peer complete, in order and unmodified, and reads, character and line reads return the peer's bytes in order with correct end-of-stream and timeout reporting, whatever way transfers are cut short or interrupted; when the connection fails the peer has a prefix and the failure is reported. Nothing crosses from one connection to the next, name resolution falls back to the next address, and no descriptor leaks.",
  ["inputs", "fault_sequences", "histories"], "all sequences of up to 4 writes with sizes around the buffer size and 3 reads, with every placement of up to 2 short transfers, interruptions or resets, every split point of the incoming data, failing socket/option/connect calls",
  "The tests have no socket test; buffer-boundary and partial-transfer behaviour depends on kernel answers a test cannot force.",
  ["src/network/socket.cpp", "src/network/socket.h", "src/network/iostream.h"], [("read/write buffers", "src/network/socket.cpp"), ("stream buffer", "src/network/iostream.h")], SCHED + NETN)

p("C13", "Binary serialization restores values exactly and reports cut or full streams",
  "Writing a value of any supported type (numbers, strings, sequences, sets, maps, pairs, nested user types) and reading it back gives an equal value whatever the target held before, and consumes exactly the bytes written, so values can follow each other. The format is fixed (little-endian numbers of their own width, 32-bit element counts in front of the elements); a stream that ends early or a sink that stops accepting bytes is always reported and never read past, never loops and never allocates without bound.",
  ["inputs", "fault_sequences"], "for 30 types all small values over boundary elements, every previous content of the target, every truncation point, every position where the sink fails, corrupted counts",
  "The tests round-trip a few values per type into fresh targets and never cut a stream.",
  ["src/data/serialization.h", "src/data/serialization/base.h", "src/data/serialization/*.h"], [("binary archives", "src/data/serialization/base.h"), ("container serializers", "src/data/serialization/*.h")], SEQ)
p("C14", "JSON output is valid JSON and reads back as the same value in every print mode",
  "Printing any JSON value, compact or pretty, with or without Unicode escaping, yields one well-formed JSON text that parses back to an equal value: same types, string contents for any well-formed UTF-8 including control characters, quotes, NUL and characters beyond the basic plane, integers over the whole 64-bit range, finite floats to 12 digits. With escaping the output is pure ASCII, without it characters beyond ASCII appear as they are; a number that is not finite never becomes a JSON value; and JSON archives of user types round-trip.",
  ["inputs"], "all values of nesting depth up to 3 over boundary atoms, all strings over 20 boundary characters up to length 3 and every code point once, 4 print modes, an independent parser as oracle",
  "The tests print a dozen values; escaping and nesting bugs hide in particular characters and combinations.",
  ["src/text/json/base.h", "src/text/json/serialization.h", "src/data/string/ustring.cpp"], [("printers and string escaping", "src/text/json/base.h")], SEQ)
p("C15", "The JSON parser accepts exactly JSON and yields the value the text denotes",
  "A well-formed JSON text, with any whitespace, is accepted and gives exactly the value it denotes, both as a document and as the sequence of events of the callback interface; a text with a structural, keyword, string or escape error is rejected with an error and never crashes, hangs or reads beyond the input. Documents that follow each other on one stream are read one by one, and the end of the data is reported as such, distinct from an incomplete document.",
  ["inputs"], "all texts over 17 tokens up to length 6-7 and all texts over 12-30 characters up to length 4-5, every escape sequence, every truncation of structured texts, against an independent parser",
  "The tests parse some good documents and a few bad ones; acceptance is a statement about all strings.",
  ["src/text/json/parser.cpp", "src/text/json/parser.h"], [("recursive-descent parser with one character of lookahead", "src/text/json/parser.cpp")], SEQ)
p("C16", "JSON conversions and value operations are type-exact and leave operands alone",
  "Converting a JSON value to a C++ type succeeds exactly when every part has the matching type and fits (integers also serve as floats, null or absence as an empty optional, unknown members are ignored) and gives the denoted value; otherwise it is refused, and a container target keeps its old content. Conversions with defaults keep the default (for an empty optional that of its type) wherever the JSON has no matching value, C++ values survive conversion to JSON and back, and comparison, merge, clone, member and element access behave as on plain values: clones are independent, operands unchanged, wrong kinds refused.",
  ["inputs", "histories"], "about 1,300 JSON values x 19 C++ types x default values; all pairs of 150 small values under comparison, merge, clone-then-modify and access operations",
  "The tests convert a few matching values; refusal, partial failure and aliasing between clones are not covered.",
  ["src/text/json/cast.h", "src/text/json/base.h", "src/text/json/serialization.h"], [("casts and defaults", "src/text/json/cast.h"), ("equality, merge, clone", "src/text/json/base.h")], SEQ)

p("C17", "CSV text reads back as exactly the rows and fields it denotes",
  "Every well-formed CSV text (quoted or plain fields, doubled quotes, separators and line ends inside quotes, LF or CRLF, with or without a final line end, rows of any length) yields exactly its rows and fields, by every reading interface. Any other text is read without crashing, hanging or touching memory outside the text, identically by all interfaces, and rows already handed out stay valid while reading goes on.",
  ["inputs"], "all texts over 7 structural characters up to length 6-7, all texts over 12 field fragments up to length 5-6, every byte in every position kind, all small tables in every quoting style, row lengths around the internal buffer sizes; five reading interfaces against an RFC 4180 reader",
  "The test reads one small file; quoting errors and buffer boundaries need particular texts and lengths.",
  ["src/text/csv.h", "src/text/csv.cpp"], [("row scanner with growing buffer", "src/text/csv.cpp"), ("input iterator", "src/text/csv.h")], SEQ)
p("C18", "Base64 encoding is RFC 4648 and decoding inverts it, refusing anything else",
  "Any byte string is encoded as RFC 4648 base64 with padding, and decoding that gives the bytes back. A text with a wrong length, a character outside the alphabet or misplaced padding is refused with an error and never read outside.",
  ["inputs"], "all byte strings up to length 2, 3-byte strings over a grid (all in the thorough run), lengths to 400; all 4-character texts over 22 characters, 5-9 character texts over 6, every byte at every position of a quantum",
  "The tests encode a few strings; refusal of malformed text is a statement about all strings.",
  ["src/data/encoding/base64.cpp"], [("table-driven coder", "src/data/encoding/base64.cpp")], SEQ)
p("C19", "MD5 digests are RFC 1321 digests whatever the length, and print as such",
  "The digest of every byte string equals the RFC 1321 digest, for every length around the block and padding boundaries and whether computed from a string, a range or a stream. Digests print as 32 lower-case hexadecimal digits whatever the state of the stream, which is left as it was, and are totally ordered.",
  ["inputs"], "all byte strings up to length 2, all lengths to 600-3000 with 4 contents, every single bit flip of 8 boundary lengths, large inputs; all pairs of a digest set under the comparisons; an independent MD5",
  "The test hashes a handful of fixed strings; padding bugs show only at particular lengths.",
  ["src/data/digest/md5.h", "src/data/digest/md5.cpp"], [("block function and padding", "src/data/digest/md5.cpp")], SEQ)
p("C20", "Bit codes: the decoder reads back exactly what the encoder wrote",
  "Any sequence of bytes, fixed-width words, gamma, delta, Rice and prefix codes written by the encoder is read back as the same values by the decoder in any mixture and at any bit offset, from memory, stream or file. The bit layout is the documented one, and encoder and decoder can be flushed, re-attached and reused.",
  ["inputs", "histories"], "every code with all boundary and all small values at each of 16 bit offsets; all sequences of 4-5 out of 20 representative codes; a reference bit stream",
  "The test writes each code alone; alignment between mixed codes needs sequences.",
  ["src/data/code/code.h", "src/data/code/code.cpp"], [("bit cursor", "src/data/code/code.h")], SEQ)
p("C21", "Sparse matrix files read back as written and transposition is exact",
  "Every row appended to a matrix file is read back unchanged by number, in any order and as list or map, with the right row count and sizes. Transposing a file gives exactly the transposed matrix however little memory is available, and transposing twice gives the matrix back; readers and writers can be closed and reused.",
  ["inputs", "configurations"], "all matrices of up to 2-3 rows over column sets with gaps around the code boundaries and values 1-255, each transposed under every memory limit from one entry per piece upwards",
  "There is no test of the matrix files; piecewise transposition depends on the free memory of the machine.",
  ["src/data/sparse_matrix/sparse_matrix.h", "src/data/sparse_matrix/sparse_matrix.cpp"], [("gap-coded rows and offset file", "src/data/sparse_matrix/sparse_matrix.cpp"), ("piecewise transposition", "src/data/sparse_matrix/sparse_matrix.cpp")], SEQ)
p("C22", "UTF-8 is encoded, decoded, checked and sanitised exactly; so are kana widths",
  "Every Unicode scalar value encodes to its one shortest UTF-8 form and decodes back; in any byte string each malformed sequence (a stray byte, or a lead byte with the continuation bytes after it, up to its announced length) is handed to the fallback once and decoding resumes right after it, the validity check accepts exactly well-formed UTF-8, and sanitising keeps exactly the well-formed characters except those below U+0020, U+FFFE and U+FFFF. Half-width kana, voicing marks and full-width Latin are converted character by character as Unicode defines them, and everything else is left unchanged.",
  ["inputs"], "all 1,114,112 code points; all byte strings up to length 2-3 and over 23-38 boundary bytes up to length 4-5, lead bytes followed by up to 6 boundary bytes; all pairs of 167 and 4-5-tuples of 17 width-relevant characters; an independent decoder",
  "The tests decode the usual stress file and convert one kana table; the statement is about all byte strings.",
  ["src/data/string/ustring.h", "src/data/string/ustring.cpp"], [("decoder with fallback", "src/data/string/ustring.h"), ("sanitiser and kana tables", "src/data/string/ustring.cpp")], SEQ)
p("C23", "Split, join, strip, replace and affix tests mean what they say",
  "Splitting by a character or non-empty string cuts at exactly the leftmost non-overlapping separators, keeping empty parts, and joining the parts with the separator gives the string back. Stripping removes exactly the white space at the ends, replacing substitutes exactly the leftmost non-overlapping occurrences, the affix tests are exact, for narrow and wide strings alike, and the result may be stored in any of the arguments.",
  ["inputs"], "all strings over 3 letters up to length 7-9 with all patterns up to length 3, all strings over 5 special bytes, all strings over 8 characters up to length 6-7 for stripping, every code point, all part lists up to length 5-6",
  "The tests have a dozen examples per function.",
  ["src/data/string/utility.h"], [("split/strip/join/replace templates", "src/data/string/utility.h")], SEQ)
p("C24", "String searching and sequence distances equal their definitions",
  "Single-pattern search finds the first occurrence at or after the offset (and none otherwise), for any pattern including the empty one; dictionary search reports exactly the occurrences of every non-empty word of a duplicate-free dictionary, for any bytes. Edit distance, longest common subsequence and longest strictly increasing subsequence have their defined values for any element type.",
  ["inputs"], "all patterns up to length 7 x all texts up to length 8-10 over 2 letters x all offsets; all dictionaries of up to 3-5 of 18 words x all texts up to length 5 over 3 letters, all pairs of words over extreme bytes, large dictionaries; all pairs of strings up to length 6-8; all sequences of 6-7 boundary values of 5 element types",
  "The tests try a few examples; failure links and table growth depend on the dictionary.",
  ["src/data/string/kmp.h", "src/data/string/aho_corasick.cpp", "src/data/string/algorithm.h"], [("failure tables", "src/data/string/kmp.h"), ("double-array trie", "src/data/string/aho_corasick.cpp")], SEQ)

p("C29", "URIs are split into their components exactly as RFC 3986 says, and printed back",
  "Every string that RFC 3986 derives as a URI or relative reference (IPv6 and future literals, user info, ports, empty components, percent-encodings included) parses into exactly the scheme, user info, host, port, path, query and fragment the grammar gives it, and any other string is refused. Printing a parsed URI gives a text that parses into the same components, and parsing never reads outside the string.",
  ["inputs"], "all strings over 14 structural characters up to length 5-6, all productions of authority, host, IPv4/IPv6 and path pieces from boundary fragments, every byte in every component, against an independent RFC 3986 matcher",
  "The test parses four well-known URLs; acceptance and splitting are statements about all strings.",
  ["src/network/uri.cpp", "src/network/uri.h"], [("backtracking grammar matcher", "src/network/uri.cpp")], SEQ)

p("C12", "HTTP messages are parsed, delimited and sent exactly",
  "A well-formed HTTP request or response yields exactly its method or status, target, version, header fields (names compared without case, folded lines and repeated fields joined) and body, whether the body is delimited by length, by chunks or by closing, in any chunking, with extensions, trailers and any byte values, and nothing beyond the message is consumed. Messages sent by the library have that form and read back equal; malformed first lines and chunk sizes, lines beyond the limit and failures to send are reported, and a message that is cut short never yields anything but a prefix of its body.",
  ["inputs", "fault_sequences"], "5+5 start lines x all choices of up to 3 of 8 header lines x framings x bodies with every chunking, 4 ways of reading, CRLF and LF; every truncation; every placement of up to 2 short transfers, interruptions or resets; sizes around the buffers",
  "There is no HTTP test at all; delimiting bugs depend on particular bodies, chunkings and packet boundaries.",
  ["src/network/http/base.cpp", "src/network/http/base.h", "src/network/http/stream.h"], [("header reader, length and chunk stream buffers", "src/network/http/base.cpp")], SCHED + NETN)
p("C30", "URI and HTML escaping are reversible and leave nothing unescaped",
  "Encoding any byte string as a URI component gives only unreserved characters, plus signs for spaces and two-digit percent escapes, and decoding gives the original string back (upper or lower case escapes); malformed escapes never read outside the string. HTML encoding leaves no markup character and is reversible, and a rendered or pretty-printed XHTML tree, built directly or with the tag macros, is well-formed markup denoting exactly that tree.",
  ["inputs"], "all byte strings up to length 2, all strings over 12-15 special fragments up to length 5-6, all XHTML trees of up to 4-5 nodes with attributes and hostile texts, independent decoders and markup parser",
  "The tests encode six strings; nothing tests HTML output.",
  ["src/network/uri.cpp", "src/text/xhtml.cpp", "src/network/cgi/inserter.cpp"], [("escaping loops", "src/network/uri.cpp"), ("renderers", "src/text/xhtml.cpp")], SEQ)
p("C36", "CGI programs see exactly the parameters and files of the request",
  "The program is run once per complete request with exactly the decoded names and values of its query string or form body, in order, and for multipart bodies exactly the field values and file contents of its parts, whatever bytes they contain, including nested multiparts; nothing of an earlier request is visible. A body that is too long, shorter than announced, cut off or without boundary is refused without running the program, and the program's header fields and output form the response unchanged.",
  ["inputs", "histories"], "all query strings over 9 tokens up to length 5-6, all multipart bodies over 13 boundary-like fragments up to length 3-4 for 5 boundaries, every truncation, all sequences of 3-4 requests from 9",
  "There is no CGI test; boundary detection and state reuse depend on contents and histories.",
  ["src/network/cgi/base.cpp"], [("form and multipart parsers", "src/network/cgi/base.cpp")], SEQ)
p("C37", "The built-in CGI web server answers each request with its own response",
  "Every well-formed request, however it is split into packets and whatever other requests are in progress, gets exactly one response: the status, header fields and body its own program run produced, with correct environment variables. Clients that send garbage, stop half-way, stall or reset the connection, programs that throw, and interrupted or short transfers never stop the server, run the program on an incomplete request, leak a descriptor or mix two requests.",
  ["schedules", "fault_sequences", "inputs"], "1-2 server threads, sequences and concurrent pairs of requests with every interleaving up to a preemption or delay bound, every packet split, 10 kinds of bad clients and failing programs x 3 ways of leaving, every placement of 1-2 transfer or accept faults, idle timeouts",
  "No test starts the CGI server.",
  ["src/network/cgi/server.cpp", "src/network/cgi/base.cpp", "src/network/http/base.cpp"], [("accept loop, one program object per thread", "src/network/cgi/server.cpp")], SCHED + NETN)

p("C25", "LRU cache, interning table and prefix-sum tree behave like their plain models",
  "The LRU cache holds the most recently used entries up to its size: storing replaces the value and, when full, evicts exactly the least recently used key; reading, touching, removing and clearing do exactly that, absent keys are refused, and copies are independent. The interning table numbers distinct keys 0,1,2,... in order of first appearance, maps both ways, survives swapping, copying and serialization, and reports cut data and stays memory-safe on damaged data; the prefix-sum tree returns exact prefix and range sums after any increments.",
  ["histories", "inputs"], "all operation sequences of length 3-5 (6 thorough) over 19-25 LRU operations for sizes 1-3, all sequences of 4-5 interning operations with three hash/equality choices, every cut and byte damage of serialized tables, all sequences of up to 3 increments on trees of 0-9 (33) cells",
  "The tests run one short sequence per container; eviction order is a statement about histories.",
  ["src/data/lru.h", "src/data/intern.h", "src/data/fenwick_tree.h"], [("value map + access-time set", "src/data/lru.h"), ("two-way table", "src/data/intern.h"), ("implicit tree", "src/data/fenwick_tree.h")], SEQ)
p("C26", "Value holders and smart pointers own exactly what they should, failures included",
  "Optional, any, scoped, shared and weak pointers hold exactly the values assigned to them: objects live as long as a holder owns them and are destroyed exactly once, no two value holders share an object, and when copying a value throws, the holder keeps its old value and nothing leaks. Comparisons, casts and type tests answer truthfully (wrong casts and expired weak pointers raise the documented errors), and text conversion of integers is exact both ways, refusing text without a number or out of range.",
  ["histories", "fault_sequences", "inputs"], "all sequences of 4-5 of 17 operations on two optionals and two anys with the first or second copy of the last step failing; all sequences of 3-4 of 25 (5-6 of fewer) pointer operations; scoped pointers to length 5-6; all strings of 9 characters to length 5-6 and all boundary numbers for the text conversion",
  "The tests instantiate the templates and try a few assignments; none throws from a copy.",
  ["src/data/optional.h", "src/lang/any.h", "src/lang/scoped_ptr.h", "src/lang/shared_ptr.h", "src/lang/weak_ptr.h", "src/lang/enable_shared_from_this.h", "src/lang/cast.h", "src/lang/exception.h"], [("copy and swap", "src/data/optional.h"), ("type-erased holder", "src/lang/any.h"), ("ownership wrappers", "src/lang/shared_ptr.h")], SEQ)
p("C27", "Rationals, Fourier transforms and vectors compute what mathematics says",
  "Rational numbers are always in lowest terms with positive denominator and their four operations are exact as long as the parts fit the integer type, also when both operands are the same object. The one- and two-dimensional Fourier transforms equal their defining sums, are undone by the inverse transform up to the length, and lengths that are not powers of two or not rectangular are refused; vector operations of dimension 2 to 10 are the componentwise and product operations they name, and text output reads back.",
  ["inputs"], "all pairs of rationals with parts up to 10-16 and over 16 boundary values for 4 integer types; all basis vectors of all power-of-two lengths to 128-512, all small combinations, lengths 0-130, all 1x1..8x8 basis matrices; all pairs of small-component vectors in every dimension and both layouts",
  "The tests check algebraic laws on random values and one transform; boundaries, aliasing and most dimensions are not reached.",
  ["src/math/ratio.h", "src/math/fft.h", "src/math/vector.h"], [("gcd reduction", "src/math/ratio.h"), ("in-place butterflies", "src/math/fft.h")], SEQ)
p("C28", "Random numbers: exact generator, right ranges for every draw, uniform samples",
  "The generator produces the MT19937 sequence of its seed. For every possible raw draw, bounded integers and reals lie in their half-open ranges (both ends right), reals have 53 random bits, and gaussian values are finite, come in independent standard-normal pairs and scale with mean and deviation; sampling with and without replacement returns the requested number of values in range (distinct without replacement), every outcome equally likely, and impossible requests are refused.",
  ["inputs", "fault_sequences"], "41 seeds x 2600 draws; all pairs of 36 boundary raw draws x 18 bounds and 15 intervals; even grids of draws; every sequence of choices of a sampling call for up to 7 items, with exact probabilities",
  "The tests look at ranges over random seeds; the extreme draws that break a range have probability 2^-53.",
  ["src/math/random.h", "src/math/random/mersenne_twister.cpp"], [("state recurrence", "src/math/random/mersenne_twister.cpp"), ("range mapping, sampling", "src/math/random.h")], SEQ)
p("C31", "Configuration files yield exactly their sections, keys and values",
  "A configuration text yields exactly the sections, keys and values it denotes: white space around lines, keys and values does not count, double quotes around a value are removed, lines starting with a semicolon are comments, a later value replaces an earlier one, and keys before the first section belong to the unnamed one. A line that is none of these is reported with its file, line number and position, and looking up what is not there gives an empty value without changing anything.",
  ["inputs"], "all texts over 8 structural characters up to length 6-7 and over 10 with other white space up to 5-6, all files of up to 3-4 of 26 lines, long lines and many keys, from stream and file, against an independent reader",
  "There is no test of configuration files.",
  ["src/data/config_file.cpp", "src/data/config_file.h"], [("line parser", "src/data/config_file.cpp")], SEQ)
p("C32", "IPv4 addresses print, read back, compare and refuse what is not an address",
  "Every IPv4 address prints in dotted decimal and reads back as itself, equality and order are those of the four octets from the left. Text with fewer or more than four numbers, an empty or non-numeric part, anything after the last number or a number outside 0-255 (however large) gives the invalid address.",
  ["inputs"], "every octet value at every position with 20 surroundings, all combinations of 18 boundary octets, all pairs of 625 addresses, 28 out-of-range numbers at every position, all texts over 7 fragments up to length 7-8",
  "The test parses a few addresses.",
  ["src/network/ipv4.h", "src/network/ipv4.cpp"], [("scanf parser and range check", "src/network/ipv4.h")], SEQ)
p("C33", "File mappings show their file and survive failures; byte order is exact",
  "An open mapping shows exactly the file's bytes and size and writes reach the file; opening, re-opening, closing, moving and swapping mappings in any order, with any system call failing or being interrupted, never leaves a descriptor or mapping behind, releases one twice, or loses the mapping held before a failed open. Temporary-file streams create a private file from their template and read back what was written, byte-order conversion reverses exactly the bytes of every type and is its own inverse, and error texts and file sizes are those of the system.",
  ["histories", "fault_sequences", "inputs"], "all sequences of 3-4 of 17 operations on two mappings and five files with open, fstat or mmap of the last step failing or interrupted; every 16-bit value and every byte of the wider types; 8 templates",
  "The test opens one file; moves, re-opens and failing calls are not tested.",
  ["src/system/mmapper.h", "src/system/mmapper.cpp", "src/system/file.cpp", "src/system/endian_util.h", "src/system/syscall.h"], [("open/fstat/mmap into a temporary", "src/system/mmapper.cpp"), ("retry macro", "src/system/syscall.h")], "Bounded exhaustive enumeration on the real code with interposed system calls; says nothing beyond the stated depth. ")
p("C34", "Clock times are exact and convert to calendar times and back in any zone",
  "Sums and differences of clock times are exact with microseconds always in 0-999999, and their order is that of time. Every moment converts to the right local date, time, weekday, day of year and daylight-saving flag and back to the same moment, in every time zone and through daylight-saving changes, and a calendar time built from its fields denotes that local time, fields out of range being carried over.",
  ["inputs", "configurations"], "all pairs of 88 clock times; 9 time zones x every day or fifth day 1970-2100, every 5 minutes around daylight-saving changes, month ends and leap days",
  "The tests convert the current time once in the build machine's zone.",
  ["src/system/time_util.h", "src/system/time_util.cpp"], [("carry loops", "src/system/time_util.h"), ("mktime/localtime conversion", "src/system/time_util.cpp")], SEQ)

DBF = ["src/database/util.h", "src/database/connection.h", "src/database/statement.h", "src/database/postgresql/connection.cpp", "src/database/postgresql/statement.cpp", "src/database/postgresql/result.cpp", "src/database/mysql/connection.cpp", "src/database/mysql/statement.cpp"]
p("C35", "Database transactions are all or nothing and no failed operation looks done",
  "A transaction block commits when it is left normally and rolls back when it is left by an exception, which still reaches the caller, and a commit that fails is reported as an error. For every history of statements, prepared statements and transactions on PostgreSQL or MySQL, and wherever in it a call of the database client fails or the connection is lost, the server ends up holding exactly what the operations reported as successful stored, and a prepared statement always runs its own query. No history crashes the program or leaves a connection, statement or result of the client library unreleased.",
  ["fault_sequences", "histories", "crash_points"], "all histories of up to 4 (thorough: 6) operations of 9 kinds x every client call as the failing one x 3 kinds of failure x reconnection possible or not",
  "No test touches the database layer; it takes failures inside transactions and interleaved statements.",
  DBF, [("transaction block", "src/database/util.h"), ("retry and reconnect", "src/database/mysql/connection.cpp"), ("unnamed prepared statement", "src/database/postgresql/statement.cpp")], SEQ + " The client libraries are stand-ins.")

p("C38", "Database values cross unchanged between program and server, NULL staying NULL",
  "Each of up to ten typed parameters reaches the server in its place with its exact value, and each column of each row of a result comes back with its exact value and order, NULL as no value, whatever the lengths, signs, fractions and NULLs of the other columns and rows. A number of parameters or of columns that does not match, a value that does not fit the requested integer type, a value of another type (except that anything else read as a string is empty) and a value that cannot be represented are reported as database errors. The parameters of a connection reach the client library as given.",
  ["inputs"], "10 arities x 6 type rotations x 13 row widths; all pairs of ~120 parameter values per server; all pairs of rows of ~60-130 values per column type; strings to 70000 bytes",
  "No test touches the database layer; conversions fail at particular values (negative, NULL, long, fractional) and arities.",
  ["src/database/type.h", "src/database/statement.h", "src/database/connection.h", "src/database/postgresql/value.cpp", "src/database/postgresql/result.cpp", "src/database/postgresql/statement.cpp", "src/database/mysql/value.cpp", "src/database/mysql/statement.cpp"], [("typed conversions", "src/database/type.h"), ("text format", "src/database/postgresql/value.cpp"), ("bind buffers", "src/database/mysql/value.cpp"), ("buffer growth", "src/database/mysql/statement.cpp")], SEQ + " The client libraries are stand-ins.")

MPF = ["src/network/mprpc/rpc_server.cpp", "src/network/mprpc/rpc_stream.cpp", "src/network/mprpc/object_stream.cpp", "src/network/mprpc/socket.cpp"]
p("C39", "MessagePack RPC calls return the method's result or an error, whatever arrives",
  "A MessagePack RPC call returns exactly what the method computed from exactly the given arguments or throws an RPC error, a time-out error only after the time has passed; per call the method runs at most once, and once if the call returned. Requests that are cut short or malformed are not executed, unknown methods, missing arguments or ones of the wrong type and methods that throw anything are reported to the caller, and the reply to another call is never taken for the answer. Short transfers, interruptions, packet boundaries, resets and peers that stall, go away or send garbage never end the process or keep it from serving the next client, and nothing is sent after a message that could not be sent completely.",
  ["fault_sequences", "inputs", "schedules"], "4 method signatures under every placement of up to 2 short transfers, interruptions, resets or refusals; every truncation point and two-packet split of requests and replies; 22 malformed requests, 14 malformed replies; arities 0-9 with every number of missing arguments; stuck peers at 17 buffer sizes; two concurrent clients",
  "The MessagePack RPC tests are not even built here, and perform a few calls over an ideal loopback connection.",
  MPF + ["src/network/mprpc/caller.h", "src/network/mprpc/invoker.h", "src/network/mprpc/message.h", "src/network/mprpc/rpc_client.cpp"],
  [("framing, partial writes, time-outs", "src/network/mprpc/object_stream.cpp"), ("matching replies to calls", "src/network/mprpc/rpc_stream.cpp"), ("dispatch and error replies", "src/network/mprpc/rpc_server.cpp")], SCHED + NETN + " MessagePack is a stand-in.")
p("C40", "A MessagePack RPC server serves until stopped and releases everything",
  "A created server serves with all its threads until it is stopped; once it is stopped and its clients are gone or have timed out, joining it returns, its port, threads and descriptors are released, and it can be created and run again. A port that is in use, a failing system call or a thread that cannot be started is reported as a failed start that leaves nothing behind. Stopping during a call or from inside a method is safe, and the call in progress is still answered.",
  ["schedules", "fault_sequences", "histories"], "0-3 server threads, up to 3 start/stop rounds, all placements of up to 2 failing calls or thread starts, all interleavings with up to 2 preemptions (thorough: 3)",
  "The MessagePack RPC tests are not built here, and start and stop one server under one schedule.",
  MPF, [("accept loop, stop, join", "src/network/mprpc/rpc_server.cpp"), ("listen and close", "src/network/mprpc/socket.cpp")], SCHED + NETN + " MessagePack is a stand-in.")

p("C41", "CGI and FastCGI programs serve each request by itself, byte for byte",
  "Run as a CGI or FastCGI process, a program sees exactly the environment, method, parameters and uploaded files of the request being served, and its headers and page go out byte for byte, the same as when it is executed on ordinary streams with that request. A FastCGI process serves every request it is given, in order and each finished exactly once, with nothing left over from an earlier one, also when a request body is cut short or the server stops taking output. An XHTML page consists of its declarations and exactly the elements built for this request, and a page that throws leaves nothing behind in the next.",
  ["histories", "inputs", "fault_sequences"], "all sequences of up to 3 (thorough: 4) of 15 requests x 3 pages; output failing at every write; all pairs of 72 pages",
  "The runners have no tests; leftovers and truncation need several requests in one process.",
  ["src/network/cgi/fcgi.cpp", "src/network/cgi/cgi.cpp", "src/network/cgi/util.cpp", "src/network/cgi/base.cpp", "src/network/cgi/xhtml_cgi.cpp"], [("request loop and stream buffer", "src/network/cgi/fcgi.cpp"), ("environment block", "src/network/cgi/util.cpp"), ("page set-up", "src/network/cgi/xhtml_cgi.cpp")], SEQ + " The FastCGI library is a stand-in.")

p("C42", "Type descriptions name every part of a type and RPC method, in order",
  "The description of a serialisable type (number of any size and sign, character, string, vector, map, class, and any nesting of them) names exactly its parts in order, with the sizes, signs, class names and member names given, and says the same whether printed, walked or traversed. The description of an RPC method has the method's return type and all its arguments in order for every arity, and that of an interface has its name, version and every method. Names given for descriptions change nothing in what is stored.",
  ["programs", "inputs"], "about 960 types: 19 basic types, 5 wrappers of each, pairs, and nesting to depth 3; methods of arity 0-9 in 9 rotations of types",
  "The test describes four types; a wrong entry shows only for its own type, nesting or arity.",
  ["src/data/serialization/reflect.h", "src/data/serialization/map.h", "src/data/serialization/vector.h", "src/data/serialization/string.h", "src/network/rpc/reflect.h"], [("class stack and names", "src/data/serialization/reflect.h"), ("method signatures", "src/network/rpc/reflect.h")], SEQ)
p("C43", "System statistics are those the system reports, at any size",
  "The load average is the system's one-minute load, total memory is the memory the system has, and free memory is what is free plus what the page cache holds, whatever else the system lists, in whatever order, and however large the figures are. All memory figures use the same unit, and what the system does not report is zero.",
  ["inputs", "configurations"], "all triples of 12 sizes up to 2^44 kB x 6 layouts of the memory table; missing lines and files; 512 load tables",
  "The tests cannot choose the machine they run on.",
  ["src/system/sysstat.cpp"], [("tables of /proc", "src/system/sysstat.cpp")], SEQ)
p("C44", "Threads using separate objects, or reading a shared one, do not interfere",
  "Calls made at the same time by different threads on objects of their own (parsing, printing, encoding, digests, serialization, time conversion, random numbers, string and container utilities, CGI requests) give exactly the answers they give alone, and so do later calls. The same holds for threads that only read or copy one common object. An object shared through smart pointers held by several threads is destroyed exactly once, with its last owner.",
  ["schedules", "programs"], "23 groups of calls covering the library's stateless parts, every ordered pair of groups and every group with itself, each from a fresh process; 9 kinds of shared read-only objects; 3 ownership programs; all interleavings at racing accesses, static initialisations and shared C-library buffers, up to a preemption bound",
  "The tests call these functions from one thread only; hidden shared state shows only when two calls overlap at the right place.",
  ["src/data/digest/md5.cpp", "src/data/encoding/base64.cpp", "src/data/config_file.h", "src/data/string/ustring.cpp", "src/data/string/utility.h", "src/data/code/code.cpp", "src/lang/shared_ptr.h", "src/lang/cast.h", "src/lang/demangle.h", "src/math/random.h", "src/network/uri.cpp", "src/network/ipv4.h", "src/network/http/base.cpp", "src/network/cgi/base.cpp", "src/system/time_util.cpp", "src/system/syscall.cpp", "src/text/csv.h", "src/text/xhtml.cpp", "src/text/json/parser.cpp", "src/text/json/base.h"],
  [("results in local variables, reentrant C-library calls", "src/system/time_util.cpp"), ("sine table, rebuilt by every call", "src/data/digest/md5.cpp"), ("reference counts", "src/lang/shared_ptr.h")], SCHED)

NOT_APPLICABLE = []
