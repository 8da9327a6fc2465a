# id -> (how it is explored and against what oracle, cost of the quick check in seconds)
O = {
"C01": ("mc scenarios over the real mutex, recursive mutex, condition and lock guards. Oracle: number of threads inside, return values, depth of the recursive mutex probed by a second thread's try-lock, virtual clock at a reported timeout, deadlock = lost wakeup.", 11),
"C02": ("mc scenarios, all triples of request kinds. Oracle: reader/writer occupancy counters and what a probe request can get afterwards.", 1),
"C03": ("mc, generated programs. Oracle: linearizability against a counter, with calls still blocked at the end required to be unsatisfiable in the final state.", 7),
"C04": ("mc, generated programs. Oracle: linearizability against an optional value, blocked calls included.", 1),
"C05": ("mc, generated programs plus life-cycle scenarios. Oracle: per-member FIFO model, agreement of the order across members, heap monitor for lifetime races.", 2),
"C06": ("mc, generated programs. Oracle: linearizability against a bounded queue, blocked calls included; virtual clock for timeouts.", 5),
"C07": ("mc, all operation sequences with fault choices for thread creation and nanosleep. Oracle: run counter, state machine of a thread object, live-object count, unreaped threads; number of constructions of a singleton.", 4),
"C08": ("mc with the resolver stand-in and virtual time. Oracle: reference LRU cache with expiry, number and arguments of lookups, answers.", 9),
"C09": ("mc with in-memory TCP. Oracle: waiters return, threads/descriptors/listeners gone, restart and a call succeed; deadlock otherwise.", 24),
"C10": ("mc with in-memory TCP and faults; raw peers send every truncation and split. Oracle: executions counted in the method, result recomputed, result codes parsed from the wire.", 9),
"C11": ("mc with in-memory TCP and faults. Oracle: the byte string written; prefix on failure; descriptor count.", 15),
"C12": ("mc with in-memory TCP (single thread per side, fault and split choices) and string streams. Oracle: message generator knows the components; independent parser for what the library sends.", 60),
"C13": ("seq. Oracle: independent encoder of the documented format, equality of values, position after reading, error on every truncation and on every failing sink position, memory cap.", 9),
"C14": ("seq. Oracle: independent JSON parser (h/json.h).", 5),
"C15": ("seq. Oracle: independent JSON recogniser and event list (h/json.h).", 9),
"C16": ("seq. Oracle: a second implementation of conversion, merge and comparison on a plain value type.", 9),
"C17": ("seq. Oracle: RFC 4180 reader; five interfaces compared with each other on ill-formed text; ASan for over-reads.", 8),
"C18": ("seq. Oracle: arithmetic definition of RFC 4648.", 4),
"C19": ("seq. Oracle: independent MD5.", 4),
"C20": ("seq. Oracle: reference bit stream built as a string of bits.", 5),
"C21": ("seq with an interposed memory limit. Oracle: the matrix in memory.", 10),
"C22": ("seq. Oracle: table-driven decoder written from the Unicode standard, Unicode decomposition of kana.", 10),
"C23": ("seq. Oracle: naive definitions on strings.", 8),
"C24": ("seq. Oracle: brute force by definition.", 10),
"C25": ("seq, all operation sequences. Oracle: reference containers (list-based LRU, map-based interning).", 12),
"C26": ("seq, all operation sequences with a throwing copy at every position. Oracle: shadow state, live-object count, contents after an exception.", 12),
"C27": ("seq. Oracle: exact integer arithmetic in a wider type, component-wise recomputation, naive transforms.", 12),
"C28": ("seq with a stand-in for the entropy source and full enumeration of generator outputs at the boundaries. Oracle: reference Mersenne twister, exact ranges.", 10),
"C29": ("seq. Oracle: independent matcher generated from the RFC 3986 grammar.", 15),
"C30": ("seq. Oracle: independent decoder and markup parser.", 12),
"C31": ("seq. Oracle: reference reader/writer of the configuration syntax.", 5),
"C32": ("seq. Oracle: numeric definition.", 3),
"C33": ("seq on files in a scratch directory, with failing system calls. Oracle: file content kept as a string; /proc/self/maps and descriptor table for leaks.", 6),
"C34": ("seq, several time zones. Oracle: the C library's timegm/mktime on normalised fields and civil-date arithmetic.", 8),
"C35": ("seq; transaction blocks on a recording stub driver; the PostgreSQL and MySQL drivers' real sources on in-memory stand-ins for the client libraries (sessions, transactions, prepared statements), in which the k-th call fails or loses the connection, for every k. Oracle: the list of operations that returned normally determines what the server must hold; live client objects.", 20),
"C36": ("seq. Oracle: independent multipart/form/cookie writers, the request generator knows the pieces.", 12),
"C37": ("mc with in-memory TCP. Oracle: per-connection script of requests and expected answers; threads and descriptors at the end.", 30),
"C38": ("seq; typed calls on a stub driver, the drivers' real sources on the stand-ins of C35, which follow the client libraries' documented conversion and truncation rules. Oracle: the enumerated value itself, in the server's text form or bind buffer.", 15),
"C39": ("mc with in-memory TCP; MessagePack itself is a stand-in (h/standin/msgpack.hpp, the C++ interface of msgpack-c 0.5 that the code uses), with which the repository's own mprpc tests pass. Oracle: shadow execution counts and arguments per method; raw messages composed by the harness.", 20),
"C40": ("mc with in-memory TCP and failing calls, MessagePack stand-in as in C39. Oracle: listening ports, live threads and descriptors of the simulated kernel after every step.", 10),
"C41": ("seq; the FastCGI library is a stand-in (h/standin/fcgiapp.h) that hands out the requests of a history, spoils a request's environment when it is finished and counts calls out of order. Oracle: the same program executed on string streams by a fresh object; expected page text.", 7),
"C42": ("seq over enumerated programs: a compile-time list of types, each described and compared. Oracle: the description derived from the type by independent template rules.", 38),
"C44": ("mc: two threads make the calls at the same time, in a fresh process per execution. Accesses to memory shared by both threads (compiler-instrumented ones, and those the C library makes through memcpy, sprintf and the like), static initialisations and C-library functions with a static buffer (localtime, strtok, strerror ...) are scheduling points. Oracle: the answers the same calls give alone in a fresh process. Races without consequence are explored, not reported.", 31),
"C43": ("seq with the /proc files replaced (interposed open calls) by enumerated tables in a scratch directory. Oracle: the enumerated figures.", 4),
}
