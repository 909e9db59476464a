"""Single source of /verif/properties.jsonl (see tools/gen_meta.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


# ---------------------------------------------------------------- cache
prop("C01", "Cache lookups return the last store; eviction is oldest-first and minimal",
     """A cache lookup returns exactly the value most recently stored under that key, or nothing if the key was never
     stored, was erased or was evicted; erase reports whether the key was present.  Entries are evicted only while the
     total size exceeds the limit after a store, strictly in order of their last store (oldest first), and no more of
     them than needed.""",
     ["histories"], "every sequence of stores, both forms of lookup, and erases, from an empty or a pre-filled cache",
     "tests/cache stores a single key and asserts nothing; relinking on overwrite, erase in the middle and eviction order are never exercised.",
     ["coda/cache.hpp", "coda/cache.tcc"],
     [("set() relinks the entry to the tail", "coda/cache.tcc:set"), ("drop_last_unused() removes from the head", "coda/cache.tcc:drop_last_unused")],
     [("begp/endp and prev/next", "age list of the entries", "coda/cache.hpp")], ["get()", "erase()", "dbg()"])
prop("C02", "The cache never exceeds its configured size",
     """After every operation the estimated sizes of the entries still held by the cache add up to at most the configured
     limit, also when an existing entry is overwritten by a bigger value or a single value is bigger than the limit.  The entry
     count and total size the cache reports always equal the number and the summed sizes of the entries it really holds,
     and the size estimate of a string or vector is its object size plus its allocated capacity.""",
     ["histories"], "every sequence of stores (with growing and shrinking values), lookups and erases",
     "The cache test never comes near the size limit and never overwrites an entry.",
     ["coda/cache.hpp", "coda/cache.tcc", "coda/estimate_capacity.hpp"],
     [("size_cur bookkeeping", "coda/cache.tcc:set, erase, drop_last_unused")],
     [("size_cur", "sum of the sizes of the held entries", "coda/cache.hpp")], ["get()", "dbg()"])
prop("C03", "Cache entries expire exactly by age",
     """With a lifetime of T>0 seconds no lookup ever returns an entry that is more than T seconds old, every lookup returns one
     that is not, and an expired entry met by a lookup is gone for good; with T=0 entries never expire.  The age of an entry counts from its
     first store, and a later store restarts it only when the caller asks for that.""",
     ["histories"], "every interleaving of clock advances with stores (updating the time or not), both lookups and erases",
     "The test sleeps in real time, tries one entry and checks no result.",
     ["coda/cache.hpp", "coda/cache.tcc"],
     [("age comparison in both get() forms", "coda/cache.tcc:get"), ("do_update_time", "coda/cache.tcc:set")],
     [("elem_t::time", "creation time of the entry", "coda/cache.hpp")], ["get()", "dbg()"])

# ---------------------------------------------------------------- string storage
prop("C04", "String storage keeps one private, stable slot per distinct string",
     """Adding a string returns its user-data slot: adding an equal string again returns the same slot, different strings have
     different slots that do not overlap, a new slot starts zero-filled, and later additions never move a slot or disturb what the user
     wrote there.  A string that cannot fit in a storage block together with its user data is refused, and no addition
     ever touches memory outside the storage.""",
     ["histories", "inputs"], "every order of additions of strings sharing prefixes of every length, every user-data size, across array and block growth",
     "The one test adds three short strings and checks nothing.",
     ["coda/stringstorage.c", "coda/stringstorage.h"],
     [("prefix tree search and insert", "coda/stringstorage.c:internal_find_add"), ("array growth 2/16/+16", "coda/stringstorage.c:allocate_reallocate_array")],
     [("children", "sorted by (shared prefix length, remainder)", "coda/stringstorage.h"), ("blocks", "4096-byte blocks holding the strings and slots", "coda/stringstorage.h")],
     ["string_storage_add()"])
prop("C05", "String storage enumeration reports every string exactly once",
     """Enumerating a string storage calls back exactly once for each distinct string that was added, passing the complete
     original string together with that string's own slot, whatever the order of the additions, the prefixes shared and
     the lengths of the strings.""",
     ["histories", "inputs"], "every order of additions, all prefix-sharing patterns, lengths up to the block size",
     "The test prints three strings; deeper sharing levels and long strings are never produced.",
     ["coda/stringstorage.c"],
     [("prefix reconstruction from the parent", "coda/stringstorage.c:string_storage_enumerate_recursive")], [],
     ["string_storage_enumerate()"])

# ---------------------------------------------------------------- synque
prop("C06", "Thread queue delivers every element exactly once, in order",
     """Every element added to the thread queue is handed to exactly one consumer, whole, and in the order of addition; elements are neither
     lost, duplicated nor reordered, whichever mix of single and batched removal the consumers use.  A batched removal
     appends to the output, takes no more than the requested maximum and takes as many as are available up to it (all when the maximum is not
     positive); the reported size is the number of elements not yet removed.""",
     ["schedules"], "every interleaving (up to the stated preemption bound) of producers and consumers",
     "The queue has no test at all, and thread schedules cannot be enumerated by running tests.",
     ["coda/synque.hpp"], [("one mutex around the deque", "coda/synque.hpp:add, get, size")],
     [("d", "the pending elements", "coda/synque.hpp")], ["add()", "get()", "size()"])
prop("C07", "Thread queue: waiting consumers are woken and never stuck",
     """A consumer that is willing to wait on an empty thread queue sleeps until an element is added or the queue is signalled, and once
     enough elements or signals have been issued no consumer stays blocked while an element is available to it.  A
     consumer not willing to wait returns at once with "empty" on an empty queue and with an element otherwise; no call ever leaves the queue locked (copying an element is assumed not to throw).""",
     ["schedules"], "every interleaving of waiters, producers and signallers, including spurious wake-ups of the condition variable",
     "Lost wake-ups and missing unlocks on rare paths need particular schedules.",
     ["coda/synque.hpp"], [("condition variable signalled under the mutex", "coda/synque.hpp:add, signal"), ("early-return unlocks", "coda/synque.hpp:get")],
     [("c, m", "condition variable and mutex", "coda/synque.hpp")], ["get()", "signal()"])

# ---------------------------------------------------------------- shm hash map
prop("C08", "Shared-memory map behaves as a bounded map for every operation sequence",
     """For every sequence of inserts, batch inserts, reads, erases, batch erases and clears, the shared-memory map answers as a map of at most N
     entries would: insert overwrites an existing key and fails only for a new key when N entries are present, erase succeeds exactly for present keys, and a
     batch succeeds when all its items do.  Iteration visits every entry exactly once, the size is the number of
     entries, space freed by erase or clear can always be used again, and every process attached to the map sees the same contents.""",
     ["histories"], "every operation sequence up to a depth, with colliding keys, through one or two attachments",
     "The map is header-only and no test includes it.",
     ["coda/shm_hash_map.hpp", "coda/shm_hash_map.tcc", "coda/shm_pool.tcc", "coda/shm_stack.tcc"],
     [("bucket chains", "coda/shm_hash_map.tcc:unprotected_*"), ("free-list of nodes", "coda/shm_pool.tcc, coda/shm_stack.tcc")],
     [("hash/objects/next", "bucket heads and chains", "coda/shm_hash_map.hpp"), ("free_nodes/current", "node allocator", "coda/shm_pool.hpp")],
     ["insert()", "read()", "erase()", "clear()", "size()", "begin()/end()"])
prop("C09", "Shared-memory map operations are atomic across processes",
     """Concurrent operations of several processes on one shared-memory map behave as if executed one at a time in some order
     consistent with their real-time order: no reader sees a half-written value or a half-linked entry, no update is lost, batches and clear appear as one step, and no operation
     sequence deadlocks.  Readers may overlap each other but never a writer.""",
     ["schedules"], "every interleaving (memory-access granularity, bounded preemptions) of 2-3 processes with 1-2 operations each",
     "No test uses the map, and the failing schedules are windows of a few instructions.",
     ["coda/shm_hash_map.tcc"], [("reader/writer lock made of two semaphores", "coda/shm_hash_map.tcc:lock_*_rw")],
     [("semaphore R", "active readers", "coda/shm_hash_map.tcc"), ("semaphore W", "active writer", "coda/shm_hash_map.tcc")],
     ["read()", "insert()", "erase()", "clear()", "size()"])
prop("C10", "Processes can attach to and detach from a shared map in any order",
     """Whatever the order and overlap in which processes connect to the same shared-memory map, including the very first ones that create it, all of them end up on
     one consistent map, no data stored by an already connected process is lost and nobody is left blocked.  A connect that is refused
     (incompatible map, missing file, failing or interrupted system call) raises an error, leaves the map usable by the others, and the same object can connect successfully afterwards; disconnect
     really detaches the shared memory.""",
     ["schedules", "fault_sequences"], "every interleaving of concurrent connects, every failing call during connect, every connect/disconnect sequence",
     "Initialisation races and refused connects are not exercised by any test.",
     ["coda/shm_hash_map.tcc", "coda/shm_pool.tcc", "coda/shm_stack.tcc"],
     [("semaphore creation", "coda/shm_hash_map.tcc:connect_sem"), ("first-one-initialises header check", "coda/shm_hash_map.tcc:attach"), ("disconnect", "coda/shm_hash_map.tcc:disconnect")],
     [("sem_id/shm_id/shmem_p", "the attachment", "coda/shm_hash_map.hpp")], ["connect()", "disconnect()", "is_connected()"])
prop("C11", "Death of a process never wedges or corrupts a shared map",
     """If a process using the shared-memory map is killed at any instant, the other processes are not blocked by it, every key that the interrupted
     operation was not working on keeps its value, and the map keeps answering as a map (no entry under a wrong key, no endless chain, no
     slot used twice).  At most, the key being written is left with its old, new or partial value or absent, and one slot of capacity is lost; a killed clear
     may have removed some of the entries, and the space it was freeing is there again after the next clear.""",
     ["crash_points", "histories"], "a kill at every shared-memory access and system call of every operation, in every reachable small map, followed by operations of a survivor",
     "A kill inside a critical section cannot be provoked by tests.",
     ["coda/shm_hash_map.tcc", "coda/shm_pool.tcc", "coda/shm_stack.tcc"],
     [("SEM_UNDO on every semaphore operation", "coda/shm_hash_map.tcc:lock_*"), ("write-before-publish order of stores", "coda/shm_hash_map.tcc:unprotected_*, coda/shm_stack.tcc:push")],
     [], ["survivor's read()/insert()/erase()/iteration"])

# ---------------------------------------------------------------- shm queue
prop("C12", "Shared-memory queue delivers every flushed box exactly once, in order",
     """Every record put and flushed into the shared-memory queue is received exactly once, unmodified and in the order of the flushes, by whichever connected reader takes
     it, across wrap-around of the ring and with any number of writers and readers; only a box flushed while the ring already holds size-1
     boxes (or 32767, to which its semaphore counts) is dropped, as a whole.  An object that is only put through or only taken through is meant, and a box that is being taken counts until it is removed from the ring.  The reported number of queued boxes is the number of boxes not yet taken, and a
     reader that finds the queue empty waits at most its timeout.""",
     ["schedules", "histories"], "every operation sequence up to a depth on small rings and every bounded-preemption interleaving of writers and readers",
     "The queue is header-only and untested.",
     ["coda/shm_queue.hpp", "coda/shm_queue.tcc"],
     [("ring indices under the lock semaphore", "coda/shm_queue.tcc:flush, unflush"), ("counting semaphore", "coda/shm_queue.tcc:flush, unflush")],
     [("info->start/end", "ring positions", "coda/shm_queue.hpp"), ("current_box", "private staging box", "coda/shm_queue.hpp")],
     ["put()", "flush()", "unflush()", "get()", "boxes_in_queue()"])
prop("C13", "Processes attach to a shared queue in any order; refused connects harm nobody",
     """Whatever the order and overlap in which processes connect to the same shared-memory queue, mutual exclusion holds afterwards, nothing flushed by a
     connected process is lost and nobody is left blocked.  A refused connect (different geometry, missing file, failing system call) raises an
     error without crashing, leaves the queue unlocked for the others, and the same object can connect afterwards; a signal that interrupts a blocked
     operation never breaks the queue's mutual exclusion, and the shared registers keep the last value set.""",
     ["schedules", "fault_sequences"], "every interleaving of concurrent connects, every failing or interrupted call, every connect/disconnect sequence",
     "Initialisation races, refused connects and EINTR are not exercised by any test.",
     ["coda/shm_queue.tcc"],
     [("semaphore creation", "coda/shm_queue.tcc:connect_sem"), ("geometry check", "coda/shm_queue.tcc:connect_shm"), ("lock_queue/unlock_queue", "coda/shm_queue.tcc")],
     [], ["connect()", "disconnect()", "set_register()/get_register()"])
prop("C14", "Death of a process never wedges or corrupts a shared queue",
     """If a process connected to the shared-memory queue is killed at any instant, the other processes are not blocked by it and keep
     exchanging boxes: nothing is received twice, modified or out of order.  At most one box per killed process is lost, or stays queued until one more box is flushed (a process killed while it
     creates the semaphore set, before it has initialised it, is not meant).""",
     ["crash_points", "histories"], "a kill at every shared-memory access and system call of flush/unflush, followed by operations of the survivors",
     "A kill inside a critical section cannot be provoked by tests.",
     ["coda/shm_queue.tcc"], [("SEM_UNDO on the lock semaphore", "coda/shm_queue.tcc:lock_queue"), ("publish by advancing the index last", "coda/shm_queue.tcc:flush")],
     [], ["survivor's flush()/unflush()/get()"])

# ---------------------------------------------------------------- codecs
prop("C15", "Base58 encodes and decodes exactly",
     """Base58 encoding yields the standard (Bitcoin alphabet) representation with one leading '1' per leading zero byte, and decoding an encoding returns the
     original bytes, for every byte string.  Decoding accepts exactly the strings made of the 58 alphabet characters; any other
     character anywhere makes it fail with a negative result that encodes the position of the first bad character (-1 for the first one).  The allocating forms return the true length, and
     no call reads outside its input or writes outside its output buffer.""",
     ["inputs"], "all short byte strings and texts, long structured ones, every output size",
     "The tests cover 14 round trips and no invalid text, no truncated buffer and no returned length.",
     ["coda/base58.c", "coda/base58.h"], [("radix conversion in an oversized scratch buffer", "coda/base58.c")], [], ["coda_base58_*"])
prop("C16", "Base64 and its URL-safe variant encode and decode exactly",
     """Base64 encoding yields the standard padded form (the URL-safe variant uses '-', '_' and '.' for '+', '/' and '='), and decoding an encoding returns the original bytes, for
     every byte string.  Decoding accepts exactly complete groups of four alphabet characters with padding only at the very end, reports anything else as invalid, and delivers the bytes decoded before the first error.  With
     a short output buffer both directions deliver the longest prefix that fits, report the delivered length, and never touch memory outside the buffers given.""",
     ["inputs"], "all byte triples, all short texts over character classes, every output size",
     "Neither codec has a test.",
     ["coda/base64.c", "coda/base64.h", "coda/web64.c", "coda/web64.h"], [("group-of-four state machine", "coda/base64.c, coda/web64.c")], [], ["coda_base64_*", "web64_*"])
prop("C17", "Percent-encoding round-trips every byte string",
     """Percent-encoding any byte string (with or without '+' for space) yields only unreserved URL characters and %XX escapes, and decoding it
     returns the original bytes.  Decoding maps every %XX escape with hexadecimal digits of either case to its byte and '+' to space,
     copies everything else including a truncated escape at the end, and never reads past its input; the buffer and string forms of each function agree, and the buffer forms terminate their output and report its length.""",
     ["inputs"], "all byte strings up to length 2, all short strings over character classes",
     "No test calls these functions.",
     ["coda/url.cpp", "coda/url.hpp"], [("escape table and hex table", "coda/url.cpp:table_urlenc, table_urldec")], [], ["coda_urlenc*", "coda_urldec*"])
prop("C18", "URL escaping into a fixed buffer is exact and never overruns it",
     """Escaping and unescaping a C string into a caller's fixed-size buffer never writes outside the buffer and always terminates the result, for every
     input and every buffer size (a buffer of no bytes is not touched).  When the result fits (with 8 bytes to spare), escaping is undone by unescaping for every byte string; unescaping decodes '+', %XX, \\xXX and four-digit %uXXXX escapes below U+0800 to UTF-8; the pre-unescaping form decodes only escapes of bytes above
     0x7F and leaves every other escape and character as it was.  A result that does not fit is cut after a whole escape.""",
     ["inputs"], "all short strings over the characters that matter to the grammar, every small buffer size",
     "No test calls these functions.",
     ["coda/url.cpp"], [("capacity checks in the loops", "coda/url.cpp:coda_url_escape, coda_url_unescape, coda_url_preunescape")], [], ["coda_url_*"])
prop("C19", "Query strings and header blocks are split into exactly their pairs",
     """Parsing a query string yields exactly the pairs of its '&'-separated items that contain '=' (key up to the first '=', the rest as value, a later duplicate wins), and
     parsing a header block yields exactly the pairs of its CRLF-terminated lines that contain ':' up to the first empty line.  Existing entries of the
     result with other keys are kept, a null input is refused, and no byte outside the given length is read or influences the result.""",
     ["inputs"], "all short strings over the delimiter alphabet, every cut of a longer buffer",
     "No test calls these functions.",
     ["coda/url.cpp"], [("bounded searches for delimiters", "coda/url.cpp:coda_get_params_buf, coda_get_header_buf")], [], ["coda_get_params*", "coda_get_header*"])
prop("C20", "URL normalisation is canonical and memory-safe",
     """An absolute URL is normalised to scheme (http:// added when missing), lower-case host without leading or trailing dots, a path starting with '/' without
     empty, '.' or '..' segments and never above the root, and the unchanged query string; the fragment is dropped, a trailing slash of a non-root path is dropped unless the fetchable form is asked for, and
     the reported domain is the last two labels of the host.  Normalising a normalised URL changes nothing, reported lengths match the strings, and no memory outside the input and the object's own buffers
     is ever touched.""",
     ["inputs"], "all strings over the structural alphabet up to a length, with and without a scheme, in both flag modes",
     "The url_parser program is built but has no inputs or expected outputs.",
     ["coda/url_parser.cpp", "coda/url_parser.hpp", "coda/string.c"],
     [("host clean-up", "coda/url_parser.cpp:assign_anchor"), ("in-place dot-segment removal", "coda/url_parser.cpp:assign_refers")],
     [("val_str/dom_str", "one buffer holding URL and domain", "coda/url_parser.hpp")], ["create_absolute()", "get_url()", "get_domain()"])
prop("C21", "Relative URL resolution and URL object copies are correct",
     """A reference is resolved against a parent URL as follows: with a scheme it stands alone, a leading '/' replaces path and query, anything else replaces the part after the last
     slash of the parent's path; the result is normalised and keeps the parent's scheme, host and domain.  mailto:, javascript: and pure-fragment references, empty input, an empty parent, an already filled target, and, on request, references to another domain are
     refused leaving an empty object.  Copies and assignments, including self-assignment, yield independent equal objects.""",
     ["inputs", "histories"], "all references over the structural alphabet up to a length against a family of parents; all short sequences of create/copy/assign on three objects",
     "The url_parser program is built but has no inputs or expected outputs.",
     ["coda/url_parser.cpp"], [("base path computation", "coda/url_parser.cpp:create_suburl"), ("copy/assign/reset", "coda/url_parser.cpp")], [], ["create_relative()", "operator="])

# ---------------------------------------------------------------- text helpers
prop("C22", "Bounded string searches find exactly the first match and stay in bounds",
     """Each character, substring and span search returns exactly what its definition says (first occurrence, last occurrence for the reverse forms, length of the leading or trailing run of characters in or not in the
     set; the ignoring-case forms compare ASCII letters case-insensitively; an empty pattern is found at the start of any non-empty text, nothing is found in an empty text), for every text, pattern and length.  No function reads a byte outside the first len bytes of its text.""",
     ["inputs"], "all short texts, patterns and sets over a small alphabet with both cases, every len, exact buffers and texts inside longer ones",
     "No test calls these functions.",
     ["coda/string.c", "coda/string.h"], [("pointer loops bounded by s+len", "coda/string.c")], [], ["coda_str*", "coda_rev*"])
prop("C23", "String formatting, splitting and number parsing are exact",
     """Formatted printing and appending produce exactly the printf result, of any length, and the limited forms produce exactly its first num characters, insert at the requested position (or refuse one
     beyond the end) and return the number of characters added.  Splitting a text yields exactly the maximal delimiter-free pieces in order (empty ones kept on request), the
     comma-separated set parsers yield exactly the listed items (every piece between commas, or its leading decimal number) and never invent one, words are cut at blanks, and the bounded integer parsers return the number written or 0 for malformed text.""",
     ["inputs"], "all short texts over digits/delimiters, all lengths around the internal buffer size",
     "No test calls these functions.",
     ["coda/string.cpp", "coda/string.h", "coda/easy_parsing.cpp"], [("two-pass vsnprintf", "coda/string.cpp"), ("delimiter scan", "coda/string.cpp:coda_split_string")], [], ["coda_str*append/printf", "coda_split_string", "coda_get_*set", "coda_atoi/atou"])
prop("C24", "XML documents are bound to members exactly, however they are delivered",
     """Loading a well-formed XML document sets every bound member to the text of its element or the value of its attribute, appends one item per repeated element to list and vector members in document order
     (at any nesting), and ignores unknown names; numeric and boolean members get the converted text.  The result does not depend on how the document is cut into pieces or on whether it
     comes from a string or a file of any size, and a malformed or unreadable document raises an error
     (which names the file it comes from) and never crashes.""",
     ["inputs", "programs"], "all documents of a small grammar, every cut into two or three pieces, every truncation, file sizes around the read buffer",
     "The txml test parses one document and checks one vector length.",
     ["coda/txml.cpp", "coda/txml.hpp"], [("level stack and determineMember", "coda/txml.hpp"), ("expat callbacks", "coda/txml.cpp")],
     [("levels/det_iter/pushed", "path to the current element", "coda/txml.hpp")], ["load_from_string()", "load_from_file()"])
prop("C25", "Vietnamese tone removal maps exactly the Vietnamese letters",
     """Removing tones maps every accented Vietnamese letter to its plain base letter of the same case (both D with stroke and eth to D/d), removes combining diacritical
     marks, and copies every other character of valid UTF-8 unchanged, independently of its neighbours.  Any byte string, also malformed or cut in the middle of a character, is processed without reading outside it and
     a cut last character is copied unchanged.""",
     ["inputs"], "every Unicode scalar value, all pairs of representative characters, every truncation, all short byte strings over byte classes",
     "No test calls this function.",
     ["coda/vietnam.cpp"], [("UTF-8 decoding and case table", "coda/vietnam.cpp")], [], ["coda_remove_tones_utf8()"])

# ---------------------------------------------------------------- system
prop("C26", "The pid file admits one process and daemon start-up is all-or-nothing",
     """Of any number of processes that start concurrently with the same pid file at most one succeeds, on every interleaving of their steps, the file then holds exactly that process's id followed by a newline, and a start while
     the file is non-empty fails without changing it.  When a step fails (open, lock, stat, write), creation reports failure and leaks no descriptor; after the owner removes the file a new
     process can start.""",
     ["schedules", "fault_sequences"], "every interleaving of the system calls of 2-3 starting/stopping processes, every single and double call failure",
     "No test touches pid files; the race windows lie between system calls.",
     ["coda/system.c", "coda/daemon.c"], [("flock + size check", "coda/system.c:coda_mkpidf"), ("coda_daemon_load/stop", "coda/daemon.c")], [], ["coda_mkpidf()", "coda_daemon_load()", "coda_daemon_stop()"])
prop("C27", "File helpers report failures and leak nothing",
     """Opening a file onto a descriptor, moving descriptors, creating parent directories, mapping files and seeding the random generator do exactly what they say when every
     system call succeeds: the target descriptor refers to the file, all parent directories exist, the mapped bytes are the file's bytes, and the caller's path is unchanged.  When any system call fails they report failure, leave no
     extra open descriptor, and do not disturb the target descriptor unless the final replacement itself happened.""",
     ["fault_sequences", "inputs"], "every system call of every helper failing once or twice with each relevant error, for every small configuration of descriptors, paths and sizes",
     "No test calls these functions and tests cannot make system calls fail.",
     ["coda/system.c", "coda/random.c", "coda/string.cpp"], [("close on error paths", "coda/system.c, coda/random.c")], [], ["coda_fdopen()", "coda_fdmove()", "coda_mkpath()", "coda_mmap()", "coda_random_init()"])
prop("C28", "The logger writes exactly the enabled messages to the current log file",
     """A message is written, as one line with timestamp, level and thread name (or id), exactly when its level is at most the current level, to the standard error stream or, once a log file
     has been set, to the end of that file; setting a log file works for any path (creating missing directories), and a failed change leaves the previous log and level
     in force.  Rotating to a new file sends every later line to the new file and loses or splits none, level names select their level case-insensitively, and each thread's name affects only its own lines.""",
     ["histories", "fault_sequences"], "every sequence of level changes, log file changes, rotations, names and messages up to a depth, with every call failing",
     "No test calls the logger.",
     ["coda/logger.c", "coda/logger.h", "coda/system.c"], [("level test in log_fmt", "coda/logger.h"), ("dup2 of the new file over stderr", "coda/logger.c:log_create")], [("log_level", "current level", "coda/logger.c")], ["log_create()", "log_*()", "log_levels()"])
prop("C29", "Signals set exactly their flag and mask exactly their signal",
     """After the signal set-up (restarting or not) every sequence of handled signals leaves the process alive and raises exactly the documented flags: terminate for INT and TERM, change-config for HUP,
     rotate-log for USR1, change-binary for USR2, none for the ignored ones.  Masking a set of signals blocks or unblocks exactly the listed ones: a blocked signal has no
     effect until it is unblocked; the non-restarting set-up makes a blocked read fail with EINTR and the restarting one does not.  A handled signal may arrive at any instruction: the
     interrupted operation completes with its result and errno unchanged and the flag is raised.""",
     ["histories", "configurations"], "every sequence of signals up to a depth, both set-ups, every mask of one or two signals, one signal at every instruction of a set of operations",
     "No test raises a signal.",
     ["coda/daemon.c", "coda/daemon.h"], [("CODA_SIG_LIST table", "coda/daemon.c")], [("coda_terminate/changecfg/rotatelog/changebin", "flags polled by the program", "coda/daemon.h")], ["coda_signal_init*", "coda_signal_mask"])
prop("C30", "Socket helpers parse, configure and fail cleanly",
     """Address parsing accepts exactly four decimal octets of 0..255 separated by dots and yields that address, without reading past the given length.  Listening, connecting and
     accepting return a working descriptor in the requested blocking mode, or fail without leaking one when any underlying call fails; receiving retries interrupted calls and reports every other result unchanged, and a receive timeout of any number
     of microseconds takes effect as given.""",
     ["inputs", "fault_sequences"], "all short texts over digits/dots/other, every call failing, every run of interruptions",
     "socket.h is included by no test.",
     ["coda/socket.h"], [("octet automaton", "coda/socket.h:coda_inet_addr"), ("close on error", "coda/socket.h:coda_listen, coda_accept, coda_connect")], [], ["coda_inet_addr()", "coda_listen()", "coda_accept()", "coda_connect()", "coda_unix_recv()"])
prop("C31", "Calendar conversion is exact for every day",
     """Converting a non-negative time stamp yields the exact UTC second, minute, hour, day of month, month (1-12), full year and
     weekday of the Gregorian calendar, for every day from 1970 through year 9999 and every second of a day.  A logarithmic bucket array counts a value v>=1 in bucket floor(log2 v), or in the last bucket when that does not exist,
     and swapping two arrays exchanges all their buckets.  A pause of n milliseconds asks the system for exactly n milliseconds.""",
     ["inputs"], "every day of 1970..9999 with boundary seconds, every second of boundary days, every power of two and its neighbours",
     "No test calls these functions.",
     ["coda/gmtime.h", "coda/log_array.hpp"], [("Gauss' formula", "coda/gmtime.h"), ("shift loop", "coda/log_array.hpp:get_by_value")], [], ["coda_gmtime()", "log_array::get_by_value()"])
prop("C32", "Command-line options are parsed exactly",
     """Parsing the command line accepts the documented options wherever they stand among other arguments: short options also joined, long options also by unambiguous prefixes, values attached or as the next argument,
     nothing after "--".  The last configuration and pid file given win, the last of --daemon and --no-daemon decides, what is not given is reported as not given whatever the structure held before; an unknown, ambiguous or
     incomplete option makes it fail, and the arguments themselves are not modified.""",
     ["inputs"], "every list of arguments up to a length over all argument forms",
     "No test calls the option parser.",
     ["coda/daemon.c", "coda/daemon.h"], [("option table and option string kept in step", "coda/daemon.c:coda_getopt_opts, CODA_GETOPT_OPTS")], [], ["coda_getopt_parse()", "coda_getopt_usage()"])
prop("C33", "Shared pool and stack hand out each slot exactly once",
     """A shared pool of N objects hands out N different indices below N, then -1; an index is handed out again only after it was freed or the pool was cleared, through whichever attachment, and the number of allocated objects is exact.  A shared stack of N
     elements returns the elements last in, first out, and refuses the (N+1)th.  Attaching again finds everything unchanged, attaching with another geometry raises an error and changes nothing, and no operation touches memory outside the advertised sizes.""",
     ["histories"], "every operation sequence up to a depth through two attachments",
     "The templates are header-only and no test includes them.",
     ["coda/shm_pool.hpp", "coda/shm_pool.tcc", "coda/shm_stack.hpp", "coda/shm_stack.tcc"], [("fresh index or free stack", "coda/shm_pool.tcc:allocate")], [("current", "first never-used index", "coda/shm_pool.tcc"), ("free_nodes", "freed indices", "coda/shm_pool.tcc")], ["allocate()", "free()", "push()", "pop()"])
prop("C34", "Words and error messages are exact",
     """Walking a text word by word yields exactly its maximal runs of characters other than space, tab, newline and carriage return, in order, and then reports the end.  An error object carries exactly its formatted message, cut to the documented size and always ended, however it is thrown, copied or assigned;
     the text of an error number is that of the C library, in C and in C++, and never overruns the buffer.""",
     ["inputs"], "every short text over white space and other bytes, every message length around the limits, every error number",
     "No test uses them.",
     ["coda/easy_parsing.cpp", "coda/error.h", "coda/error.hpp"], [("vsnprintf into the fixed buffer", "coda/error.hpp:coda_error"), ("both variants of strerror_r", "coda/error.h")], [], ["get_next_word()", "coda_error::what()", "coda_strerror()"])
prop("C35", "Threads working on their own data never influence each other",
     """The library's calls on distinct data may be made from several threads at once: encoders and decoders, URL and query handling, string searching, formatting and splitting, XML documents, tone removal, the calendar, address and socket
     helpers, string storages, caches, pools, queues, file and pid file helpers, error objects and log messages.  Wherever the threads switch, each call gives the result and the effect that it has when no other thread runs.  (Command-line parsing, which is done once at start, is excluded.)""",
     ["schedules"], "every pair of calls, the second one in another thread at every load, store, function entry and exit of the first one; every pair of switches for a call against itself",
     "The tests have one thread.  A buffer or an object made static passes every test.",
     ["coda/base58.c", "coda/base64.c", "coda/web64.c", "coda/string.cpp", "coda/string.h", "coda/url.cpp", "coda/url_parser.cpp", "coda/txml.cpp", "coda/vietnam.cpp", "coda/gmtime.h", "coda/logger.h", "coda/error.h", "coda/error.hpp", "coda/socket.h", "coda/system.c", "coda/stringstorage.c", "coda/cache.hpp", "coda/daemon.c"],
     [("buffers on the stack or in the caller's object", "coda/string.cpp:coda_strprintf"), ("reentrant variants (localtime_r, strerror_r)", "coda/logger.h, coda/error.h")], [("thread name", "per thread", "coda/logger.h")], ["all functions except coda_getopt_*"])
prop("C36", "Nothing is leaked",
     """A finished call and a destroyed or freed object give back everything they took: memory, descriptors and mappings.  This holds for every input, valid or malformed, for every operation sequence on storages, caches, queues, URL
     objects and documents, and when any system call fails on the way; repeating a call does not make the process grow.""",
     ["inputs", "fault_sequences", "histories"], "every short text and damaged document, every operation sequence up to a depth, every single and double failing system call",
     "The tests look at results only, and never at what stays allocated.",
     ["coda/stringstorage.c", "coda/url_parser.cpp", "coda/txml.cpp", "coda/base58.c", "coda/base64.c", "coda/cache.hpp", "coda/cache.tcc", "coda/synque.hpp", "coda/system.c", "coda/logger.c", "coda/string.cpp"],
     [("string_storage_free", "coda/stringstorage.c"), ("reset(), destructor, assignment", "coda/url_parser.cpp"), ("close on error", "coda/txml.cpp:load_from_file, coda/system.c")], [], ["live memory and open descriptors of the process"])
prop("C37", "A failed allocation is reported and nothing is lost",
     """When memory runs out in the middle of a call, the call reports it in its documented way (a NULL or negative result, or std::bad_alloc) or still gives the right result.  Whatever a string storage, cache, queue or URL object held before is still there
     and consistent, no element is lost or doubled, no lock stays taken, a failed store is never visible as another value, nothing is leaked, and the same call succeeds once memory is available again.""",
     ["fault_sequences", "histories"], "every single failing allocation, and every point from which all allocations fail, of every operation after every operation sequence up to a depth",
     "No test lets an allocation fail.",
     ["coda/stringstorage.c", "coda/cache.tcc", "coda/synque.hpp", "coda/url_parser.cpp", "coda/base58.c", "coda/base64.c", "coda/string.cpp", "coda/logger.c"],
     [("NULL checks of allocate_reallocate_array and calloc", "coda/stringstorage.c"), ("order of insertion and relinking", "coda/cache.tcc:set"), ("lock and unlock around deque operations", "coda/synque.hpp")], [], ["string_storage_add()", "coda_cache::set()", "synque::add(), get()", "coda_url::create_*", "coda_base58_*_alloc, coda_base64_*_alloc"])
