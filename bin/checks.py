"""Tables of the harnesses and checks (read by bin/check.py and tools/gen_meta.py)."""

import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]

NOFORT = ["-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"]
# keep each load and store of the source: nothing is forwarded from a store to a later load
NOFWD = ["-fno-tree-fre", "-fno-tree-pre", "-fno-tree-dominator-opts", "-fno-tree-dse", "-fno-tree-sink", "-fno-gcse", "-fno-tree-loop-im"]

HARNESS = {
    "cache": {"src": ["harness/cache.cpp"], "cflags": ASAN},
    "sstorage": {"src": ["harness/sstorage.cpp"], "cflags": ASAN},
    "url": {"src": ["harness/url.cpp"], "cflags": ASAN},
    "urlparser": {"src": ["harness/urlparser.cpp"], "cflags": ASAN},
    "strings": {"src": ["harness/strings.cpp"], "cflags": ASAN},
    "textcal": {"src": ["harness/textcal.cpp"], "cflags": ASAN + ["-I" + ROOT + "/harness"]},
    "txml": {"src": ["harness/txml.cpp"], "cflags": ASAN},
    "sysfile": {"src": ["harness/sysfile.cpp"], "cflags": ASAN + NOFORT},
    "logger": {"src": ["harness/logger.cpp"], "cflags": ASAN + NOFORT},
    "signals": {"src": ["harness/signals.cpp"], "cflags": ASAN + NOFORT},
    "sigstep": {"src": ["harness/sigstep.cpp"], "cflags": NOFORT},
    "socket": {"src": ["harness/socket.cpp"], "cflags": ASAN + NOFORT},
    "synque": {"src": ["harness/synque.cpp"], "plain": ["lib/tsan_rt.cpp"], "cflags": NOFORT, "hflags": ["-fsanitize=thread"], "lib": False},
    "shmmap": {"src": ["harness/shmmap.cpp"], "plain": ["lib/tsan_rt.cpp"], "cflags": NOFORT, "hflags": ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"], "lib": False},
    "shmqueue": {"src": ["harness/shmqueue.cpp"], "plain": ["lib/tsan_rt.cpp"], "cflags": NOFORT, "hflags": ["-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"], "lib": False},
    "ipcconf": {"src": ["harness/ipcconf.cpp"], "cflags": NOFORT, "lib": False},
    "pidfile": {"src": ["harness/pidfile.cpp"], "cflags": NOFORT},
    "misc": {"src": ["harness/misc.cpp", "harness/misc_c.c"], "cflags": ASAN},
    "threads": {"src": ["harness/threads_ops.cpp"], "plain": ["harness/threads.cpp", "lib/tsan_rt.cpp"], "cflags": NOFORT, "hflags": ["-fsanitize=thread"] + NOFWD, "libflags": ["-fsanitize=thread"] + NOFWD},
    "resources": {"src": ["harness/resources.cpp", "harness/threads_ops.cpp"], "cflags": ASAN + NOFORT, "ldflags": ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=XML_ParserCreate,--wrap=pthread_mutex_lock"]},
    "codecs": {"src": ["harness/codecs.cpp"], "cflags": ASAN},
}

FAULTS = "exhaustive enumeration of system call failures (up to two per execution) and configurations of the real code, each outcome checked against the kernel's state"
INPUTS = "exhaustive enumeration of a bounded input space on the real code against an independent reference implementation"
LOCK = "exhaustive bounded exploration of operation sequences on the real code in lockstep with a reference model"

SCHED = "stateless model checking of the real code under a controlled scheduler: every interleaving up to a preemption bound, at the granularity of single loads and stores"

CHECKS = {
    "C01": {"harness": ["cache"], "level": "model_checking", "technique": LOCK,
            "note": "Every sequence of operations up to the stated depth on the real template, from empty and pre-filled caches, compared "
                    "with a reference model at every step; nothing is claimed beyond the depth and alphabet."},
    "C02": {"harness": ["cache"], "level": "model_checking", "technique": LOCK,
            "note": "As C01, with values whose estimated size the harness chooses; also the size estimates of strings and vectors."},
    "C03": {"harness": ["cache"], "level": "model_checking", "technique": LOCK + " under a virtual clock",
            "note": "As C01 with a clock that the explorer advances between operations (time() is replaced)."},
    "C04": {"harness": ["sstorage"], "level": "model_checking", "technique": LOCK,
            "note": "Every sequence of up to 3-5 additions from families of strings that share prefixes of every relevant length, bulk growth and "
                    "block-edge families; slots compared with a std::map model; AddressSanitizer watches the blocks."},
    "C05": {"harness": ["sstorage"], "level": "model_checking", "technique": LOCK,
            "note": "As C04, the enumeration compared with the model after every sequence."},
    "C06": {"harness": ["synque"], "level": "model_checking", "technique": SCHED,
            "note": "Two threads of two operations and three of one (thorough: more preemptions) on the real template, every schedule with up to 2-3 preemptions at every lock operation, load and store; "
                    "linearizability against a simple queue; every operation sequence of one thread."},
    "C07": {"harness": ["synque"], "level": "model_checking", "technique": SCHED,
            "note": "As C06, with spurious wake-ups and every choice of the thread that a signal wakes; nobody sleeps while an element is there, and every addition or signal wakes a sleeper."},
    "C08": {"harness": ["shmmap"], "level": "model_checking", "technique": LOCK, "note": "Every operation sequence up to depth 5 (thorough 6) of 14 operations on four small geometries through one or two attachments in lockstep with a bounded map, all size/geometry families filled, erased and refilled; simulated SysV IPC (lib/simipc.hpp), shared memory of exactly the requested size."},
    "C09": {"harness": ["shmmap", "ipcconf"], "level": "model_checking", "technique": SCHED, "note": "Two and three processes (the real template, one object each, sharing a simulated segment) with one or two operations each, every schedule up to 1-4 (thorough 6) preemptions at each system call, load and store; histories checked for linearisability by enumerating the sequential orders. The simulation of semaphores and shared memory is compared with the kernel over every short sequence of operations of two processes (ipcconf). Assumes sequential consistency and the order of stores that the compiler emits at -O1."},
    "C10": {"harness": ["shmmap"], "level": "model_checking", "technique": SCHED, "note": "Two and three processes connecting (new, used and abandoned map), every schedule with up to 2-3 preemptions, every combination of up to two failing or interrupted calls, foreign geometry, every connect/disconnect sequence up to depth 5."},
    "C11": {"harness": ["shmmap", "ipcconf"], "level": "model_checking", "technique": SCHED, "note": "A kill at every system call, load and store of each operation, from every state reached by up to three operations, also twice and beside a working process; then the survivor's view is checked entry by entry and the map is filled, erased and refilled. SEM_UNDO semantics bound to the kernel by ipcconf."},
    "C12": {"harness": ["shmqueue", "ipcconf"], "level": "model_checking", "technique": SCHED, "note": "Every sequence of puts, flushes and takes up to depth 7-8 on rings of 2-4 boxes in lockstep with a bounded FIFO, wrap-around families, and every schedule of two or three processes with up to 1-2 (thorough 3) preemptions; simulated IPC bound to the kernel by ipcconf."},
    "C13": {"harness": ["shmqueue"], "level": "model_checking", "technique": SCHED, "note": "Two and three processes connecting in every schedule with up to 2-3 preemptions, then flushing together; up to three failing or interrupted calls; foreign geometries; every connect/disconnect sequence up to depth 5; mutual exclusion observed on the box contents."},
    "C14": {"harness": ["shmqueue", "ipcconf"], "level": "model_checking", "technique": SCHED, "note": "A kill at every system call, load and store of each operation, from every fill level and ring position, beside a working process and repeatedly; then the survivors exchange boxes. SEM_UNDO semantics bound to the kernel by ipcconf."},
    "C15": {"harness": ["codecs"], "level": "exploration", "technique": INPUTS,
            "rule": "Every input of the stated families is one case (no sampling); non-trivial: the input is not empty.",
            "note": "All byte strings up to length 2 (thorough 3), all texts up to length 2 (3), class alphabets and long structured inputs; "
                    "exact-size heap buffers under AddressSanitizer; reference: schoolbook long division."},
    "C16": {"harness": ["codecs"], "level": "exploration", "technique": INPUTS,
            "rule": "Every input of the stated families is one case (no sampling), each tried with every output size; non-trivial: the input is not empty.",
            "note": "All byte strings up to length 2 (thorough 3), all groups of four over 22 character classes, all texts up to length 8-10 over the "
                    "structural alphabet; exact-size heap buffers under AddressSanitizer; reference: bit accumulator."},
    "C17": {"harness": ["url"], "level": "exploration", "technique": INPUTS,
            "rule": "Every input of the stated families is one case; non-trivial: the input is not empty and its result is specified.",
            "note": "All byte strings up to length 2 (thorough 3), all escapes %XY over all byte pairs, class alphabets up to length 6-8; exact-size buffers under AddressSanitizer."},
    "C18": {"harness": ["url"], "level": "exploration", "technique": INPUTS,
            "rule": "Every (input, buffer size, function) of the stated families is one case; all are non-trivial.",
            "note": "All two-byte strings, class alphabets and escape-piece sequences against a tokenising reference, every small buffer size, exact-size buffers under AddressSanitizer."},
    "C19": {"harness": ["url"], "level": "exploration", "technique": INPUTS,
            "rule": "Every text of the stated families is one case, parsed into an empty and a filled map; non-trivial: it contains at least one pair.",
            "note": "All texts up to length 7-8 over the delimiter alphabets, also cut out of longer buffers; reference: std::string searches."},
    "C20": {"harness": ["urlparser"], "level": "exploration", "technique": INPUTS,
            "rule": "Every URL text of the stated families is one case, normalised in both forms and once more; non-trivial: not empty.",
            "note": "All texts up to length 5-6 over the structural alphabet, all paths up to length 9-11 over {/,.,a}, all segment lists up to 6-7; "
                    "exact-size input buffers under AddressSanitizer; reference: segment list.  The domain of a host with empty labels is not judged."},
    "C21": {"harness": ["urlparser"], "level": "exploration", "technique": INPUTS,
            "rule": "Every (reference, parent, flags) and every object history of the stated families is one case; non-trivial: the reference is accepted or a filled object is copied.",
            "note": "All references up to length 4-5 over the structural alphabet against 8 parents in both forms with all flags; all sequences of up to 4-5 create/assign/copy operations on three objects."},
    "C22": {"harness": ["strings"], "level": "exploration", "technique": INPUTS,
            "rule": "Every (text, all searched characters) or (text, pattern or set) of the stated families is one case; non-trivial: the text is not empty.",
            "note": "All texts up to length 4-11 over small alphabets with both cases, NUL and high bytes, all byte pairs, every position in texts up to 70; exact-size heap "
                    "buffers under AddressSanitizer and texts inside longer ones; reference: the definitions."},
    "C23": {"harness": ["strings"], "level": "exploration", "technique": INPUTS,
            "rule": "Every (format shape, length, limit, position) and every text of the stated families is one case; non-trivial: there is something to format or parse.",
            "note": "All lengths around the internal buffer size and powers of two in four format shapes, all limits and positions, all short texts over delimiters and digits, "
                    "all boundary numbers; exact-size buffers under AddressSanitizer."},
    "C24": {"harness": ["txml"], "level": "exploration", "technique": INPUTS,
            "rule": "Every (document, layout) is one case, tried with all its deliveries or damages; non-trivial: it has children.",
            "note": "All documents of up to 2-3 children out of 29 templates in three layouts, whole and in every two pieces (every three for one child), every truncation and one-character damage, "
                    "file sizes around multiples of the read buffer; expected members from the generator, well-formedness from expat itself.  Mixed content of a scalar member and proper prefixes of switch words are not judged."},
    "C25": {"harness": ["textcal"], "level": "exploration", "technique": INPUTS,
            "rule": "Every 256 code points, every sequence of characters, every cut and every byte string of the stated families is one case; non-trivial: not empty.",
            "note": "All 1.1 million Unicode scalar values, all sequences of up to 3-4 of 36 representatives, all pairs of Vietnamese letters, all cuts, all byte strings up to "
                    "length 5-6 over byte classes; exact-size buffers under AddressSanitizer; reference table generated from Unicode composition data.  The result for malformed text other than a cut last character is not judged."},
    "C26": {"harness": ["pidfile", "sysfile"], "level": "model_checking", "technique": "stateless model checking of the real code under a controlled scheduler: every interleaving of the system calls of the processes, and every single and double call failure",
            "note": "Two processes that start and stop in every interleaving of their system calls, also with one (thorough two) failing calls, three with up to 3-5 preemptions; "
                    "every single and double failure of a start, then a second start, a stop and a third one; detached starts in real processes.  A process is a coroutine with its own process id; flock works between open files."},
    "C27": {"harness": ["sysfile"], "level": "fault_enumeration", "technique": FAULTS,
            "rule": "Every (configuration, set of failing calls) is one case; non-trivial: at least one call fails, or the configuration creates something.",
            "note": "Every system call the helpers make (whatever they are) may fail, up to two per execution, with each relevant error; all descriptor/path/size configurations of the "
                    "stated families; the real kernel state (descriptor table, files, mappings) is the oracle; AddressSanitizer."},
    "C28": {"harness": ["logger"], "level": "model_checking", "technique": LOCK + "; every system call failing, another thread's message before every system call",
            "note": "Every sequence of 3-4 log operations in lockstep with a model of the log files, every single and double call failure during a change of the log file with another "
                    "thread's message at every system call, all level/threshold/name combinations, three real threads; virtual clock, exact lines.  The log_err family is not judged."},
    "C29": {"harness": ["signals", "sigstep"], "level": "model_checking", "technique": LOCK,
            "note": "Every sequence of up to 3-4 of the 21 handled signals after five set-ups, every mask of up to 2-3 signals in three operations, every sequence of 4-5 mask operations and signals, "
                    "every signal during a read that sleeps in the kernel; real signals; model: sets of blocked and pending signals."},
    "C30": {"harness": ["socket"], "level": "fault_enumeration", "technique": FAULTS + "; exhaustive enumeration of address texts",
            "rule": "Every address text, every (configuration, set of failing calls) and every sequence of receive results is one case; non-trivial: the text is an address, or at least one call fails.",
            "note": "All texts up to length 8-9 over {0 2 5 . x}, all lists of up to six octets from 18-25 texts; listen/accept/connect on real loopback sockets with every single and double failure; "
                    "every run of up to 5-7 interruptions; the real kernel state (descriptor table, socket options) is the oracle; exact-size buffers under AddressSanitizer."},
    "C31": {"harness": ["textcal"], "level": "exploration", "technique": INPUTS,
            "rule": "Every year (all its days at 12 seconds), every hour (all its seconds) and every bucket array type is one case; all are non-trivial.",
            "note": "All 2.9 million days of 1970..9999, all seconds of selected days, all powers of two and their neighbours for 80 bucket arrays; reference: a calendar walk, itself compared with glibc."},
    "C32": {"harness": ["misc"], "level": "exploration", "technique": INPUTS,
            "rule": "Every argument list (and every prefix or extension of a long name) is one case; those with two and more arguments are non-trivial.",
            "note": "Every list of up to 4 (thorough 5) out of 29 argument forms against an independent statement of the GNU rules, each prefix and extension of the long names."},
    "C33": {"harness": ["misc"], "level": "model_checking", "technique": LOCK,
            "note": "Every sequence of up to 6-9 operations on pools and stacks of 1 to 3 objects through two attachments, fill/free patterns up to 1000 objects, memory blocks of exactly the advertised sizes under AddressSanitizer."},
    "C34": {"harness": ["misc"], "level": "exploration", "technique": INPUTS,
            "rule": "Every text, every message length and shape, and every error number is one case; those longer than two bytes are non-trivial.",
            "note": "All texts up to length 7-8 over the white space characters and others, all message lengths around the limits in 5 shapes and 3 ways of copying, all error numbers in C++ and plain C."},
    "C35": {"harness": ["threads"], "level": "model_checking", "technique": "stateless model checking of the real code under a controlled scheduler: every single switch (and every pair of switches) between two threads at every load, store, function entry and exit",
            "note": "30 calls that cover the library, each on data of its own, every ordered pair with one call run in a second real thread at every point of the other one; every call against itself with a switch in each thread at every pair of points; "
                    "oracle: the result of the same call alone.  More switches, and the command line parser (getopt has global state), are not covered."},
    "C36": {"harness": ["resources"], "level": "fault_enumeration", "technique": FAULTS + "; exhaustive enumeration of inputs and operation sequences, each repeated four times",
            "rule": "Every (call or input or operation sequence, set of failing system calls) is one case, done five times; non-trivial: it allocates, opens or fails something.",
            "note": "30 call groups with every single and double failing system call, all URL and codec texts up to length 4-5, every truncation and one-character damage of two documents, operation sequences on storages, caches and queues; "
                    "oracle: the bytes allocated and the descriptors open stop growing.  What an operation leaves behind on its first use only is not judged."},
    "C37": {"harness": ["resources"], "level": "fault_enumeration", "technique": "exhaustive enumeration of allocation failures (each single one, and each one with all that follow) after every operation sequence up to a depth, each outcome checked against a reference model",
            "rule": "Every (operation sequence, failing allocation) is one case; non-trivial: an allocation fails.",
            "note": "String storage, cache, queue, URL objects, codecs and text functions; allocations of libexpat and of the C library are not failed."},
}

NOT_CLAIMED = {}
HOOKS = None
NOTES = "All checks explore the unmodified sources of /repo; no hooks are needed. See DESIGN.md."
