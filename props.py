"""property id -> verification units (files in harness/), assumptions, trusted parts"""
SZ = 'sizes up to 2^40 bytes / elements (no 64 bit wrap-around of real object sizes)'
SEQ = 'single-threaded execution of each function; interference only at lock operations (see P16)'
MEM = r'(leak|releas|free|acquir|changes nothing|nothing changes|fail|alloc|memory|resize|block|half|nothing is left)'
PROPS = {
    'P01': dict(units=['timeline.c'], note='timeline push/flush/destroy for all capacities, event sizes, fill levels, modes',
                assumptions=[SZ, "an event's get_size equals what its serialize writes (proved as P03)"]),
    'P02': dict(units=['listener_buffer.c'], note='both processing modes, all buffer sizes, fill levels and inputs',
                assumptions=[SZ, "an event's get_size equals what its serialize writes (proved as P03 for the library's classes)"]),
    'P03': dict(units=['events.c'], note='all classes of the library and representative user classes, all values and strings',
                assumptions=[SZ]),
    'P04': dict(units=['registry_meta.c', 'metadata.c'], note='order and content of all descriptions, buffer handling; decoding of whole prologues additionally cross-checked natively',
                assumptions=[SZ, 'between two calls that fill it nothing else writes the local metadata buffer']),
    'P05': dict(units=['registry.c', 'init.c'], note='registration with any number of classes, initialisation and shutdown in any nesting, allocation failure', assumptions=[SZ, SEQ]),
    'P06': dict(units=['timeline.c:feature|H_create', 'registry.c:feature'], note='registration at every fill level, set/get for every id and slot state, destruction with none, one arbitrary or all slots taken',
                assumptions=[SZ, SEQ]),
    'P07': dict(units=['listeners.c:^(?!H_notify_race)'], note='any number of listeners and groups, failed allocations', assumptions=[SZ, SEQ]),
    'P08': dict(units=['containers.c'], note='bag instantiations and stack, all capacities and element sizes', assumptions=[SZ]),
    'P09': dict(units=['hash_map.c'], note='all map sizes and histories; failed allocations', assumptions=[SZ, 'the hash and equality callbacks are functions']),
    'P10': dict(units=['cached_string.c'], note='both kinds of labels, any cache content (watched at one arbitrary key), failed allocations',
                assumptions=[SZ, SEQ, 'two different temporary labels have different 32 bit hashes (the identifier is the hash by design)']),
    'P11': dict(units=['callstack.c', 'scoped.cpp'], note='all nesting depths, timestamps and event classes; C++ scoped tracepoints',
                assumptions=[SZ, SEQ, 'a start/stop call that finds no memory is not recorded']),
    'P15': dict(units=['ids_cpp.cpp', 'ids_c.c', 'thread_id.c', 'native_ids.cpp', 'timeline.c:init_event'], note='both variants of the id provider (atomic / mutex), per-thread ids, event initialisation',
                assumptions=[SZ, 'fewer than 2^64 events are initialised']),
    'P18': dict(units=['command_line.c', 'native_command_line.c', 'global_timeline.c'], note='all command lines of any length (watched at one arbitrary option), all strings',
                assumptions=[SZ]),
    'P12': dict(units=['scheduler_tick.c', 'scheduler.c'], note='a tick and the suggested period over any number of tasks (unbounded); scheduling for any list; removal (up to 4 tasks), ticks on the real list (up to 3 tasks) and the gcd loop (operands up to 7, random 64 bit operands natively) are bounded stand-ins',
                assumptions=[SZ, 'clock values below 2^62', 'the clock does not run backwards']),
    'P13': dict(units=['file_listener.c'], note='creation with every failing step, callback/flush/stop/destroy from every listener state, all batch and buffer sizes',
                assumptions=[SZ, SEQ, 'writes to the file succeed (a full disk is not reported by the library)', 'the buffer size is non-zero in unserialized mode']),
    'P14': dict(units=['tcp_server.cpp', 'tcp_listener.c'], note='any number of clients, every pattern of partial sends and failures, every failing start-up step, all life cycle orders',
                assumptions=[SZ, SEQ, 'send() returns -1 or a count not above the requested one', 'a client accepted between two flushes of one batch is outside the claim']),
    'P16': dict(units=['timeline.c', 'listeners.c', 'registry.c', 'registry_meta.c', 'cached_string.c', 'file_listener.c', 'tcp_listener.c', 'tcp_server.cpp', 'mutex.cpp', 'ids_c.c'],
                obl=r'^race|^assert.*(\block|held|mutex)|VF-ASSERT.*(\block|held|mutex)', note='lock discipline obligations (guarded state touched only under its lock, no re-locking, released on every path) of all operations on shared objects, from every state and with every outcome of allocations and callbacks',
                assumptions=[SZ, 'the std::mutex of the C++ library provides mutual exclusion', 'ht_registry_get_event_klasses hands out the class list itself, its callers must not register classes meanwhile']),
    'P17': dict(units=['alloc.c', 'containers.c', 'hash_map.c:H_get|H_ins|B_life|N_map', 'listener_buffer.c', 'listeners.c:^(?!H_notify_race)', 'registry.c', 'registry_meta.c:H_metadata_bytes', 'init.c', 'timeline.c',
                       'cached_string.c', 'callstack.c', 'scheduler.c:H_', 'file_listener.c', 'tcp_listener.c', 'tcp_server.cpp', 'mutex.cpp', 'ids_cpp.cpp', 'ids_c.c', 'usage.c:context'],
                obl=r'^allocator|^mem|^assert.*' + MEM + '|VF-ASSERT.*' + MEM + '|Sanitizer',
                note='the allocator switch for all sizes and blocks; every function that allocates, resizes or releases, from every state and with every allocation failing or not',
                assumptions=[SZ, SEQ, 'a custom allocator behaves like realloc()/free()', 'memory the C++ runtime allocates for itself (std::thread state) is outside the claim']),
    'P20': dict(units=['decode_values.cpp', 'reader.cpp', 'klass_register.cpp', 'native_decode.cpp'], note='every field kind, any number of fields, any class descriptions, both byte orders, nested and flat events; whole streams additionally cross-checked natively',
                assumptions=[SZ, SEQ, 'map lookups, shared ownership and callables of the C++ library behave as specified', 'the number 2^32-1 is not used for a class']),
    'P21': dict(units=['decode_values.cpp', 'reader.cpp', 'klass_register.cpp', 'native_decode.cpp'], note='every outcome of every read, unknown classes, endless nesting, unsupported kinds, exceptions; truncated and damaged streams additionally run natively',
                assumptions=[SZ, SEQ, 'map lookups, shared ownership and callables of the C++ library behave as specified']),
    'P22': dict(units=['decoded_events.cpp', 'native_events.cpp'], note='copy, move, assignment, merge, set, get and destruction for any number of fields of any kind (watched at one arbitrary field)',
                assumptions=[SZ, SEQ, 'the C++ library map behaves as specified', 'each value handed to an event is owned by it alone']),
    'P23': dict(units=['tcp_stream.cpp', 'file_stream.cpp', 'native_streams.cpp'], note='every way the bytes arrive in pieces, every read size, the end and errors at any point, every state in which a stream is started or stopped; whole streams additionally over the loopback network and real files',
                assumptions=[SZ, SEQ, 'recv() and fread() return a count not above the requested one', 'the mutex and the condition variable behave as specified', 'data received before a stop but not read stays readable after a restart, what it is followed by is outside the claim']),
    'P24': dict(units=['call_graph.cpp', 'native_convert.cpp:N_callg'], note='any calls, any open calls, any list of known calls (watched at one arbitrary entry); the whole graph and its callgrind output additionally built natively',
                assumptions=[SZ, SEQ, 'std::sort orders by the given comparison', 'the calls of a thread are properly nested: that the innermost open call enclosing a new one is the innermost of all calls enclosing it then follows from their order']),
    'P25': dict(units=['convert.cpp', 'native_convert.cpp:N_json|N_maps'], note='any text to escape, any state of the label map (watched at one arbitrary number), any event with any fields, any map file; whole traces additionally converted natively and read back by a strict parser',
                assumptions=[SZ, SEQ, 'a text is represented by its identity: equal texts have equal identities', 'map lookups and file streams of the C++ library behave as specified', 'writes to the file succeed']),
    'P26': dict(units=['cmdline.cpp', 'native_cmdline.cpp'], note='any number of arguments with any texts, any set of registered options, any earlier state, watched at one arbitrary option; real strings and the choice of the source additionally run natively',
                assumptions=[SZ, SEQ, 'a text is represented by its identity: equal texts have equal identities', 'map lookups of the C++ library behave as specified']),
    'P27': dict(units=['alloc_hooks.c'], note='all operations, arguments, results and hook choices', assumptions=['hooks that allocate themselves use the hook free functions']),
    'P28': dict(units=['usage.c'], note='all contents and lengths of the proc files, every failure, any earlier state; the floating point share itself is checked on random states only (N_cpu_share, bounded)',
                assumptions=['a field of the proc files fits the type the kernel documents for it', 'time elapses between two probes', 'the first three fields of statm fit 63 bytes, the first fifteen of stat 1023']),
}
NOT_APPLICABLE = {
    'P29': 'there is no class generator in this tree (tools/ has only the amalgamation scripts); event classes are produced by preprocessor macros, decided under P03',
    'P30': 'the bindings are Python extension code that needs the CPython interpreter and build system, outside the reach of the C verifier; they hold no logic beyond calls that the other properties cover',
}
