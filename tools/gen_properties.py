#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so the statements are easy to edit)"""
import json, os
P = []


def p(id, title, st, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))


p('P01', 'A timeline delivers every pushed event once, in order and intact',
  'Whatever the buffer capacity, event sizes and interleaving of pushes and flushes, the concatenation of the byte ranges a timeline hands to its listeners, followed by what it still buffers, equals the events pushed so far, each exactly once, in order and byte for byte (serialized form or in-memory form, as configured). After a flush or a destroy nothing stays buffered. No push or flush reads or writes outside the memory of the event and of the timeline.',
  ['inputs', 'histories', 'configurations'], 'all capacities (including smaller than an event), all event sizes, all buffer fill levels, all byte contents, serialized and unserialized mode, with and without locking',
  'Tests push a handful of fixed-size events through a few capacities; overflow, exact-fit and oversized events in every fill state are a quantifier over integers.',
  ['lib/timeline.c', 'lib/timeline_listener.c'],
  [('push: flush when full, direct delivery of oversized events', 'lib/timeline.c:ht_timeline_push_event'), ('flush', 'lib/timeline.c:_ht_timeline_flush'), ('destroy flushes first', 'lib/timeline.c:ht_timeline_destroy')],
  ['listener callbacks'])
p('P02', 'The listener buffer forwards exactly the byte stream it is given',
  'For every buffer size (including the unbuffered mode), fill level and input, the bytes handed to the flush callback followed by the bytes still buffered are exactly the serialized form of everything handed in, in order, with no byte lost, duplicated or altered, both for already serialized input and for input in in-memory form. Every byte range passed to the callback is valid memory and the buffer is never overrun, also by a single event larger than the buffer.',
  ['inputs', 'histories', 'configurations'], 'all buffer sizes, fill levels, chunk sizes, event counts and event sizes',
  'Tests use a few chunk/buffer size pairs; wrap-around arithmetic on size/usage pairs is a quantifier over all of them.',
  ['lib/listener_buffer.c'], [('chunked copy loop', 'lib/listener_buffer.c:ht_listener_buffer_process_serialized_events'), ('per-event serialization', 'lib/listener_buffer.c:ht_listener_buffer_process_unserialized_events')], ['flush callback'])
p('P03', 'Serialized events have the declared packed layout and announced size',
  'For every event class, serializing an event writes exactly as many bytes as the size announced for that event and never more, in the declared field order with base fields first: class id, timestamp, event id, then each field in native byte order without padding, strings with their terminator. This holds for every field value and every string, for nested base classes and for structure fields at any position.',
  ['inputs', 'programs'], 'all values of all fields, all string lengths and contents, every event class the library defines and representative user-defined classes',
  'Tests serialize a few constants; string lengths and field values are unbounded.',
  ['lib/include/hawktracer/event_macros.h', 'lib/events.c', 'lib/include/hawktracer/core_events.h', 'lib/event_utils.c'],
  [('generated size functions', 'lib/include/hawktracer/event_macros.h:HT_EVENT_GET_SIZE_FUNCTION_DEF'), ('generated serializers', 'lib/include/hawktracer/event_macros.h:HT_EVENT_SERIALIZE_FUNCTION_DEF'), ('base event', 'lib/events.c')], ['bytes handed to listeners'])
p('P04', 'The metadata prologue fully and correctly describes every event class',
  'The metadata given to a listener consists of the byte-order announcement, then for every registered class, in registration order, one class description followed by one description per field in declaration order, then the library version. Every description carries the true class id, name, field count, field name, type name, size and data kind (unsigned integers marked as such). The byte count returned equals the bytes delivered and no internal buffer is overrun, whatever the number and length of classes, fields and names.',
  ['inputs', 'programs', 'histories'], 'all sets of registered classes, numbers of fields, name lengths; both serialized and in-memory form',
  'Tests register a couple of small classes; buffer-boundary crossing depends on total name lengths.',
  ['lib/registry.c', 'lib/system_info.c', 'lib/timeline_listener.c', 'lib/event_utils.c'],
  [('class and field info emission with a 4096 byte buffer', 'lib/registry.c:ht_registry_push_registry_klasses_to_listener'), ('byte order and version', 'lib/system_info.c'), ('order of parts', 'lib/timeline_listener.c:ht_timeline_listener_push_metadata')], ['metadata callback'])
p('P05', 'Event class ids are unique, dense and stable',
  'Every registered event class has an id equal to its position in the class list; registering it again returns the same id and adds nothing; registering another class never changes existing ids. A failed registration (no memory) leaves the class unregistered and the list unchanged. Initialising the library repeatedly (nested) keeps all classes registered, and after a complete shutdown followed by a new initialisation every core class is again in the list at the index its id says.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of registrations and initialisation/shutdown calls, any number of classes, allocation failures',
  'Tests register two classes in one process life.',
  ['lib/registry.c', 'lib/init.c'], [('registration under lock', 'lib/registry.c:ht_registry_register_event_klass'), ('init counting', 'lib/init.c')], ['class ids in the stream'])
p('P06', 'Feature slots: unique ids, bounds-checked, single owner',
  'Feature classes get distinct ids below the limit, a class registered twice keeps its id, and registrations beyond the limit are refused. A timeline holds at most one feature per class, returns exactly the feature that was set (none if never set or the class is unregistered), and destroys every feature it was given exactly once: immediately when refused, otherwise when the timeline is destroyed.',
  ['histories', 'inputs'], 'all registration and set/get/destroy histories, all feature ids',
  'Tests use one or two features; slot indexing and ownership on every error path is not reached.',
  ['lib/registry.c', 'lib/timeline.c', 'lib/include/hawktracer/feature.h'], [('id assignment', 'lib/registry.c:ht_registry_register_feature'), ('set/get', 'lib/timeline.c:ht_timeline_set_feature')], ['feature API'])
p('P07', 'Listeners: each registered one is called once per batch and released once',
  'Every batch a timeline emits is passed to every registered listener exactly once, in registration order, with the registered user data. A shared listener group lives until its last user releases it, then every listener is released exactly once; timelines created with the same group name share the group, unnamed ones never do. Registering listeners beyond the initial capacity and running out of memory never corrupts memory or loses already registered listeners.',
  ['histories', 'inputs', 'fault_sequences'], 'any number of listeners, any reference counts, allocation failures',
  'Tests register at most a few listeners, fewer than the initial capacity.',
  ['lib/timeline_listener.c', 'lib/include/internal/bag.h', 'lib/registry.c'], [('notify loop', 'lib/timeline_listener.c:ht_timeline_listener_container_notify_listeners'), ('reference counting', 'lib/timeline_listener.c:ht_timeline_listener_container_unref'), ('named lookup', 'lib/timeline_listener.c:ht_find_or_create_listener')], ['listener callbacks', 'destroy callbacks'])
p('P08', 'Growable storage keeps its contents; the stack is last-in first-out',
  'The growable array and the variable-size stack preserve every stored element through growth, shrinking, removal and failed allocation, for every capacity, size and element size. The stack returns elements last-in first-out byte for byte. No operation touches memory outside the allocation.',
  ['inputs', 'histories', 'fault_sequences'], 'all capacities, fill levels, element sizes, removal positions, allocation failures',
  'Tests exercise tens of elements; capacity arithmetic is a quantifier over integers.',
  ['lib/include/internal/bag.h', 'lib/bag.c', 'lib/stack.c'], [('resize', 'lib/include/internal/bag.h'), ('push/pop', 'lib/stack.c')], [])
p('P09', 'The string map stores the last value of each key and only that',
  'After any history of insertions a lookup returns the value last inserted for that key and nothing for a key never inserted; inserting returns the previous value of that key if there was one; iteration visits every key once with its current value and stops when told. An insertion that fails for lack of memory leaves the map unchanged.',
  ['inputs', 'histories', 'fault_sequences'], 'all keys, all bucket fill levels, allocation failures',
  'Tests insert a few keys; collisions within a bucket and allocation failure are not covered.',
  ['lib/hash_map.c', 'lib/include/internal/hash_map.h'], [('insert', 'lib/hash_map.c:ht_hash_map_insert'), ('find', 'lib/hash_map.c:ht_hash_bucket_find_value')], [])
p('P10', 'Cached strings: one mapping event per label, dumps reproduce every mapping',
  'The first time a label is cached, exactly one mapping event carrying the returned identifier and the label text is pushed; caching it again pushes nothing and returns the same identifier. Dumping the cache pushes one mapping event per cached label with its identifier and text. Labels passed as temporary strings are copied, the copies live as long as the cache and are released exactly once; running out of memory neither crashes nor leaks.',
  ['inputs', 'histories', 'fault_sequences'], 'all labels and lengths, all cache fill states, with and without locking, allocation failures',
  'Tests cache a couple of literal labels.',
  ['lib/feature_cached_string.c', 'lib/hash_map.c'], [('static and dynamic maps', 'lib/feature_cached_string.c')], ['mapping events'])
p('P11', 'Call-stack tracepoints nest and report exact durations',
  'Every started tracepoint produces exactly one event when stopped, with its own label, kind, start timestamp and event id, a duration equal to stop time minus start time, and the thread id of the stopping thread; stops match starts innermost first, for any nesting depth. A start or stop for which there is no memory records nothing and leaves the enclosing tracepoints intact. Scoped tracepoints stop exactly once when the scope ends.',
  ['histories', 'inputs'], 'any nesting depth and mix of integer/string/user-defined call-stack events, all clock values',
  'Tests nest a few levels, less than the initial stack capacity.',
  ['lib/feature_callstack.c', 'lib/stack.c', 'lib/scoped_tracepoint.c', 'lib/timeline.c'], [('start pushes a copy on the stack', 'lib/feature_callstack.c:ht_feature_callstack_start'), ('stop pops and emits', 'lib/feature_callstack.c:ht_feature_callstack_stop')], ['callstack events'])
p('P12', 'The task scheduler runs exactly the due tasks',
  'A tick calls each scheduled task that is due at that moment exactly once and no other task; a task that asks to stop is removed and released, others are rescheduled one period later (from the planned time when delays are ignored, from now otherwise). Task ids are distinct and invalid requests are refused; removing a task affects that task only. The suggested tick period is the greatest common divisor of all non-zero periods.',
  ['inputs', 'histories', 'fault_sequences'], 'any number of tasks, periods, deadlines, clock values, callback results, allocation failures',
  'Tests use three tasks with fixed periods.',
  ['lib/task_scheduler.c'], [('tick', 'lib/task_scheduler.c:ht_task_scheduler_tick'), ('gcd', 'lib/task_scheduler.c:_greatest_common_divisor')], ['task callbacks'])
p('P13', 'The file listener writes the complete trace and nothing after stop',
  'The file contains the metadata followed by exactly the events delivered to the listener up to stop, in order, whatever the buffer size and batch sizes. Flush makes everything delivered so far reach the stream; after stop nothing more is written, stop is idempotent, and destroying releases the file, buffer and lock exactly once. Creation failures at any step release everything acquired and report the error.',
  ['inputs', 'histories', 'fault_sequences'], 'all buffer sizes, batch sizes, orders of flush/stop/destroy, failures of each resource',
  'Tests write a few events to one file and do not fail resources.',
  ['lib/listeners/file_dump_listener.c'], [('create with cleanup ladder', 'lib/listeners/file_dump_listener.c:ht_file_dump_listener_create'), ('callback/flush/stop under lock', 'lib/listeners/file_dump_listener.c')], ['file contents'])
p('P14', 'The network listener sends whole, ordered, unmodified data to each client',
  'Everything the network listener decides to send is sent to every connected client completely and in order even if the socket accepts it in pieces; a client that fails is dropped without affecting others. A new client receives the complete metadata before any event data. Stopping or destroying the listener releases server, buffer and locks exactly once, in any order of calls, and failures while starting are reported without touching uninitialised state.',
  ['inputs', 'histories', 'fault_sequences'], 'any number of clients, all partial-send patterns and failures, all batch and buffer sizes, stop/destroy orders, failures of each start-up step',
  'Tests use one local client whose sends never split or fail.',
  ['lib/listeners/tcp_listener.c', 'lib/tcp_server.cpp'], [('send loop', 'lib/tcp_server.cpp:ht_tcp_server_write_to_socket'), ('client list', 'lib/tcp_server.cpp:ht_tcp_server_write'), ('listener life cycle', 'lib/listeners/tcp_listener.c')], ['socket data'])
p('P15', 'Event ids are handed out consecutively and never repeated',
  'Each request for an event id returns the previous value plus one, starting at zero, in a single atomic step, so that ids are unique across threads; initialising an event sets its timestamp and a fresh id and nothing else.',
  ['schedules', 'histories', 'inputs'], 'every counter value, any number of requesting threads (atomicity of the step)',
  'Tests draw a few ids on one thread.',
  ['lib/event_id_provider.cpp', 'lib/timeline.c'], [('atomic increment', 'lib/event_id_provider.cpp:ht_event_id_provider_next')], ['event ids'])
p('P16', 'Locks protect shared state and are always released',
  'Every public operation on a thread-safe timeline, listener, registry or cache takes its lock before touching the shared state, touches that state only while holding it, never takes a lock it already holds, and releases it on every path including error paths.',
  ['schedules', 'fault_sequences', 'inputs'], 'all operations from all states, all outcomes of inner allocations and callbacks; other threads may change shared state whenever the lock is free',
  'Tests do not exercise error paths under locks and cannot enumerate schedules.',
  ['lib/timeline.c', 'lib/registry.c', 'lib/timeline_listener.c', 'lib/feature_cached_string.c', 'lib/listeners/file_dump_listener.c', 'lib/listeners/tcp_listener.c', 'lib/tcp_server.cpp', 'lib/mutex.cpp'],
  [('lock macros and lock/unlock pairs', 'lib/timeline.c:_TIMELINE_LOCK')], [])
p('P17', 'All library memory goes through the configured allocator and is released',
  'With a custom allocator installed every allocation, resize and release made by the library goes to it with the right size and user data; without one the system allocator is used. Creating and destroying any library object, with any single allocation failing, reports the failure without crashing, leaves no object half-built and releases every block exactly once.',
  ['fault_sequences', 'configurations', 'inputs'], 'every combination of failing allocations in every constructor; default and custom allocator',
  'Tests fail one allocation in two constructors.',
  ['lib/alloc.c', 'lib/timeline.c', 'lib/timeline_listener.c', 'lib/registry.c', 'lib/task_scheduler.c', 'lib/feature_cached_string.c', 'lib/feature_callstack.c'], [('allocator switch', 'lib/alloc.c'), ('cleanup ladders', 'lib/timeline.c:ht_timeline_create')], [])
p('P18', 'Library command line: only recognised options act, malformed ones are reported',
  'Parsing the program arguments sets the global timeline buffer size to the given number if and only if the option is followed by an unsigned number that fits, and leaves it unchanged with a message otherwise; other arguments are ignored and an option value is never interpreted as an option. No argument vector makes parsing read outside it.',
  ['inputs'], 'all argument vectors',
  'Tests try a few vectors.',
  ['lib/command_line_parser.c', 'lib/global_timeline.cpp'], [('argument table loop', 'lib/command_line_parser.c:ht_command_line_parse_args')], [])
p('P20', 'Decoding a trace reproduces every event field exactly',
  'For every stream a library writer can produce from classes with integer, string and structure fields, decoding yields the same sequence of events with the same class, timestamp, id and field values: integers of every size and signedness, strings of any length and content, and inherited fields, in either byte order as announced in the stream. Class descriptions read from the stream define the decoding of the classes they announce.',
  ['inputs', 'programs'], 'all field values, string contents, class layouts and both byte orders',
  'Tests decode a few hand-written buffers.',
  ['parser/protocol_reader.cpp', 'parser/klass_register.cpp', 'parser/event.cpp', 'parser/event_klass.cpp', 'parser/include/hawktracer/parser/endianness.hpp'],
  [('field readers', 'parser/protocol_reader.cpp'), ('class construction from info events', 'parser/klass_register.cpp')], ['events delivered to listeners'])
p('P21', 'Decoding malformed or truncated traces is safe',
  'For every byte sequence, decoding terminates normally (the time and memory being those the nestings described in it ask for): it delivers complete events only, never reads memory it does not own, never crashes or aborts, and stops at the first event that is truncated, of unknown class or of unsupported content.',
  ['inputs', 'fault_sequences'], 'all byte sequences, including truncation at every point',
  'Tests feed well-formed data.',
  ['parser/protocol_reader.cpp', 'parser/klass_register.cpp'], [('status propagation', 'parser/protocol_reader.cpp')], [])
p('P22', 'Decoded events keep their values through copying, moving and merging',
  'Copying, assigning, moving and merging decoded events preserves every field value and its type, gives each event its own copy of its strings, and releases every string exactly once; asking for an absent field is refused.',
  ['inputs', 'histories'], 'all field values and types, all sequences of copy/move/merge/destroy',
  'Tests copy one event.',
  ['parser/event.cpp', 'parser/include/hawktracer/parser/event.hpp'], [('value ownership', 'parser/event.cpp')], [])
p('P23', 'Trace input streams deliver exactly the bytes of the source',
  'Reading from a file or network source returns precisely the bytes of the source in order, every byte value included, regardless of how the source delivers them in pieces; end of data is reported only at the end, and a short read is reported as a failure.',
  ['inputs', 'schedules', 'fault_sequences'], 'all byte values, all chunk sizes and read sizes, disconnects at any point',
  'Tests read small ASCII data.',
  ['client_utils/tcp_client_stream.cpp', 'parser/file_stream.cpp'], [('chunk queue', 'client_utils/tcp_client_stream.cpp'), ('file reads', 'parser/file_stream.cpp')], [])
p('P24', 'The call graph attaches every call to its innermost enclosing call',
  'Given the calls of one thread, the graph contains every call exactly once with its label and timing, children lie within their parent, siblings are ordered by start and do not enclose one another; calls with the same label under the same parent are added up.',
  ['inputs'], 'all sets of calls, including equal start times and unordered arrival',
  'Tests build a few graphs.',
  ['client/call_graph.cpp'], [('tree construction', 'client/call_graph.cpp')], [])
p('P25', 'Converted traces are well formed and contain every call once',
  'Of a trace that starts with the descriptions of its classes (the one that maps labels among them), the JSON output is valid JSON for every label (bytes above 127 are passed on) and contains each call event with a non-empty label exactly once with its label, thread, start and duration in microseconds and its further fields; numbers used as labels are resolved through the mapping events before them and the map files, a number without a mapping is shown as itself.',
  ['inputs'], 'all labels (including quotes, backslashes and control characters), timestamps, durations and thread ids',
  'Tests convert simple labels.',
  ['client/chrome_trace_converter.cpp', 'client/converter.cpp', 'client/tracepoint_map.cpp', 'client/callgrind_converter.cpp'], [('writer', 'client/chrome_trace_converter.cpp'), ('label map', 'client/tracepoint_map.cpp')], [])
p('P26', 'Client command line: options are recognised, values bound, errors reported',
  'Every registered option given on the command line is bound to its value, flags need none, missing mandatory options and unknown or incomplete options are reported as failure, the first of several values for one option counts, and no argument vector causes a read outside it; a source that names an existing file is read as a file, an address as a network source with the given or the usual port.',
  ['inputs'], 'all argument vectors and option sets',
  'Tests try a few vectors.',
  ['client_utils/command_line_parser.cpp', 'client_utils/stream_factory.cpp'], [('parse loop', 'client_utils/command_line_parser.cpp')], [])
p('P27', 'Allocation hooks observe every allocation without changing it',
  'With hooks registered, each system allocation call runs the matching before and after hook exactly once with the true arguments and result and returns the underlying result; the hook-free variants run none.',
  ['inputs', 'configurations'], 'all sizes, all combinations of registered hooks',
  'Tests allocate a few blocks.',
  ['lib/platform/linux/alloc_hooks.c'], [('hook wrappers', 'lib/platform/linux/alloc_hooks.c')], [])
p('P28', 'Memory and CPU usage figures are computed from the system data correctly',
  'Reported memory figures are the page counts of the system for the chosen process times the page size, and each CPU usage probe takes the user plus system time of the chosen process since the previous probe as a share of the elapsed time, for every content of the system source; a source that can not be opened or is malformed is reported as a failure that changes nothing, and nothing outside the contents is read.',
  ['inputs', 'fault_sequences'], 'all contents of the system files',
  'Tests check that a call succeeds.',
  ['lib/platform/linux/memory_usage.c', 'lib/platform/linux/cpu_usage.c'], [('parsing', 'lib/platform/linux/memory_usage.c')], [])
p('P29', 'The event class generator emits definitions matching its input',
  'The class generator produces, for every valid class description, a definition with the same class name, base, fields, types and order.',
  ['programs', 'inputs'], 'all class descriptions', 'Tests do not run the generator on varied input.',
  ['tools', 'tools_integration'], [('generator scripts', 'tools')], [])
p('P30', 'Language bindings forward calls faithfully',
  'Tracing through the Python bindings records the same events, in the same order, as the equivalent native calls.',
  ['programs', 'histories'], 'all sequences of calls', 'Binding tests run a few calls.',
  ['bindings'], [('binding module', 'bindings')], [])

open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(x) + '\n' for x in P))
