PLAN.update({
 'C01': '''raise/drop/propagate are compared with the count algebra: which counter moves by which amount on every combination of
   propagation mode, pending drain and source object. The cancel path (a raise meeting a scheduled, forked or running drain) is part of the same path set.''',
 'C02': '''The scheduler of drains, the drain process and clear() are compared with the wake-once-drain-all protocol; every await re-reads the tables, so a cancel in any gap is covered.''',
 'C03': '''Override lookup is decided as: which list is scanned, in which order, first match or last, what is returned and that the chain continues from the override found with
   the loop guard intact. Registration is decided separately so that names and types end up in the same tables.''',
 'C04': '''set/get and configuration application: which precedence and scope are stored for each phase of life, which of the competing entries wins, exact order of application.''',
 'C05': '''Pool queues, precedence selection (strictly greater keeps the first), scope matching, plus a structural rule that a glob is tied to the start of the name (known finding).''',
 'C06': '''Verbosity and action look-ups by id, severity, both, and the filters in the macros and report functions.''',
 'C07': '''Server side processing: counts, quit limit, action dispatch order and the die path.''',
 'C08': '''Catcher loop: which catchers see the message, in what order, when the loop stops, what the caught and re-issued message carries.''',
 'C09': '''Callback queues: registration order, per-object and type-wide merging, enable state and iterator protocol.''',
 'C10': '''execute_phase is decided in three parts of its input space (schedule node, function phase, task phase) as an ordered protocol of state changes, callbacks, traversals, hopper puts; the waits are decided as predicates re-evaluated after each change.''',
 'C11': '''add() is decided in seven parts (append, with, after, before, between, wrong combinations); each edge write must appear at both ends.''',
 'C12': '''The order tables are the sequence of add() calls in the domain constructors; each of the 21 phase classes must call its own hook; base classes by structural rule.''',
 'C13': '''Traversals: for-each over the children exactly once, on the right side of the visit, the domain guard around the visit only, process start per component.''',
 'C14': '''Child registration, name composition, lookups; loops over children are compared as for-each summaries.''',
 'C15': '''Argument classification and application of each +uvm option, argument by argument.''',
 'C16': '''Event, barrier and trigger-data protocol as predicates over (state, pending waiters) with re-reads after each await.''',
 'C17': '''Occupancy and waiting loops of mailbox and fifos; non-blocking forms must not await.''',
 'C18': '''Structural agreement between interface mask, offered methods and forwarding target for every port/export/imp class; connection rules by contract.''',
 'C19': '''Arbitration queue, lock queue, relevance and grant protocol.''',
 'C20': '''Driver/sequencer handshake typestate: request, item done and response flags on each path.''',
 'C21': '''Sequence state machine and hook order of start(), kill and stop, across nesting.''',
 'C22': '''Response routing by sequence id and transaction id, queue depth.''',
 'C33': '''Pool and queue operations with their container effects.''',
 'C31': '''Policy decision of each set, get, try_set, try_get, lock and unlock, with the error or false result of a refused access and the unchanged value.''',
 'C32': '''Forwarding of each transport call through imps, ports, exports and sockets with unchanged arguments and result; field list of payload copy and compare; unit arithmetic of times; socket connection checks.''',
 'C35': '''Comparator loops: one get from each stream, one comparison, one count and one forward per pair; pair comparison and copy member by member; transformation once per item.''',
 'C36': '''Range and overlap guards before a region enters the list of regions in use, release, iteration and reconfiguration.''',
 'C27': '''Predictor write: collection of bus cycles per register, lane placement, kind, check, prediction and forwarding on each path; incomplete accesses reported.''',
 'C37': '''Front-door body with its two item copies, accesses, lock and unlock on each way out; prediction through the selected table entry; item copy without shared values.''',
 'C38': '''Guards and order of each push and pop on the abstract FIFO, update loop, refusal of writes and reads.''',
 'C24': '''Composition loops as per-field terms (shift, mask, order); lock taken and released on each way out of write, read and mirror; do_write and do_read as ordered protocols of hooks, callbacks, front door or
   back door, sampling, prediction and status; the compare mask of the check; field insertion order and overlap reports.''',
 'C26': '''For-each summaries of every operation over the tables of registers, memories, maps and sub-blocks, with the status carried through all loops; locked guards before every add; lookups by name.''',
 'C39': '''Guard set and order of the refusals with the status they leave; do_write and do_read as ordered protocols of hooks, callbacks, front door or back door, sampling loop bounds, and status;
   the fields of the access item built by each entry point; access-rights decision table; coverage flags. Two known findings: poke and peek call a user back door's coroutine without awaiting it.''',
 'C40': '''For-each summaries of the path products (own paths x parent paths, joined by the separator), back-door loops as per-slice deposits and reads with shift, mask and status conjunction,
   lookup order of back doors up the hierarchy, and the callback protocol of user back doors.''',
 'C23': '''XpredictX and XupdateX as decision tables over the access policy (every predefined policy compared branch by branch, unknown policies left as they are); write, read and predict paths with byte-lane masks, callbacks,
   access rights of the map and the mirror, desired value and written-once state after each.''',
 'C25': '''Base-address recursion, offset scaling, cycle count and lane arithmetic of get_physical_addresses as terms over widths and endianness; do_bus_write and do_bus_read loops per cycle with value slice, byte
   enables, status exit and adapter protocol, for registers and memories (fields cannot be accessed by themselves in this port); offset tables written and looked up by the same keys.''',
 'C30': '''State flags and handle tables of recorders, streams and databases after each open, close and free; the guard of every operation in a wrong state; the order of the hooks, of closing and freeing what a stream
   holds; begin, end and accept of transactions with their times, recorder, parent link and event; the component's stream tables and the records, links and attributes it writes.''',
 'C34': '''A rule over every call site of src/uvm, without contracts: callees are resolved through the class hierarchy, constructor and annotation types of attributes, parameters and locals, and by name and arity where all
   definitions agree. Each call that creates a coroutine must be awaited, spawned, returned by a plain function or collected for a wait; what is awaited or spawned must be a coroutine; a callback hook named by a string must be run by the
   waiting form of the macro exactly when the hook is a coroutine; an override waits exactly when the overridden method does; non-blocking operations are plain functions; no call of a blocking operating-system function; no loop that
   can neither end nor wait. A call whose receiver stays unresolved and whose name is defined both ways is counted and never reported. Two known findings (the user back door of memory poke and peek).''',
})
