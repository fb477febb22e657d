prop('C01', 'Objection counts are conserved over the component hierarchy',
     '''An object's objection total always equals the sum of what it and its descendants have raised minus what was dropped
     and already propagated: a raise or drop of n adjusts the object once, the source once, and then each ancestor exactly
     once up to and including the top (directly at the top when propagation is off), and a drop larger than the current
     count is refused with a fatal report and no change. When an object's total reaches zero its drop is held back
     instead of being passed up, and a raise that arrives meanwhile cancels that pending drop and passes up only the difference.''',
     ['histories', 'schedules'], 'all sequences of raises/drops of any counts by any objects, including raises while a drop is draining',
     'unit tests raise and drop a handful of times from one or two objects; the count algebra must hold for every interleaving',
     [B + 'uvm_objection.py'], [('raise/drop/propagate', B + 'uvm_objection.py:m_raise,m_drop,m_propagate')])
prop('C02', 'All-dropped fires once per drain, after the drain time, and never early',
     '''When an object's objection total falls to zero it waits that object's drain time, then runs its all-dropped
     notifications (component hook, callbacks, waiting processes) and only then drops from its parent. Every object that
     reached zero is drained, even when several reach zero at the same instant, and a drain that was cancelled by a new raise
     neither notifies nor drops from the parent. Clearing an objection resets every count, forgets pending drains and releases processes
     waiting for all-dropped.''',
     ['schedules', 'histories'], 'all interleavings of raises and drops with running drains',
     'a test exercises one drain at a time; lost wakeups and cancelled drains need particular interleavings',
     [B + 'uvm_objection.py'], [('drain processes', B + 'uvm_objection.py:m_execute_scheduled_forks,m_forked_drain'), ('notification', B + 'uvm_objection.py:all_dropped')])
prop('C03', 'Factory overrides: instance before type, chained, earliest instance match wins',
     '''Creating a requested type at an instance path yields the first registered instance override whose path pattern and
     type match, otherwise the type override, otherwise the type itself; the chosen override is resolved again
     for further overrides, and a cycle of overrides is reported and stopped. A later type override of
     the same original replaces the earlier one only when replacement is requested; the requested name and parent are handed
     unchanged to the created object.''',
     ['inputs', 'configurations', 'histories'], 'all sequences of registrations and overrides and all requested types and paths',
     'tests use two or three overrides; precedence must hold for any set and order of them',
     [B + 'uvm_factory.py', B + 'uvm_registry.py'], [('override lookup', B + 'uvm_factory.py:find_override_by_type,set_type_override_by_type')])
prop('C04', 'Configuration database: precedence of writers and last write wins',
     '''A configuration value set on a scope during build takes a precedence that is higher the closer the setter is to the
     top of the hierarchy, while after build the last write wins over earlier ones of the same name and scope. Setting the same field on the same
     scope again updates the stored value rather than adding a second entry, a lookup combines the requesting component's full name with the
     instance name and returns the highest-precedence match, and waiters registered for a changed field on a matching scope are woken.''',
     ['histories', 'configurations', 'inputs'], 'all sequences of set/get from any contexts, names and phases',
     'tests set one or two values; ordering and precedence must hold for every history',
     [B + 'uvm_config_db.py', B + 'uvm_resource.py', B + 'uvm_resource_base.py'], [('set/get', B + 'uvm_config_db.py:set,get')])
prop('C05', 'Resource pool: lookup returns the highest-priority matching resource',
     '''A resource registered in the pool is found under its name and its type for exactly the scopes its pattern matches (a scope never matches a name that merely continues past it), with
     lookups returning matches in priority order and the highest precedence chosen first, ties going to the resource found first. An
     override placed by name or by type goes ahead of existing entries of that kind, read-only resources never change value,
     and every access through the pool is recorded in the read or write counts.''',
     ['histories', 'configurations'], 'all registration orders, priorities and scopes',
     'tests cover single registrations',
     [B + 'uvm_resource.py', B + 'uvm_resource_base.py', B + 'uvm_resource_db.py'], [('queues', B + 'uvm_resource.py:UVMResourcePool')])
prop('C06', 'Report filtering: verbosity, action, severity and file resolve most specific first',
     '''The verbosity threshold, action, severity override and file used for a message are taken from the most specific setting
     made for it: severity with id, then id, then severity, then the default. A message is issued only when its verbosity does not exceed
     the threshold and its action is not NO_ACTION; filtering never changes messages whose verbosity is at most the threshold.''',
     ['inputs', 'configurations'], 'all combinations of settings and messages',
     'tests set one override at a time',
     [B + 'uvm_report_handler.py', B + 'uvm_report_object.py'], [('lookup', B + 'uvm_report_handler.py:get_action,get_verbosity_level,get_file_handle')])
prop('C07', 'Report server counts every issued report and stops at the quit limit',
     '''Each message that is processed increments the count of its (final) severity and id exactly once when it is counted or displayed as configured, and a message
     with the count action raises the quit count and terminates the run as soon as a nonzero limit is reached. Display, log,
     exit and stop actions are executed exactly when their action bit is set, and a limit marked non-overridable cannot be changed
     later.''',
     ['histories', 'inputs'], 'all message sequences and action masks',
     'tests issue a handful of messages',
     [B + 'uvm_report_server.py', B + 'uvm_report_handler.py'], [('processing', B + 'uvm_report_server.py:process_report_message,execute_report_message')])
prop('C08', 'Report catchers see every message once, in order, and their verdict is applied',
     '''Every enabled catcher registered for a message's report object gets the message in registration order until one catches it, at which
     point later catchers are skipped and the message is not processed further; a message that is not caught continues with the
     severity, id, verbosity and action the catchers left on it. Demoted and caught counts change exactly for messages whose severity was
     lowered from fatal, error or warning or that were caught, and reports issued by a catcher itself are not caught recursively.''',
     ['histories', 'inputs'], 'all catcher lists and message sequences', 'tests use one catcher',
     [B + 'uvm_report_catcher.py'], [('catch loop', B + 'uvm_report_catcher.py:process_all_report_catchers')])
prop('C09', 'Callbacks: registration order, no duplicates, type-wide and instance callbacks combined',
     '''A callback added to an object is invoked for that object in the order requested (append or prepend), a callback added
     type-wide is invoked for every instance of the type, a callback already present is not added twice, and a deleted callback is never invoked again.
     Iteration visits exactly the enabled callbacks of the requested type, each once and in order, and add or delete with no matching
     registration is reported instead of silently ignored.''',
     ['histories', 'configurations'], 'all add/delete/enable sequences', 'tests add one or two callbacks',
     [B + 'uvm_callback.py'], [('queues', B + 'uvm_callback.py')])
prop('C10', 'A phase runs only when all its predecessors are done, and ends only when its objections do',
     '''A phase starts executing only after every predecessor has finished, moves through its states in the fixed order (scheduled, synced, started, executing,
     ready-to-end, ended, cleanup, done), and runs its hooks for each state exactly once. When it is done it schedules each of its
     successors once, and a successor starts only when all of its predecessors are done. A task phase ends only when no objection to it or
     to a phase that must end with it remains, is given a ready-to-end notice before it ends, and goes on for as long as that notice raises new objections, up to the
     configured number of ready-to-end rounds. Waiting for a state of a phase returns when that state holds, at once if it already does.''',
     ['schedules', 'histories'], 'all phase graphs and all schedules of objections', 'tests run the default schedule once',
     [B + 'uvm_phase.py'], [('execution', B + 'uvm_phase.py:execute_phase')])
prop('C11', 'The phase graph stays a consistent two-way graph',
     '''Whenever a phase is added before, after, with or inside a schedule, each edge is stored in both its ends: a node is in the
     successors of another exactly when that other is in its predecessors. Inserting a node between two phases removes the
     direct edge it replaces, adding in parallel keeps the neighbours' other edges, and phases not in the target schedule are rejected.''',
     ['inputs', 'histories'], 'all sequences of phase insertions', 'tests insert one custom phase',
     [B + 'uvm_phase.py'], [('add', B + 'uvm_phase.py:add')])
prop('C12', 'Standard phases run in the documented order with the documented traversal',
     '''The common phases are build, connect, end of elaboration, start of simulation, run, extract, check, report, final, in that order,
     and the run-time schedule runs pre/main/post stages of reset, configure, main and shutdown in that order in parallel with run. Each phase calls exactly its own
     component hook; build and final go top-down, task phases start all components' processes, the others go bottom-up.''',
     ['configurations'], 'all components and schedules', 'tests observe a few phases',
     [B + 'uvm_common_phases.py', B + 'uvm_runtime_phases.py', B + 'uvm_domain.py'], [('tables', B + 'uvm_domain.py')])
prop('C13', 'Each component is visited exactly once per phase, parents before or after children',
     '''A top-down phase visits a component before its children and a bottom-up phase after them; every component in the hierarchy under the top is visited
     exactly once per phase, whatever its hooks do with the hierarchy's iterators, and executed only when it belongs to the phase's domain. Build is skipped for a component already
     built, and a task phase starts exactly one process per component.''',
     ['configurations', 'schedules'], 'all hierarchies', 'tests use small trees',
     [B + 'uvm_topdown_phase.py', B + 'uvm_bottomup_phase.py', B + 'uvm_task_phase.py'], [('traverse', B + 'uvm_topdown_phase.py:traverse')])
prop('C14', 'Component hierarchy: unique names, consistent parent and child links and full names',
     '''A component with a parent is in that parent's children under its own name exactly once, a second child of the same name or a child added after
     build is rejected with an error, and its full name is the parent's full name, a dot and its name. Lookup by relative
     or absolute path returns the component whose full name it is, or nothing.''',
     ['inputs', 'histories'], 'all hierarchies and names', 'tests use small trees',
     [B + 'uvm_component.py', B + 'uvm_root.py'], [('children', B + 'uvm_component.py:m_add_child,m_set_full_name,lookup')])
prop('C15', 'Command-line arguments are classified, matched and applied in full',
     '''Every argument is kept in order; arguments starting with + are also kept as plus arguments, and those starting with + or - followed by
     UVM (in any case) as UVM arguments. A match query returns every argument starting with the pattern (or, for a pattern between
     slashes, containing a match of the expression), a value query every text after the pattern, both with the number of matches; the first
     match is the value reported. The built-in settings (verbosity, action, severity, timeout, quit count, overrides, configuration) apply every
     well-formed argument as given and reject malformed ones with a report and no effect.''',
     ['inputs'], 'all argument vectors', 'tests use a fixed argument vector',
     [B + 'uvm_cmdline_processor.py'], [('matching', B + 'uvm_cmdline_processor.py')])
prop('C16', 'Events and barriers wake every waiter and run every callback',
     '''Triggering an event records its data and time, calls every callback before and (unless one of them vetoes, which skips the trigger) after the
     wake-up, and wakes all processes waiting for it; a wait started after a trigger waits for the next one unless it asks for a persistent trigger of the same time, and waiting for an on-state
     or off-state returns at once when it already holds. A barrier holds processes until its threshold of them has arrived, then releases all of
     them and starts over (or stays open when auto reset is off); resetting, lowering the threshold or cancelling accounts for the
     processes waiting.''',
     ['schedules', 'histories'], 'all interleavings of waiters and triggers', 'tests use one or two waiters',
     [B + 'uvm_event.py', B + 'uvm_barrier.py'], [('event', B + 'uvm_event.py:trigger,wait_on'), ('barrier', B + 'uvm_barrier.py:wait_for')])
prop('C17', 'Mailboxes and TLM FIFOs: bounded, first in first out, nothing lost or duplicated',
     '''Items leave a mailbox or TLM FIFO in the order they entered, each exactly once; a put blocks while the bound is reached, a get or peek blocks while it is
     empty, and the non-blocking forms report failure without changing anything. Peek never removes, flush empties, and used, size, empty and full report
     the true occupancy; each item put or taken is also broadcast once on the corresponding tap port.''',
     ['schedules', 'histories'], 'all interleavings of producers and consumers', 'tests put and get a few items',
     [B + 'uvm_mailbox.py', 'src/uvm/tlm1/uvm_tlm_fifos.py', 'src/uvm/tlm1/uvm_tlm_fifo_base.py'], [('mailbox', B + 'uvm_mailbox.py'), ('fifo', 'src/uvm/tlm1/uvm_tlm_fifos.py')])
prop('C18', 'TLM connections resolve to the implementations and calls reach them unchanged',
     '''After elaboration each port reaches exactly the implementations it is connected to, directly or through other ports and exports, each once, and an unmet minimum or exceeded maximum connection
     count is an error. A call on a port is forwarded unchanged to the connected implementation, an analysis write goes to every
     subscriber exactly once, and illegal directions or self connections are rejected.''',
     ['configurations', 'inputs'], 'all connection topologies', 'tests connect one port to one export',
     [B + 'uvm_port_base.py', 'src/uvm/tlm1/uvm_analysis_port.py', 'src/uvm/macros/uvm_tlm_defines.py'], [('connect', B + 'uvm_port_base.py:connect,resolve_bindings'), ('broadcast', 'src/uvm/tlm1/uvm_analysis_port.py')])
prop('C19', 'Sequencer arbitration grants only eligible requests and honours locks',
     '''A sequence's request is granted only when it is relevant and not blocked by another sequence's lock, at most one request is granted per item slot, and by default
     requests are granted in the order they were queued; a lock request at the front of the queue becomes an active lock as soon as no other lock blocks it, and
     is removed only when its sequence exits or is stopped; no request is lost on the way. When nothing is eligible the sequencer waits, and it re-arbitrates when
     requests or relevance change.''',
     ['schedules', 'histories'], 'all sets of competing sequences and locks', 'tests run one or two sequences',
     [S + 'uvm_sequencer_base.py'], [('arbitration', S + 'uvm_sequencer_base.py:m_choose_next_request,m_get_seq_item_priority,grant_queued_locks')])
prop('C20', 'Driver handshake: every granted item is delivered once and completes its own sequence',
     '''A driver's get or try-next returns exactly the item the granted sequence sent, each item is delivered once and stays current until item-done, and the sequence
     that sent it is released when, and only when, item-done is called for that item. Item-done without a current item, or a second get before item-done, is
     reported as an error.''',
     ['schedules', 'histories'], 'all interleavings of drivers and sequences', 'tests run simple drivers',
     [S + 'uvm_sequencer.py', S + 'uvm_sequencer_param_base.py', S + 'uvm_sequencer_base.py'], [('item port', S + 'uvm_sequencer.py:get_next_item,item_done')])
prop('C21', 'Sequences call their hooks once, in order, and track their state',
     '''Starting a sequence runs, in order, pre-start, (for top-level calls) pre-body, the parent's pre-do and mid-do, body, post-do, post-body and post-start, each once and with the sequence state set to match
     before each one; a sequence can be started only when it is new, finished or stopped, otherwise this is reported. Item start and finish follow the grant, pre-do, mid-do, send, item-done, post-do order,
     a sequence item always inherits the sequencer and parent it is started with, and the do/send functions run an item or sequence on the sequencer they are given. Stopping a sequence stops its children, removes it from its sequencer and leaves it in the stopped state. A default sequence configured for a phase is started in that phase.''',
     ['schedules', 'inputs'], 'all sequences, parents and flags', 'tests start a few sequences',
     [S + 'uvm_sequence_base.py', S + 'uvm_sequence_item.py'], [('start', S + 'uvm_sequence_base.py:start,start_item,finish_item')])
prop('C22', 'Responses reach the sequence that sent the item',
     '''A response carrying a sequence id is delivered to the sequence with that id (its handler when enabled, otherwise its
     queue) and to no other; a queue at its bound reports an overflow instead of growing. Getting a response with a transaction id takes the oldest response with exactly that id, without an id the oldest one,
     and waits when there is none.''',
     ['schedules', 'histories'], 'all response orders', 'tests return responses in order',
     [S + 'uvm_sequencer_base.py', S + 'uvm_sequencer_param_base.py', S + 'uvm_sequence_base.py'], [('routing', S + 'uvm_sequencer_param_base.py:put_response'), ('queue', S + 'uvm_sequence_base.py:put_base_response,get_base_response')])
prop('C23', 'Register fields follow their access policy on every read and write',
     '''For each of the standard access policies, a write, read or predicted access updates the field mirror exactly as the policy defines (written bits, set, clear, toggle, write-once, and clear or set on read), and a policy or access right that forbids
     an access leaves the mirror unchanged. Byte enables limit updates to the enabled lanes, and every predefined policy is handled by every
     operation that depends on it.''',
     ['inputs', 'configurations'], 'all policies, values, rights and byte enables', 'tests exercise a few policies',
     [R + 'uvm_reg_field.py'], [('predict', R + 'uvm_reg_field.py:XpredictX,do_predict')])
prop('C24', 'Register values are the exact composition of their fields, and access is serialised',
     '''The value, reset value and mirror of a register are composed from each field at its position and width, and
     writing, setting, resetting or predicting a register passes each field exactly its own slice. Each front-door or back-door access holds the register's lock from
     start to end and releases it exactly once on every way out, update only writes when a field needs it, and a direct prediction during an access is refused. The hooks and
     callbacks of the register and of its fields are each run to completion once, before and after the access in the documented order, a check compares exactly the fields that can be read and have checking on, and every access reports a status.''',
     ['inputs', 'schedules'], 'all layouts, values and concurrent accesses', 'tests use one or two registers',
     [R + 'uvm_reg.py'], [('compose', R + 'uvm_reg.py:get,set,do_predict'), ('lock', R + 'uvm_reg.py:XatomicX')])
prop('C25', 'Register maps: addresses and bus cycles cover exactly the register or memory location',
     '''The system address of a register or memory location in a map is the base addresses of all enclosing maps plus its offset scaled by the bus widths, and each register or memory access is split into bus
     cycles that cover every byte once in the map's endianness order. Reads and writes of the same element use the same addresses and stop at the first failed cycle, data from each cycle goes to its own lane, and offsets can be looked up back
     to the register they were given to.''',
     ['inputs', 'configurations'], 'all map trees, widths and endianness', 'tests use one flat map',
     [R + 'uvm_reg_map.py'], [('physical addresses', R + 'uvm_reg_map.py:get_physical_addresses'), ('bus access', R + 'uvm_reg_map.py:do_bus_write,do_bus_read')])
prop('C26', 'Register blocks: operations reach the whole hierarchy exactly once',
     '''Locking, resetting, updating or mirroring a block applies to each of its registers and sub-blocks exactly once, and listing its registers, memories, maps or blocks
     returns each once, descending only when hierarchy is requested. After locking, nothing can be added any more, and lookups by name return the member of that name or
     report that there is none.''',
     ['configurations'], 'all block hierarchies', 'tests use one block',
     [R + 'uvm_reg_block.py'], [('hierarchy', R + 'uvm_reg_block.py')])
prop('C27', 'The predictor mirrors exactly the observed bus traffic',
     '''For every observed bus transaction that hits a mapped register, the predictor updates that register's mirror once per complete register access, with the data
     and byte lanes of the observed transaction, as a read or a write as observed; multi-cycle accesses are collected until the last address of the
     register has been seen. Transactions to unmapped addresses change nothing.''',
     ['histories', 'inputs'], 'all traffic sequences', 'no test drives the predictor with partial accesses',
     [R + 'uvm_reg_predictor.py'], [('write', R + 'uvm_reg_predictor.py:write')])
prop('C28', 'Field automation: copy, compare and clone agree with the declared fields',
     '''Copying an object copies every declared field that is not excluded, by reference, shallow or deep as flagged, cloning creates a new object of the same type and copies into it, and comparing reports equality exactly when
     all compared fields are equal, counting each mismatch once. Copy, compare, print, pack and record each skip exactly the fields flagged out of that operation, and
     cyclic object graphs terminate.''',
     ['inputs', 'programs'], 'all field declarations and values', 'tests use a few classes',
     [B + 'uvm_object.py', B + 'uvm_comparer.py', 'src/uvm/macros/uvm_object_defines.py'], [('field automation', 'src/uvm/macros/uvm_object_defines.py'), ('copy/compare', B + 'uvm_object.py')])
prop('C29', 'Packing and unpacking advance through the same bits',
     '''Each pack operation appends exactly as many bits as the matching unpack operation consumes for the same kind of value, and the pack and unpack cursors
     never move otherwise. Unpacking beyond the packed size is reported and leaves the cursor, and a null object and an end of string are encoded as the unpacker expects them.''',
     ['inputs'], 'all values and orders of fields', 'tests pack a few values',
     [B + 'uvm_packer.py'], [('cursor', B + 'uvm_packer.py')])
prop('C30', 'Transactions and recording streams follow their life cycle',
     '''A transaction's accept, begin and end times are set by the matching call (the current time when none is given), beginning it again first ends the recording in progress, a child is linked to its parent, and the matching event is
     triggered for each step. A recorder, stream or database can be opened, closed and freed only in the state that allows it and otherwise nothing changes; closing or freeing a stream closes or frees everything recorded on it, a handle finds its recorder
     until that is freed, and a database that was closed can be opened again. A component records each transaction once on the stream that was named, and links only join recorders or streams of the same database.''',
     ['histories'], 'all call sequences', 'tests record one transaction',
     [B + 'uvm_transaction.py', B + 'uvm_recorder.py', B + 'uvm_tr_stream.py', B + 'uvm_tr_database.py'], [('life cycle', B + 'uvm_transaction.py')])
prop('C31', 'Access-policy wrappers enforce their policy on every access',
     '''A set-before-get wrapper refuses reads until a value was set, a get-to-lock wrapper refuses writes after the first read, a simple-lock wrapper refuses writes
     exactly while locked. A refused access reports an error (or returns false for the try form) and leaves the value unchanged, permitted accesses always succeed, and the protected
     value cannot be copied or packed around the policy: the attempt is reported as an error.''',
     ['histories'], 'all access sequences', 'tests call a few in order',
     ['src/uvm/dap/uvm_simple_lock_dap.py', 'src/uvm/dap/uvm_get_to_lock_dap.py', 'src/uvm/dap/uvm_set_before_get_dap.py'], [('policies', 'src/uvm/dap')])
prop('C32', 'TLM2 transport carries the payload and time unchanged',
     '''A TLM2 transport call through any chain of sockets reaches the target implementation with the same payload, phase and delay objects and returns its result unchanged. Copying
     a generic payload copies every field, comparing covers every field and the data under the byte enables, time values keep their amount under a change of
     resolution and never silently mix, and a socket connects only to a socket it can talk to.''',
     ['inputs', 'configurations'], 'all payloads and socket chains', 'tests use one socket pair',
     ['src/uvm/tlm2/uvm_tlm2_generic_payload.py', 'src/uvm/tlm2/uvm_tlm2_time.py', 'src/uvm/tlm2/uvm_tlm2_imps.py'], [('payload', 'src/uvm/tlm2/uvm_tlm2_generic_payload.py')])
prop('C33', 'Pools and queues behave as maps and sequences',
     '''A pool holds one value per key: add replaces, delete removes exactly that key, exists and num reflect the contents, and first/next/last/prev walk the keys without skipping or repeating. A queue keeps
     insertion order: front and back pushes and pops act on the named end, insert and delete act at the given index only, and sizes always equal the number of items held.''',
     ['histories', 'inputs'], 'all operation sequences', 'tests check a few operations',
     [B + 'uvm_pool.py', B + 'uvm_queue.py'], [('pool', B + 'uvm_pool.py'), ('queue', B + 'uvm_queue.py')])
prop('C34', 'No coroutine is created and then dropped',
     '''Every call of a time-consuming library operation made inside the library is either waited for, started as its own process, returned or handed to a caller that waits for it, so
     that no blocking step is skipped silently; only what can be waited for is awaited or started, and hooks that may wait are waited for. No non-blocking operation waits, an override waits exactly when the method it replaces does, and library code never blocks the simulator while waiting.''',
     ['programs', 'schedules'], 'every call site in the library', 'a dropped coroutine only shows on the path that reaches it',
     ['src/uvm'], [('await discipline', 'src/uvm')],
     tech='resolved call-graph rule: every call of a coroutine function is awaited, spawned or returned',
     note='Static rule over every call site, override and loop of src/uvm in the current source. A call whose receiver cannot be resolved and whose name is defined both as coroutine and as plain function is left undecided (the evidence counts them). '
          'Trusts the resolution of names and attribute types in lib/prog.py and checks/C34.py.')
prop('C35', 'Comparators match every pair once and in order',
     '''An in-order comparator pairs the n-th item of each stream, counts every pair as exactly one match or mismatch, forwards each pair
     that was compared, and never drops or compares an item twice. The class comparators use the item's own comparison, a pair of items is compared and copied by both members, and algorithmic
     comparison transforms the before stream exactly once per item.''',
     ['histories', 'schedules'], 'all stream interleavings', 'tests compare equal streams',
     ['src/uvm/comps/uvm_in_order_comparator.py', 'src/uvm/comps/uvm_algorithmic_comparator.py'], [('run', 'src/uvm/comps/uvm_in_order_comparator.py')])
prop('C36', 'Memory allocation never hands out overlapping regions',
     '''Regions reserved from a memory manager never overlap each other, stay within the configured address range, and become available again when released. A request that would
     break this is refused, and so is a reconfiguration that would leave a region outside the new range. Releasing
     everything empties the set of regions in use, and iteration visits each region in use once.''',
     ['histories', 'inputs'], 'all reserve/release sequences', 'no test reserves twice',
     [R + 'uvm_mem_mam.py'], [('reserve', R + 'uvm_mem_mam.py')])
prop('C37', 'Indirect registers access the register their index selects',
     '''An access through the front door of an indirectly mapped register writes that register's own index to the index register and then reads or writes the data register
     with the value of the access, under the locks of both, which are released on every way out, with the status of the access. A prediction on the data register
     reaches the register that the index register selects, an index beyond the table is an error, and update or mirror of a data register never access the bus.''',
     ['inputs', 'schedules'], 'all tables, indices and access sequences', 'no test accesses an indirect register',
     [R + 'uvm_reg_indirect.py', R + 'uvm_reg_item.py'], [('front door', R + 'uvm_reg_indirect.py:uvm_reg_indirect_ftdr_seq')])
prop('C38', 'A register FIFO mirrors the hardware FIFO',
     '''Each value written to or set in a register FIFO enters its abstract FIFO once, in order, unless it is full, each read prediction takes the oldest value out and compares it, and update writes each value that was set since the last
     update once. A write to a full FIFO, a read from an empty one, and a write before a pending update are refused, and the number of entries never exceeds the capacity.''',
     ['histories', 'inputs'], 'all access sequences', 'the test fills and drains the FIFO once',
     [R + 'uvm_reg_fifo.py'], [('prediction', R + 'uvm_reg_fifo.py:do_predict')])
prop('C39', 'Memory accesses stay inside the memory and take the requested path',
     '''Every access of a memory that starts or ends outside it, or that no map or data path can carry, is refused with a failing status and has no other effect. An accepted read, write or burst runs
     the pre hook and callbacks, then the requested front door or back door exactly once, samples coverage of exactly the locations accessed, runs the post hook and callbacks, and reports
     its status and data; a refusal by a pre hook stops it. Access rights combine those of the memory and of the map, and peek and poke go through the back door only.''',
     ['inputs', 'schedules'], 'all offsets, burst lengths, maps and paths', 'tests read and write single locations of one memory in one map',
     [R + 'uvm_mem.py'], [('checks', R + 'uvm_mem.py:Xcheck_accessX'), ('protocol', R + 'uvm_mem.py:do_write,do_read')])
prop('C40', 'HDL paths and back-door accesses reach every slice of the element',
     '''The full HDL paths of a block, register or memory are every combination of its own paths with those of its enclosing blocks up to the root, for the requested design abstraction only.
     A back-door write deposits in each slice of each path exactly the bits of the value that belong to it, a read assembles the value from all slices and fails when the paths disagree, and a
     failed HDL access fails the whole access. A user-defined back door found in the element or the nearest enclosing block is used in place of it, with its callbacks run to completion around each access.''',
     ['inputs', 'configurations'], 'all hierarchies, slicings and values', 'no test uses slices or nested paths',
     [R + 'uvm_reg.py', R + 'uvm_mem.py', R + 'uvm_reg_block.py', R + 'uvm_reg_backdoor.py', R + 'uvm_reg_model.py'],
     [('paths', R + 'uvm_reg.py:get_full_hdl_path'), ('slices', R + 'uvm_reg.py:backdoor_write,backdoor_read_func')])
prop('N01', 'Packed values round-trip numerically',
     '''Unpacking what was packed yields the same values for every field type, width and endianness.''',
     ['inputs'], 'all values and widths', 'values are unbounded', [B + 'uvm_packer.py'], [('bits', B + 'uvm_packer.py')],
     na='numeric round trip over unbounded values: its truth is in bit arithmetic on runtime values, not in the shape of the code; the structural part (cursor and width agreement) is claimed as C29')
prop('N02', 'Random arbitration and library selection reach every candidate',
     '''Every eligible sequence can be picked by random and weighted arbitration with its documented probability.''',
     ['schedules'], 'all random draws', 'probabilities cannot be sampled exhaustively', [S + 'uvm_sequencer_base.py', S + 'uvm_sequence_library.py'], [('select', S)],
     na='a statement about distributions of runtime draws; no sound static argument in reach bounds it')
prop('N03', 'Simulated time advances exactly as requested and the run terminates',
     '''Every wait consumes exactly the requested simulated time and every phase eventually ends when its objections are dropped.''',
     ['schedules'], 'all schedules', 'liveness and timing', [B + 'uvm_root.py', B + 'uvm_phase.py'], [('timing', B)],
     na='liveness and timing depend on the simulator scheduler outside the repository; the safety parts are claimed in C02, C10 and C34')
prop('N04', 'Glob and regular-expression matching accept exactly the documented language',
     '''A glob or regular expression scope matches exactly the names its documented pattern language says.''',
     ['inputs'], 'all patterns and names', 'infinite language', [B + 'sv.py', B + 'uvm_globals.py'], [('match', 'src/uvm/dpi')],
     na='equality of two string languages through a runtime-built regular expression; values handed to the re library are not bounded by the shape of the code')
