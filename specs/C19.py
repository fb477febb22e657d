
@contract('uvm_sequence_request.__init__')
def __init__(self):
    self.grant = False
    self.sequence_id = 0
    self.request_id = 0
    self.item_priority = 0
    self.process_id = process()
    self.request = None
    self.sequence_ptr = None


@contract('UVMSequencerBase.__init__', ret=False)
def __init__(self, name, parent):
    UVMComponent.__init__(self, name, parent)
    self.m_sequencer_id = UVMSequencerBase.g_sequencer_id
    UVMSequencerBase.g_sequencer_id += 1
    self.m_lock_arb_size = -1
    self.m_default_sequences = UVMPool()
    self.arb_sequence_q = SeqReqQueue()
    self.lock_list = UVMQueue[UVMSequenceBase]()
    self.m_arbitration = UVM_SEQ_ARB_FIFO
    self.m_lock_arb_size = 0
    self.m_arb_size = 0
    self.m_event_value_changed = Event('event_value_changed')
    self.reg_sequences = UVMPool()
    self.arb_completed = UVMPool()
    self.m_auto_item_recording = False
    self.m_is_relevant_completed = 0
    self.m_wait_for_item_sequence_id = 0
    self.m_wait_for_item_transaction_id = 0
    self.m_wait_relevant_count = 0
    self.m_max_zero_time_wait_relevant_count = 10
    self.m_last_wait_relevant_time = 0


@contract('UVMSequencerBase.is_child', ret='bool')
def is_child(self, parent, child):
    child_parent = None
    if child is None:
        self.uvm_report_fatal('uvm_sequencer', '', UVM_NONE)
    if parent is None:
        self.uvm_report_fatal('uvm_sequencer', '', UVM_NONE)
    child_parent = child.get_parent_sequence()
    while child_parent is not None:
        if child_parent.get_inst_id() == parent.get_inst_id():
            return True
        child_parent = child_parent.get_parent_sequence()
    return False


@contract('UVMSequencerBase.user_priority_arbitration')
def user_priority_arbitration(self, avail_sequences):
    return avail_sequences[0]


@contract('UVMSequencerBase.execute_item')
async def execute_item(self, item):
    seq = UVMSequenceBase()
    item.set_sequencer(self)
    item.set_parent_sequence(seq)
    seq.set_sequencer(self)
    await seq.start_item(item)
    await seq.finish_item(item)


@contract('UVMSequencerBase.wait_for_grant')
async def wait_for_grant(self, sequence_ptr, item_priority=-1, lock_request=0):
    req_s = None
    my_seq_id = 0
    if sequence_ptr is None:
        self.uvm_report_fatal('uvm_sequencer', '', UVM_NONE)
    my_seq_id = self.m_register_sequence(sequence_ptr)
    if lock_request == 1:
        req_s = uvm_sequence_request()
        req_s.grant = 0
        req_s.sequence_id = my_seq_id
        req_s.request = SEQ_TYPE_LOCK
        req_s.sequence_ptr = sequence_ptr
        req_s.request_id = UVMSequencerBase.g_request_id
        UVMSequencerBase.g_request_id += 1
        self.arb_sequence_q.push_back(req_s)
    req_s = uvm_sequence_request()
    req_s.grant = 0
    req_s.request = SEQ_TYPE_REQ
    req_s.sequence_id = my_seq_id
    req_s.item_priority = item_priority
    req_s.sequence_ptr = sequence_ptr
    req_s.request_id = UVMSequencerBase.g_request_id
    UVMSequencerBase.g_request_id += 1
    self.arb_sequence_q.push_back(req_s)
    self.m_update_lists()
    await self.m_wait_for_arbitration_completed(req_s.request_id)
    req_s.sequence_ptr.m_wait_for_grant_semaphore += 1


@contract('UVMSequencerBase.is_blocked', ret='bool')
def is_blocked(self, sequence_ptr):
    if sequence_ptr is None:
        uvm_report_fatal('uvm_sequence_controller', '', UVM_NONE)
    for i in range(len(self.lock_list)):
        if self.lock_list.get(i).get_inst_id() != sequence_ptr.get_inst_id() and self.is_child(self.lock_list.get(i), sequence_ptr) == 0:
            return 1
    return 0


@contract('UVMSequencerBase.has_lock', ret='bool')
def has_lock(self, sequence_ptr):
    if sequence_ptr is None:
        uvm_report_fatal('uvm_sequence_controller', '', UVM_NONE)
    for i in range(len(self.lock_list)):
        if self.lock_list.get(i).get_inst_id() == sequence_ptr.get_inst_id():
            return 1
    return 0


@contract('UVMSequencerBase.is_grabbed', ret='bool')
def is_grabbed(self):
    return self.lock_list.size() != 0


@contract('UVMSequencerBase.set_arbitration')
def set_arbitration(self, val):
    self.m_arbitration = val


@contract('UVMSequencerBase.get_arbitration')
def get_arbitration(self):
    return self.m_arbitration


@contract('UVMSequencerBase.wait_for_sequences')
async def wait_for_sequences(self):
    await uvm_wait_for_nba_region()


@contract('UVMSequencerBase.set_max_zero_time_wait_relevant_count')
def set_max_zero_time_wait_relevant_count(self, new_val):
    self.m_max_zero_time_wait_relevant_count = new_val


@contract('UVMSequencerBase.grant_queued_locks')
def grant_queued_locks(self):
    q = []
    def find_with_func(item):
        return item.request == SEQ_TYPE_LOCK and item.process_id.status == process.KILLED or item.process_id.status == process.FINISHED
    q = self.arb_sequence_q.find_with(find_with_func)
    for idx in range(len(q)):
        uvm_error('SEQLCKZMB', '')
        self.remove_sequence_from_queues(q.get(idx).sequence_ptr)
    blocked_seqs = UVMQueue()
    not_blocked_seqs = UVMQueue()
    b = self.arb_sequence_q.size()
    def find_func(item):
        return item.request != SEQ_TYPE_LOCK
    idx = self.arb_sequence_q.find_first_index(find_func)
    if idx >= 0:
        b = idx
    if b != 0:
        leading_lock_reqs = cast(SeqReqList, self.arb_sequence_q[0:b])
        for i in range(len(leading_lock_reqs)):
            item = leading_lock_reqs[i]
            if self.is_blocked(item.sequence_ptr) != 0:
                blocked_seqs.push_back(item)
            else:
                not_blocked_seqs.push_back(item)
        if b > self.arb_sequence_q.size() - 1:
            self.arb_sequence_q = blocked_seqs
        else:
            bseqs = cast(SeqReqList, self.arb_sequence_q[b:])
            for seq in bseqs:
                blocked_seqs.push_back(seq)
            self.arb_sequence_q = blocked_seqs
        for idx in range(len(not_blocked_seqs)):
            self.lock_list.push_back(not_blocked_seqs.get(idx).sequence_ptr)
            self.m_set_arbitration_completed(not_blocked_seqs.get(idx).request_id)
        if not_blocked_seqs.size():
            self.m_update_lists()


@contract('UVMSequencerBase.m_select_sequence')
async def m_select_sequence(self):
    selected_sequence = 0
    while True:
        await self.wait_for_sequences()
        selected_sequence = self.m_choose_next_request()
        if selected_sequence == -1:
            await self.m_wait_for_available_sequence()
        if selected_sequence != -1:
            break
    if selected_sequence >= 0:
        self.m_set_arbitration_completed(self.arb_sequence_q.get(selected_sequence).request_id)
        self.arb_sequence_q.delete(selected_sequence)
        self.m_update_lists()


@contract('UVMSequencerBase.m_choose_next_request')
def m_choose_next_request(self):
    i = 0
    temp = 0
    avail_sequence_count = 0
    sum_priority_val = 0
    avail_sequences = UVMQueue()
    highest_sequences = UVMQueue()
    highest_pri = 0
    s = ''
    self.grant_queued_locks()
    i = 0
    while i < self.arb_sequence_q.size():
        if self.arb_sequence_q.get(i).process_id.status == process.KILLED or self.arb_sequence_q.get(i).process_id.status == process.FINISHED:
            uvm_error('SEQREQZMB', '')
            self.remove_sequence_from_queues(self.arb_sequence_q.get(i).sequence_ptr)
            continue
        if i < self.arb_sequence_q.size():
            if self.arb_sequence_q.get(i).request == SEQ_TYPE_REQ:
                if self.is_blocked(self.arb_sequence_q.get(i).sequence_ptr) == 0:
                    if self.arb_sequence_q.get(i).sequence_ptr.is_relevant() == 1:
                        if self.m_arbitration == UVM_SEQ_ARB_FIFO:
                            return i
                        else:
                            avail_sequences.push_back(i)
        i += 1
    if self.m_arbitration == UVM_SEQ_ARB_FIFO:
        return -1
    if avail_sequences.size() < 1:
        return -1
    if avail_sequences.size() == 1:
        return cast(int, avail_sequences[0])
    if self.lock_list.size() > 0:
        for i in range(len(avail_sequences)):
            idx = avail_sequences.get(i)
            if self.is_blocked(self.arb_sequence_q.get(idx).sequence_ptr) != 0:
                avail_sequences.delete(i)
                i -= 1
        if avail_sequences.size() < 1:
            return -1
        if avail_sequences.size() == 1:
            return cast(int, avail_sequences[0])
    if self.m_arbitration == UVM_SEQ_ARB_RANDOM:
        i = sv.urandom_range(0, avail_sequences.size() - 1)
        return cast(int, avail_sequences[i])
    uvm_fatal('Sequencer', '')
    return -1


@contract('UVMSequencerBase.m_wait_for_arbitration_completed')
async def m_wait_for_arbitration_completed(self, request_id):
    lock_arb_size = 0
    while True:
        lock_arb_size = self.m_lock_arb_size
        if self.arb_completed.exists(request_id):
            self.arb_completed.delete(request_id)
            return
        await wait(lambda: lock_arb_size != self.m_lock_arb_size, self.m_event_value_changed)


@contract('UVMSequencerBase.m_set_arbitration_completed')
def m_set_arbitration_completed(self, request_id):
    self.arb_completed[request_id] = 1


@contract('UVMSequencerBase.remove_sequence_from_queues')
def remove_sequence_from_queues(self, sequence_ptr):
    i = 0
    seq_id = sequence_ptr.m_get_sqr_sequence_id(self.m_sequencer_id, 0)
    while True:
        if self.arb_sequence_q.size() > i:
            if self.arb_sequence_q.get(i).sequence_id == seq_id or self.is_child(sequence_ptr, self.arb_sequence_q.get(i).sequence_ptr):
                if sequence_ptr.get_sequence_state() == UVM_FINISHED:
                    uvm_error('SEQFINERR', '')
                self.arb_sequence_q.delete(i)
                self.m_update_lists()
            else:
                i += 1
        if not i < self.arb_sequence_q.size():
            break
    i = 0
    while True:
        if self.lock_list.size() > i:
            if self.lock_list.get(i).get_inst_id() == sequence_ptr.get_inst_id() or self.is_child(sequence_ptr, self.lock_list.get(i)):
                if sequence_ptr.get_sequence_state() == UVM_FINISHED:
                    uvm_error('SEQFINERR', '')
                self.lock_list.delete(i)
                self.m_update_lists()
            else:
                i += 1
        if not i < self.lock_list.size():
            break
    self.m_unregister_sequence(sequence_ptr.m_get_sqr_sequence_id(self.m_sequencer_id, 1))


@contract('UVMSequencerBase.m_sequence_exiting')
def m_sequence_exiting(self, sequence_ptr):
    self.remove_sequence_from_queues(sequence_ptr)


@contract('UVMSequencerBase.m_register_sequence')
def m_register_sequence(self, sequence_ptr):
    if sequence_ptr.m_get_sqr_sequence_id(self.m_sequencer_id, 1) > 0:
        return sequence_ptr.get_sequence_id()
    sequence_ptr.m_set_sqr_sequence_id(self.m_sequencer_id, UVMSequencerBase.g_sequence_id)
    UVMSequencerBase.g_sequence_id += 1
    self.reg_sequences[sequence_ptr.get_sequence_id()] = sequence_ptr
    return sequence_ptr.get_sequence_id()


@contract('UVMSequencerBase.m_unregister_sequence')
def m_unregister_sequence(self, sequence_id):
    if not self.reg_sequences.exists(sequence_id):
        return
    self.reg_sequences.delete(sequence_id)


@contract('UVMSequencerBase.m_find_sequence')
def m_find_sequence(self, sequence_id):
    if sequence_id == -1:
        if self.reg_sequences.has_first():
            return self.reg_sequences[self.reg_sequences.first()]
        return None
    if not self.reg_sequences.exists(sequence_id):
        return None
    return self.reg_sequences[sequence_id]


@contract('UVMSequencerBase.m_update_lists')
def m_update_lists(self):
    self.set_value('m_lock_arb_size', self.m_lock_arb_size + 1)


@contract('UVMSequencerBase.set_value')
def set_value(self, key, value):
    setattr(self, key, value)
    self.m_event_value_changed.set()


@contract('UVMSequencerBase.m_wait_arb_not_equal')
async def m_wait_arb_not_equal(self):
    await wait(lambda: self.m_arb_size != self.m_lock_arb_size, self.m_event_value_changed)


@contract('UVMSequencerBase.m_wait_for_available_sequence')
async def m_wait_for_available_sequence(self):
    i = 0
    is_relevant_entries = []
    self.set_value('m_arb_size', self.m_lock_arb_size)
    for i in range(len(self.arb_sequence_q)):
        if self.arb_sequence_q.get(i).request == SEQ_TYPE_REQ:
            if self.is_blocked(self.arb_sequence_q.get(i).sequence_ptr) == 0:
                if self.arb_sequence_q.get(i).sequence_ptr.is_relevant() == 0:
                    is_relevant_entries.append(i)
    if len(is_relevant_entries) == 0:
        await self.m_wait_arb_not_equal()
        return
    fork_first = cocotb.start_soon(self._fork_first_proc(is_relevant_entries))
    await fork_first


@contract('UVMSequencerBase._rel_entry_fork_proc')
async def _rel_entry_fork_proc(self, i, is_relevant_entries):
    k = i
    idx = is_relevant_entries[k]
    seq_req = self.arb_sequence_q.get(idx)
    if seq_req is not None and seq_req.sequence_ptr is not None:
        await seq_req.sequence_ptr.wait_for_relevant()
    else:
        uvm_fatal('SEQREQISNONE', '')
    if sv.realtime() != self.m_last_wait_relevant_time:
        self.m_last_wait_relevant_time = sv.realtime()
        self.m_wait_relevant_count = 0
    else:
        self.m_wait_relevant_count += 1
        if self.m_wait_relevant_count > self.m_max_zero_time_wait_relevant_count:
            uvm_fatal('SEQRELEVANTLOOP', '')
    self.set_value('m_is_relevant_completed', True)


@contract('UVMSequencerBase._fork_first_proc')
async def _fork_first_proc(self, is_relevant_entries):
    started_forks = []
    relevant_forks = []
    forked_proc1 = cocotb.start_soon(self._fork_first_proc_sub_fork1(is_relevant_entries, relevant_forks))
    started_forks.append(forked_proc1)
    forked_proc2 = cocotb.start_soon(self.m_wait_arb_not_equal())
    started_forks.append(forked_proc2)
    await sv.fork_join_any(started_forks)
    for p in started_forks + relevant_forks:
        p.kill()


@contract('UVMSequencerBase._fork_first_proc_sub_fork1')
async def _fork_first_proc_sub_fork1(self, is_relevant_entries, fork_procs_join_none):
    self.set_value('m_is_relevant_completed', False)
    for i in range(len(is_relevant_entries)):
        forked_proc = cocotb.start_soon(self._rel_entry_fork_proc(i, is_relevant_entries))
        fork_procs_join_none.append(forked_proc)
    await wait(lambda: self.m_is_relevant_completed > 0, self.m_event_value_changed)


@contract('UVMSequenceBase.is_blocked', ret='bool')
def is_blocked(self):
    return self.m_sequencer.is_blocked(self)


@contract('UVMSequenceBase.has_lock', ret='bool')
def has_lock(self):
    return self.m_sequencer.has_lock(self)


@contract('UVMSequenceBase.is_relevant', ret='bool')
def is_relevant(self):
    self.is_rel_default = True
    return 1


@contract('UVMSequenceBase.wait_for_relevant')
async def wait_for_relevant(self):
    e = Event('e')
    wait_rel_default = True
    if self.is_rel_default != wait_rel_default:
        uvm_fatal('RELMSM', '')
    await e.wait()


@contract('UVMSequenceBase.m_get_sqr_sequence_id')
def m_get_sqr_sequence_id(self, sequencer_id, update_sequence_id):
    if self.m_sqr_seq_ids.exists(sequencer_id):
        if update_sequence_id == 1:
            self.set_sequence_id(self.m_sqr_seq_ids[sequencer_id])
        return self.m_sqr_seq_ids[sequencer_id]
    if update_sequence_id == 1:
        self.set_sequence_id(-1)
    return -1


@contract('UVMSequenceBase.m_set_sqr_sequence_id')
def m_set_sqr_sequence_id(self, sequencer_id, sequence_id):
    self.m_sqr_seq_ids[sequencer_id] = sequence_id
    self.set_sequence_id(sequence_id)


@contract('UVMSequenceBase.get_priority')
def get_priority(self):
    return self.m_priority


@contract('UVMSequenceBase.set_priority')
def set_priority(self, value):
    self.m_priority = value

