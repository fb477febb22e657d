
@contract('UVMSequenceBase.__init__', ret=False)
def __init__(self, name='uvm_sequence'):
    UVMSequenceItem.__init__(self, name)
    self.m_sequence_state = UVM_CREATED
    self.m_wait_for_grant_semaphore = 0
    self.m_init_phase_daps(1)
    self.m_next_transaction_id = 1
    self.m_priority = -1
    self.m_tr_recorder = None
    self.m_sqr_seq_ids = UVMPool()
    self.children_array = {}
    self.response_queue = SeqItemQueue()
    self.response_queue_depth = 8
    self.response_queue_error_report_disabled = False
    self.is_rel_default = False
    self.wait_rel_default = False
    self.m_sequence_process = None
    self.m_use_response_handler = False
    self.m_resp_queue_event = Event('resp_queue_event')
    self.m_resp_queue_event.clear()
    self.m_state_event = Event('state_event')
    self.do_not_randomize = 0


@contract('UVMSequenceBase.is_item', ret='bool')
def is_item(self):
    return False


@contract('UVMSequenceBase.get_sequence_state')
def get_sequence_state(self):
    return self.m_sequence_state


@contract('UVMSequenceBase.wait_for_sequence_state')
async def wait_for_sequence_state(self, state_mask):
    await wait(lambda: self.m_sequence_state & state_mask != 0, self.m_state_event)


@contract('UVMSequenceBase.m_set_sequence_state')
def m_set_sequence_state(self, state):
    self.m_sequence_state = state
    self.m_state_event.set()


@contract('UVMSequenceBase.start')
async def start(self, sequencer, parent_sequence=None, this_priority=-1, call_pre_post=1):
    old_automatic_phase_objection = False
    self.set_item_context(parent_sequence, sequencer)
    if not self.m_sequence_state in [UVM_CREATED, UVM_STOPPED, UVM_FINISHED]:
        uvm_fatal('SEQ_NOT_DONE', '')
    if self.m_parent_sequence is not None:
        self.m_parent_sequence.children_array[self] = 1
    if this_priority < -1:
        uvm_fatal('SEQPRI', '')
    if this_priority < 0:
        if parent_sequence is None:
            this_priority = 100
        else:
            this_priority = parent_sequence.get_priority()
    self.clear_response_queue()
    self.m_priority = this_priority
    if self.m_sequencer is not None:
        handle = 0
        stream = None
        if self.m_parent_sequence is None:
            stream = self.m_sequencer.get_tr_stream(self.get_name(), 'Transactions')
            handle = self.m_sequencer.begin_tr(self, self.get_name())
            self.m_tr_recorder = UVMRecorder.get_recorder_from_handle(handle)
        else:
            stream = self.m_sequencer.get_tr_stream(self.get_root_sequence_name(), 'Transactions')
            val = 0
            if self.m_parent_sequence.m_tr_recorder is not None:
                val = self.m_parent_sequence.m_tr_recorder.get_handle()
            handle = self.m_sequencer.begin_child_tr(self, val, self.get_root_sequence_name())
            self.m_tr_recorder = UVMRecorder.get_recorder_from_handle(handle)
    self.set_sequence_id(-1)
    self.m_sqr_seq_ids.delete()
    if self.m_sequencer is not None:
        self.m_sequencer.m_register_sequence(self)
    self.m_set_sequence_state(UVM_PRE_START)
    self.m_sequence_process = cocotb.start_soon(self.start_process(parent_sequence, call_pre_post))
    await self.m_sequence_process
    if self.m_sequencer is not None:
        self.m_sequencer.end_tr(self)
    if self.m_sequence_state != UVM_STOPPED:
        if self.m_sequencer is not None:
            self.m_sequencer.m_sequence_exiting(self)
    await uvm_zero_delay()
    if self.m_parent_sequence is not None and self in self.m_parent_sequence.children_array:
        del self.m_parent_sequence.children_array[self]
    old_automatic_phase_objection = self.get_automatic_phase_objection()
    self.m_init_phase_daps(1)
    self.set_automatic_phase_objection(old_automatic_phase_objection)


@contract('UVMSequenceBase.start_process')
async def start_process(self, parent_sequence, call_pre_post):
    await uvm_zero_delay()
    if self.get_automatic_phase_objection():
        self.m_safe_raise_starting_phase('automatic phase objection')
    await self.pre_start()
    if call_pre_post == 1:
        self.m_set_sequence_state(UVM_PRE_BODY)
        await uvm_zero_delay()
        await self.pre_body()
    if parent_sequence is not None:
        parent_sequence.pre_do(0)
        parent_sequence.mid_do(self)
    self.m_set_sequence_state(UVM_BODY)
    await uvm_zero_delay()
    await self.body()
    self.m_set_sequence_state(UVM_ENDED)
    await uvm_zero_delay()
    if parent_sequence is not None:
        parent_sequence.post_do(self)
    if call_pre_post == 1:
        self.m_set_sequence_state(UVM_POST_BODY)
        await uvm_zero_delay()
        await self.post_body()
    self.m_set_sequence_state(UVM_POST_START)
    await uvm_zero_delay()
    await self.post_start()
    if self.get_automatic_phase_objection():
        self.m_safe_drop_starting_phase('automatic phase objection')
    self.m_set_sequence_state(UVM_FINISHED)
    await uvm_zero_delay()


@contract('UVMSequenceBase.pre_start')
async def pre_start(self):
    return


@contract('UVMSequenceBase.pre_body')
async def pre_body(self):
    return


@contract('UVMSequenceBase.pre_do')
def pre_do(self, is_item):
    return


@contract('UVMSequenceBase.mid_do')
def mid_do(self, this_item):
    return


@contract('UVMSequenceBase.body')
async def body(self):
    uvm_warning('uvm_sequence_base', '')
    await uvm_zero_delay()


@contract('UVMSequenceBase.post_do')
def post_do(self, this_item):
    return


@contract('UVMSequenceBase.post_body')
async def post_body(self):
    return


@contract('UVMSequenceBase.post_start')
async def post_start(self):
    return


@contract('UVMSequenceBase.m_init_phase_daps')
def m_init_phase_daps(self, create):
    apo_name = sv.sformatf('%s.automatic_phase_objection', self.get_full_name())
    sp_name = sv.sformatf('%s.starting_phase', self.get_full_name())
    if create:
        self.m_automatic_phase_objection_dap = uvm_get_to_lock_dap.type_id.create(apo_name, self.get_sequencer())
        self.m_starting_phase_dap = uvm_get_to_lock_dap.type_id.create(sp_name, self.get_sequencer())
    else:
        self.m_automatic_phase_objection_dap.set_name(apo_name)
        self.m_starting_phase_dap.set_name(sp_name)


@contract('UVMSequenceBase.get_starting_phase')
def get_starting_phase(self):
    return self.m_starting_phase_dap.get()


@contract('UVMSequenceBase.set_starting_phase')
def set_starting_phase(self, phase):
    self.m_starting_phase_dap.set(phase)


@contract('UVMSequenceBase.set_automatic_phase_objection')
def set_automatic_phase_objection(self, value):
    self.m_automatic_phase_objection_dap.set(value)


@contract('UVMSequenceBase.get_automatic_phase_objection')
def get_automatic_phase_objection(self):
    return self.m_automatic_phase_objection_dap.get()


@contract('UVMSequenceBase.m_safe_raise_starting_phase')
def m_safe_raise_starting_phase(self, description='', count=1):
    starting_phase = self.get_starting_phase()
    if starting_phase is not None:
        starting_phase.raise_objection(self, description, count)


@contract('UVMSequenceBase.m_safe_drop_starting_phase')
def m_safe_drop_starting_phase(self, description='', count=1):
    starting_phase = self.get_starting_phase()
    if starting_phase is not None:
        starting_phase.drop_objection(self, description, count)


@contract('UVMSequenceBase.kill')
def kill(self):
    if self.m_sequence_process is not None:
        if self.m_sequencer is None:
            self.m_kill()
        else:
            self.m_sequencer.kill_sequence(self)
        if self.get_automatic_phase_objection():
            self.m_safe_drop_starting_phase('automatic phase objection')


@contract('UVMSequenceBase.m_kill')
def m_kill(self):
    self.do_kill()
    for child in list(self.children_array):
        child.kill()
    if self.m_sequence_process is not None:
        self.m_sequence_process.kill()
        self.m_sequence_process = None
    self.m_set_sequence_state(UVM_STOPPED)
    if self.m_parent_sequence is not None and self in self.m_parent_sequence.children_array:
        del self.m_parent_sequence.children_array[self]


@contract('UVMSequenceBase.do_kill')
def do_kill(self):
    return


@contract('UVMSequenceBase.create_item')
def create_item(self, type_var, l_sequencer, name):
    from ..base.uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    factory = cs.get_factory()
    item = factory.create_object_by_type(type_var, self.get_full_name(), name)
    item.set_item_context(self, l_sequencer)
    return item


@contract('UVMSequenceBase.start_item')
async def start_item(self, item, set_priority=-1, sequencer=None):
    seq = None
    if item is None:
        uvm_fatal('NoneITM', '')
        return
    seq = item
    if sequencer is None:
        sequencer = item.get_sequencer()
    if sequencer is None:
        sequencer = self.get_sequencer()
    if sequencer is None:
        uvm_fatal('SEQ', '')
        return
    item.set_item_context(self, sequencer)
    if set_priority < 0:
        set_priority = self.get_priority()
    await sequencer.wait_for_grant(self, set_priority)
    self.pre_do(1)


@contract('UVMSequenceBase.finish_item')
async def finish_item(self, item, set_priority=-1):
    sequencer = item.get_sequencer()
    if sequencer is None:
        uvm_fatal('STRITM', '')
    self.mid_do(item)
    sequencer.send_request(self, item)
    await sequencer.wait_for_item_done(self, -1)
    sequencer.end_tr(item)
    self.post_do(item)


@contract('UVMSequencerBase.stop_sequences')
def stop_sequences(self):
    seq_ptr = self.m_find_sequence(-1)
    while seq_ptr is not None:
        self.kill_sequence(seq_ptr)
        seq_ptr = self.m_find_sequence(-1)


@contract('UVMSequencerBase.kill_sequence')
def kill_sequence(self, sequence_ptr):
    self.remove_sequence_from_queues(sequence_ptr)
    sequence_ptr.m_kill()


@contract('UVMSequencerBase.start_phase_sequence', ret=False)
async def start_phase_sequence(self, phase):
    rp = UVMResourcePool.get()
    rq = []
    seq = None
    from ..base.uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    f = cs.get_factory()
    rq = rp.lookup_name(self.get_full_name() + '.' + phase.get_name() + '_phase', 'default_sequence', None, 0)
    rq = UVMResourcePool.sort_by_precedence(rq)
    for i in range(len(rq)):
        if seq is not None:
            break
        rsrc = rq[i]
        value = rsrc.read(self)
        if value is None:
            await uvm_zero_delay()
            return
        if isinstance(value, UVMSequenceBase):
            seq = value
        elif isinstance(value, UVMObjectWrapper):
            new_obj = f.create_object_by_type(value, self.get_full_name(), value.get_type_name())
            if not isinstance(new_obj, UVMSequenceBase):
                uvm_warning('PHASESEQ', '')
                await uvm_zero_delay()
                return
            seq = new_obj
    if seq is None:
        await uvm_zero_delay()
        return
    seq.print_sequence_info = 1
    seq.set_sequencer(self)
    seq.reseed()
    seq.set_starting_phase(phase)
    if not seq.do_not_randomize and (not seq.randomize()):
        uvm_warning('STRDEFSEQ', '')
        await uvm_zero_delay()
        return
    cocotb.start_soon(self._seq_fork_proc(seq, phase))
    await uvm_zero_delay()


@contract('UVMSequencerBase._seq_fork_proc')
async def _seq_fork_proc(self, seq, phase):
    w = uvm_sequence_process_wrapper()
    w.seq = seq
    self.m_default_sequences[phase] = w
    await seq.start(self)
    self.m_default_sequences.delete(phase)


@contract('UVMSequencerBase.stop_phase_sequence')
def stop_phase_sequence(self, phase):
    if self.m_default_sequences.exists(phase):
        self.m_default_sequences[phase].seq.kill()


@contract('UVMSequenceItem.__init__', ret=False)
def __init__(self, name='UVMSequenceItem'):
    UVMTransaction.__init__(self, name)
    self.m_sequence_id = -1
    self.m_use_sequence_info = False
    self.m_depth = -1
    self.m_sequencer = None
    self.p_sequencer = None
    self.m_parent_sequence = None
    self.print_sequence_info = False


@contract('UVMSequenceItem.set_sequence_id')
def set_sequence_id(self, id):
    self.m_sequence_id = id


@contract('UVMSequenceItem.get_sequence_id')
def get_sequence_id(self):
    return self.m_sequence_id


@contract('UVMSequenceItem.set_item_context')
def set_item_context(self, parent_seq, sequencer=None):
    self.set_use_sequence_info(1)
    if parent_seq is not None:
        self.set_parent_sequence(parent_seq)
    if sequencer is None and self.m_parent_sequence is not None:
        sequencer = self.m_parent_sequence.get_sequencer()
    self.set_sequencer(sequencer)
    if self.m_parent_sequence is not None:
        self.set_depth(self.m_parent_sequence.get_depth() + 1)
    self.reseed()


@contract('UVMSequenceItem.set_use_sequence_info')
def set_use_sequence_info(self, value):
    self.m_use_sequence_info = value


@contract('UVMSequenceItem.get_use_sequence_info')
def get_use_sequence_info(self):
    return self.m_use_sequence_info


@contract('UVMSequenceItem.set_id_info')
def set_id_info(self, item):
    if item is None:
        uvm_report_fatal(self.get_full_name(), '', UVM_NONE)
    self.set_transaction_id(item.get_transaction_id())
    self.set_sequence_id(item.get_sequence_id())


@contract('UVMSequenceItem.set_sequencer')
def set_sequencer(self, sequencer):
    self.m_sequencer = sequencer
    self.m_set_p_sequencer()


@contract('UVMSequenceItem.get_sequencer')
def get_sequencer(self):
    return self.m_sequencer


@contract('UVMSequenceItem.set_parent_sequence')
def set_parent_sequence(self, parent):
    self.m_parent_sequence = parent


@contract('UVMSequenceItem.get_parent_sequence')
def get_parent_sequence(self):
    return self.m_parent_sequence


@contract('UVMSequenceItem.set_depth')
def set_depth(self, value):
    self.m_depth = value


@contract('UVMSequenceItem.get_depth')
def get_depth(self):
    if self.m_depth != -1:
        return self.m_depth
    if self.m_parent_sequence is None:
        self.m_depth = 1
    else:
        self.m_depth = self.m_parent_sequence.get_depth() + 1
    return self.m_depth


@contract('UVMSequenceItem.is_item', ret='bool')
def is_item(self):
    return True


@contract('UVMSequenceItem.get_full_name')
def get_full_name(self):
    get_full_name = ''
    if self.m_parent_sequence is not None:
        get_full_name = self.m_parent_sequence.get_full_name() + '.'
    elif self.m_sequencer is not None:
        get_full_name = self.m_sequencer.get_full_name() + '.'
    if self.get_name() != '':
        get_full_name = get_full_name + self.get_name()
    else:
        get_full_name = get_full_name + '_item'
    return get_full_name


@contract('UVMSequenceItem.get_root_sequence_name')
def get_root_sequence_name(self):
    root_seq = self.get_root_sequence()
    if root_seq is None:
        return ''
    else:
        return root_seq.get_name()


@contract('UVMSequenceItem.get_root_sequence')
def get_root_sequence(self):
    root_seq_base = None
    root_seq = None
    root_seq_base = self
    while True:
        if root_seq_base.get_parent_sequence() is not None:
            root_seq_base = root_seq_base.get_parent_sequence()
            root_seq = root_seq_base
        else:
            return root_seq


@contract('UVMSequenceItem.get_sequence_path')
def get_sequence_path(self):
    this_item = None
    seq_path = ''
    this_item = self
    seq_path = self.get_name()
    while True:
        if this_item.get_parent_sequence() is not None:
            this_item = this_item.get_parent_sequence()
            seq_path = this_item.get_name() + '.' + seq_path
        else:
            return seq_path


@contract('UVMSequenceItem.m_set_p_sequencer')
def m_set_p_sequencer(self):
    self.p_sequencer = self.m_sequencer


@contract('uvm.macros.uvm_sequence_defines:uvm_create')
def uvm_create(seq_obj, SEQ_OR_ITEM, m_sequencer):
    return uvm_create_on(seq_obj, SEQ_OR_ITEM, m_sequencer)


@contract('uvm.macros.uvm_sequence_defines:uvm_create_on')
def uvm_create_on(seq_obj, SEQ_OR_ITEM, SEQR):
    w_ = SEQ_OR_ITEM.get_type()
    if w_ is None:
        uvm_fatal('uvm_create_on', '')
        return None
    else:
        return seq_obj.create_item(w_, SEQR, 'SEQ_OR_ITEM')


@contract('uvm.macros.uvm_sequence_defines:uvm_do')
async def uvm_do(seq_obj, SEQ_OR_ITEM):
    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, seq_obj.m_sequencer, -1, lambda: True)


@contract('uvm.macros.uvm_sequence_defines:uvm_do_with')
async def uvm_do_with(seq_obj, SEQ_OR_ITEM, *CONSTRAINTS):
    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, seq_obj.m_sequencer, -1, *CONSTRAINTS)


@contract('uvm.macros.uvm_sequence_defines:uvm_do_pri_with')
async def uvm_do_pri_with(seq_obj, SEQ_OR_ITEM, PRIORITY, *CONSTRAINTS):
    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, seq_obj.m_sequencer, PRIORITY, *CONSTRAINTS)


@contract('uvm.macros.uvm_sequence_defines:uvm_do_on')
async def uvm_do_on(seq_obj, SEQ_OR_ITEM, SEQR):
    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1, lambda: True)


@contract('uvm.macros.uvm_sequence_defines:uvm_do_on_with')
async def uvm_do_on_with(seq_obj, SEQ_OR_ITEM, SEQR, *CONSTRAINTS):
    await uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, -1, *CONSTRAINTS)


@contract('uvm.macros.uvm_sequence_defines:uvm_do_on_pri_with')
async def uvm_do_on_pri_with(seq_obj, SEQ_OR_ITEM, SEQR, PRIORITY, *CONSTRAINTS):
    from ..seq.uvm_sequence import UVMSequence
    _seq = uvm_create_on(seq_obj, SEQ_OR_ITEM, SEQR)
    if isinstance(_seq, UVMSequence):
        if SEQ_OR_ITEM.do_not_randomize == 0:
            if SEQ_OR_ITEM.randomize_with(*CONSTRAINTS) is False:
                uvm_warning('RNDFLD', '')
        await SEQ_OR_ITEM.start(SEQR, seq_obj, PRIORITY, 0)
    else:
        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY, SEQR)
        if SEQ_OR_ITEM.randomize_with(*CONSTRAINTS) is False:
            uvm_warning('RNDFLD', '')
        await seq_obj.finish_item(SEQ_OR_ITEM, PRIORITY)


@contract('uvm.macros.uvm_sequence_defines:uvm_send')
async def uvm_send(seq_obj, SEQ_OR_ITEM):
    await uvm_send_pri(seq_obj, SEQ_OR_ITEM, -1)


@contract('uvm.macros.uvm_sequence_defines:uvm_send_pri')
async def uvm_send_pri(seq_obj, SEQ_OR_ITEM, PRIORITY):
    from ..seq.uvm_sequence import UVMSequence
    _seq = SEQ_OR_ITEM
    if isinstance(_seq, UVMSequence):
        await _seq.start(_seq.get_sequencer(), seq_obj, PRIORITY, 0)
    else:
        await seq_obj.start_item(SEQ_OR_ITEM, PRIORITY)
        await seq_obj.finish_item(SEQ_OR_ITEM, PRIORITY)

