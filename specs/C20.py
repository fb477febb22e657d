
@contract('UVMSequencer.__init__', ret=False)
def __init__(self, name, parent=None):
    UVMSequencerParamBase.__init__(self, name, parent)
    self.seq_item_export = UVMSeqItemPullImp('seq_item_export', self)
    self.sequence_item_requested = False
    self.get_next_item_called = False


@contract('UVMSequencer.get_next_item', report_calls=1)
async def get_next_item(self, t=None):
    if t is not None:
        uvm_check_output_args(t)
    if self.get_next_item_called is True:
        self.uvm_report_error(self.get_full_name(), 'Get_next_item called twice without item_done or get in between', UVM_NONE)
    if self.sequence_item_requested is False:
        await self.m_select_sequence()
    self.sequence_item_requested = True
    self.get_next_item_called = True
    return await self.m_req_fifo.peek(t)


@contract('UVMSequencer.try_next_item', report_calls=1)
async def try_next_item(self, t):
    if self.get_next_item_called == 1:
        uvm_report_error(self.get_full_name(), 'get_next_item/try_next_item called twice without item_done or get in between', UVM_NONE)
        return
    await self.wait_for_sequences()
    selected_sequence = self.m_choose_next_request()
    if selected_sequence == -1:
        return
    self.m_set_arbitration_completed(self.arb_sequence_q[selected_sequence].request_id)
    seq = self.arb_sequence_q[selected_sequence].sequence_ptr
    self.arb_sequence_q.delete(selected_sequence)
    self.m_update_lists()
    self.sequence_item_requested = True
    self.get_next_item_called = True
    await self.wait_for_sequences()
    if not self.m_req_fifo.try_peek(t):
        uvm_report_error('TRY_NEXT_BLOCKED', "try_next_item: the selected sequence '" + seq.get_full_name() + "' did not produce an item within an NBA delay. " + 'Sequences should not consume time between calls to start_item and finish_item. ' + 'Returning null item.', UVM_NONE)


@contract('UVMSequencer.item_done', report_calls=1, ret=False)
def item_done(self, item=None):
    t = []
    self.sequence_item_requested = False
    self.get_next_item_called = False
    if self.m_req_fifo.try_get(t) is False:
        self.uvm_report_fatal(self.get_full_name(), FATAL_MSG1)
    else:
        t = t[0]
        self.set_value('m_wait_for_item_sequence_id', t.get_sequence_id())
        self.set_value('m_wait_for_item_transaction_id', t.get_transaction_id())
    if item is not None:
        self.seq_item_export.put_response(item)
    self.grant_queued_locks()


@contract('UVMSequencer.get')
async def get(self, t=None):
    if self.sequence_item_requested == 0:
        await self.m_select_sequence()
    self.sequence_item_requested = 1
    res = await self.m_req_fifo.peek(t)
    self.item_done()
    return res


@contract('UVMSequencer.peek')
async def peek(self, t=None):
    if self.sequence_item_requested == 0:
        await self.m_select_sequence()
    self.sequence_item_requested = 1
    return await self.m_req_fifo.peek(t)


@contract('UVMSequencer.put')
async def put(self, t):
    self.put_response(t)
    await uvm_zero_delay()


@contract('UVMSequencer.stop_sequences', ret=False)
def stop_sequences(self):
    super().stop_sequences()
    self.sequence_item_requested = False
    self.get_next_item_called = False
    if self.m_req_fifo.used():
        t = []
        while self.m_req_fifo.try_get(t):
            t = []


@contract('UVMSequencerBase.wait_for_item_done')
async def wait_for_item_done(self, sequence_ptr, transaction_id):
    sequence_id = sequence_ptr.m_get_sqr_sequence_id(self.m_sequencer_id, 1)
    self.m_wait_for_item_sequence_id = -1
    self.m_wait_for_item_transaction_id = -1
    if transaction_id == -1:
        await wait(lambda: self.m_wait_for_item_sequence_id == sequence_id, self.m_event_value_changed)
    else:
        await wait(lambda: self.m_wait_for_item_sequence_id == sequence_id and self.m_wait_for_item_transaction_id == transaction_id, self.m_event_value_changed)


@contract('UVMSequencerParamBase.__init__', ret=False)
def __init__(self, name, parent):
    UVMSequencerBase.__init__(self, name, parent)
    self.m_last_req_buffer = UVMQueue()
    self.m_last_rsp_buffer = UVMQueue()
    self.m_num_last_reqs = 1
    self.num_last_items = self.m_num_last_reqs
    self.m_num_last_rsps = 1
    self.m_num_reqs_sent = 0
    self.m_num_rsps_received = 0
    self.m_req_fifo = UVMTLMFIFO(name + '__' + 'm_req_fifo', self)
    self.m_req_fifo.print_enabled = False
    self.rsp_export = UVMAnalysisExport('rsp_export', self)
    self.sqr_rsp_analysis_fifo = UVMSequencerAnalysisFIFO('sqr_rsp_analysis_fifo', self)
    self.sqr_rsp_analysis_fifo.print_enabled = 0


@contract('UVMSequencerParamBase.send_request', report_calls=1, ret=False)
def send_request(self, sequence_ptr, t, rerandomize=False):
    param_t = None
    if sequence_ptr is None:
        self.uvm_report_fatal('SNDREQ', 'Send request sequence_ptr is null', UVM_NONE)
    if sequence_ptr.m_wait_for_grant_semaphore < 1:
        self.uvm_report_fatal('SNDREQ', 'Send request called without wait_for_grant', UVM_NONE)
    sequence_ptr.m_wait_for_grant_semaphore -= 1
    param_t = t
    if rerandomize is True:
        if param_t.randomize() is False:
            self.uvm_report_warning('SQRSNDREQ', 'Failed to rerandomize sequence item in send_request')
    if param_t.get_transaction_id() == -1:
        param_t.set_transaction_id(sequence_ptr.m_next_transaction_id)
        sequence_ptr.m_next_transaction_id += 1
    self.m_last_req_push_front(param_t)
    param_t.set_sequence_id(sequence_ptr.m_get_sqr_sequence_id(self.m_sequencer_id, 1))
    t.set_sequencer(self)
    if self.m_req_fifo.try_put(param_t) is False:
        uvm_fatal(self.get_full_name(), ERR_MSG2)
    self.m_num_reqs_sent += 1
    self.grant_queued_locks()


@contract('UVMSequencerParamBase.get_current_item')
def get_current_item(self):
    t = []
    if not self.m_req_fifo.try_peek(t):
        return None
    return t[0]


@contract('UVMSequencerParamBase.get_num_reqs_sent')
def get_num_reqs_sent(self):
    return self.m_num_reqs_sent


@contract('UVMSequencerParamBase.set_num_last_reqs', ret=False)
def set_num_last_reqs(self, max_val):
    if max_val > 1024:
        self.uvm_report_warning('HSTOB', '')
        max_val = 1024
    while self.m_last_req_buffer.size() != 0 and self.m_last_req_buffer.size() > max_val:
        self.m_last_req_buffer.pop_back()
    self.m_num_last_reqs = max_val
    self.num_last_items = max_val


@contract('UVMSequencerParamBase.get_num_last_reqs')
def get_num_last_reqs(self):
    return self.m_num_last_reqs


@contract('UVMSequencerParamBase.m_last_req_push_front', ret=False)
def m_last_req_push_front(self, item):
    if self.m_num_last_reqs == 0:
        return
    if self.m_last_req_buffer.size() == self.m_num_last_reqs:
        self.m_last_req_buffer.pop_back()
    self.m_last_req_buffer.push_front(item)


@contract('UVMSequenceBase.finish_item', report_calls=1)
async def finish_item(self, item, set_priority=-1):
    sequencer = item.get_sequencer()
    if sequencer is None:
        uvm_fatal('STRITM', 'sequence_item has None sequencer')
    self.mid_do(item)
    sequencer.send_request(self, item)
    await sequencer.wait_for_item_done(self, -1)
    sequencer.end_tr(item)
    self.post_do(item)


@contract('UVMDriver.__init__', ret=False)
def __init__(self, name, parent):
    UVMComponent.__init__(self, name, parent)
    self.seq_item_port = UVMSeqItemPullPort('seq_item_port', self)
    self.rsp_port = UVMAnalysisPort('rsp_port', self)
    self.seq_item_prod_if = self.seq_item_port
    self.req = None
    self.rsp = None

