
@contract('UVMSequencerParamBase.put_response')
def put_response(self, t):
    sequence_ptr = None
    if t is None:
        self.uvm_report_fatal('SQRPUT', '', UVM_NONE)
    self.m_last_rsp_push_front(t)
    self.m_num_rsps_received += 1
    if t.get_sequence_id() == -1:
        self.uvm_report_fatal('SQRPUT', '', UVM_NONE)
        return
    sequence_ptr = self.m_find_sequence(t.get_sequence_id())
    if sequence_ptr is not None:
        if sequence_ptr.get_use_response_handler() == 1:
            sequence_ptr.response_handler(t)
            return
        sequence_ptr.put_response(t)


@contract('UVMSequencerParamBase.m_last_rsp_push_front')
def m_last_rsp_push_front(self, item):
    if self.m_num_last_rsps == 0:
        return
    if self.m_last_rsp_buffer.size() == self.m_num_last_rsps:
        self.m_last_rsp_buffer.pop_back()
    self.m_last_rsp_buffer.push_front(item)


@contract('UVMSequencerParamBase.get_num_rsps_received')
def get_num_rsps_received(self):
    return self.m_num_rsps_received


@contract('UVMSequencerParamBase.get_num_last_rsps')
def get_num_last_rsps(self):
    return self.m_num_last_rsps


@contract('UVMSequenceBase.use_response_handler')
def use_response_handler(self, enable):
    self.m_use_response_handler = enable


@contract('UVMSequenceBase.get_use_response_handler')
def get_use_response_handler(self):
    return self.m_use_response_handler


@contract('UVMSequenceBase.response_handler')
def response_handler(self, response):
    return


@contract('UVMSequenceBase.set_response_queue_depth')
def set_response_queue_depth(self, value):
    self.response_queue_depth = value


@contract('UVMSequenceBase.get_response_queue_depth')
def get_response_queue_depth(self):
    return self.response_queue_depth


@contract('UVMSequenceBase.set_response_queue_error_report_disabled')
def set_response_queue_error_report_disabled(self, value):
    self.response_queue_error_report_disabled = value


@contract('UVMSequenceBase.get_response_queue_error_report_disabled')
def get_response_queue_error_report_disabled(self):
    return self.response_queue_error_report_disabled


@contract('UVMSequenceBase.clear_response_queue')
def clear_response_queue(self):
    self.response_queue.delete()
    self.m_resp_queue_event.set()


@contract('UVMSequenceBase.put_base_response')
def put_base_response(self, response):
    if self.response_queue_depth == -1 or self.response_queue.size() < self.response_queue_depth:
        self.response_queue.push_back(response)
        self.m_resp_queue_event.set()
        return
    if self.response_queue_error_report_disabled == 0:
        uvm_error(self.get_full_name(), '')


@contract('UVMSequenceBase.put_response')
def put_response(self, response_item):
    self.put_base_response(response_item)


@contract('UVMSequenceBase.get_base_response')
async def get_base_response(self, response, transaction_id=-1):
    queue_size = 0
    i = 0
    if self.response_queue.size() == 0:
        await wait(lambda: self.response_queue.size() != 0, self.m_resp_queue_event)
    if transaction_id == -1:
        resp_item = self.response_queue.pop_front()
        response.append(resp_item)
        return
    while True:
        queue_size = self.response_queue.size()
        for i in range(queue_size):
            seq_item = self.response_queue.get(i)
            if seq_item.get_transaction_id() == transaction_id:
                response.append(seq_item)
                self.response_queue.delete(i)
                self.m_resp_queue_event.set()
                return
        await wait(lambda: any((item.get_transaction_id() == transaction_id for item in self.response_queue.queue)), self.m_resp_queue_event)


@contract('UVMSequence.__init__', ret=False)
def __init__(self, name='uvm_sequence'):
    UVMSequenceBase.__init__(self, name)
    self.req = None
    self.rsp = None
    self.param_sequencer = None


@contract('UVMSequence.get_response')
async def get_response(self, response, transaction_id=-1):
    if response is None:
        uvm_fatal('RESP IS NONE', '')
    rsp = []
    await self.get_base_response(rsp, transaction_id)
    response.append(rsp[0])


@contract('UVMSequence.put_response')
def put_response(self, response_item):
    self.put_base_response(response_item)


@contract('UVMSequencer.put')
async def put(self, t):
    self.put_response(t)
    await uvm_zero_delay()


@contract('UVMSequencerParamBase.connect_phase', ret=False)
def connect_phase(self, phase):
    super().connect_phase(phase)
    self.rsp_export.connect(self.sqr_rsp_analysis_fifo.analysis_export)


@contract('UVMSequencerParamBase.build_phase', ret=False)
def build_phase(self, phase):
    super().build_phase(phase)
    self.sqr_rsp_analysis_fifo.sequencer_ptr = self


@contract('UVMSequencerAnalysisFIFO.__init__', ret=False)
def __init__(self, name, parent=None):
    super().__init__(name, parent, 0)
    self.analysis_export = UVMAnalysisImp('analysis_export', self)
    self.sequencer_ptr = None


@contract('UVMSequencerAnalysisFIFO.write')
def write(self, t):
    if self.sequencer_ptr is None:
        uvm_fatal('SEQRNULL', '')
    self.sequencer_ptr.analysis_write(t)


@contract('UVMSequencerBase.m_find_sequence')
def m_find_sequence(self, sequence_id):
    if sequence_id == -1:
        if self.reg_sequences.has_first():
            return self.reg_sequences[self.reg_sequences.first()]
        return None
    if not self.reg_sequences.exists(sequence_id):
        return None
    return self.reg_sequences[sequence_id]


@contract('UVMSequenceItem.set_id_info')
def set_id_info(self, item):
    if item is None:
        uvm_report_fatal(self.get_full_name(), '', UVM_NONE)
    self.set_transaction_id(item.get_transaction_id())
    self.set_sequence_id(item.get_sequence_id())

