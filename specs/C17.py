
@contract('UVMMailbox.put')
async def put(self, item):
    _uvm_debug(self, 'put', 'Starting to check can_put()')
    can_put = self.can_put()
    while can_put is False:
        self.m_read_event.clear()
        await self.m_read_event.wait()
        self.m_read_event.clear()
        can_put = self.can_put()
    _uvm_debug(self, 'put', 'Putting an event into item queue')
    self.m_queue.push_back(item)
    _uvm_debug(self, 'put', 'ZZZ pushed to queue, can_get is ' + str(self.can_get()))
    self.m_write_event.set()
    _uvm_debug(self, 'put', 'Finished')


@contract('UVMMailbox.get')
async def get(self, itemq=None):
    can_get = self.can_get()
    while can_get is False:
        _uvm_debug(self, 'get', 'waiting write event to get item')
        self.m_write_event.clear()
        await self.m_write_event.wait()
        self.m_write_event.clear()
        _uvm_debug(self, 'get', 'event cleared, can_get ' + str(self.can_get()))
        can_get = self.can_get()
    _uvm_debug(self, 'get', 'wait write event DONE')
    if not self.can_get():
        raise Exception('can_get() should return True, but got false. q: ' + str(self.m_queue))
    item = self.m_queue.pop_front()
    self.m_read_event.set()
    _uvm_debug(self, 'get', 'getting an item from mailbox now')
    if itemq is not None:
        itemq.append(item)
    return item


@contract('UVMMailbox.peek')
async def peek(self, itemq=None):
    while not self.can_get():
        _uvm_debug(self, 'get', 'waiting write event to get item')
        self.m_write_event.clear()
        await self.m_write_event.wait()
        self.m_write_event.clear()
        _uvm_debug(self, 'get', 'event cleared, can_get ' + str(self.can_get()))
    item = self.m_queue.front()
    if itemq is not None:
        itemq.append(item)
    return item


@contract('UVMMailbox.try_put')
def try_put(self, item):
    _uvm_debug(self, 'try_put', 'Starting function')
    if self.can_put() is True:
        _uvm_debug(self, 'try_put', 'can_put is True')
        self.m_queue.push_back(item)
        _uvm_debug(self, 'try_put', 'pushed to queue, can_get is ' + str(self.can_get()))
        self.m_write_event.set()
        _uvm_debug(self, 'try_put', 'try_put finishing OK')
        return True
    return False


@contract('UVMMailbox.try_get')
def try_get(self, itemq):
    if self.can_get() is True:
        item = self.m_queue.pop_front()
        itemq.append(item)
        self.m_read_event.set()
        _uvm_debug(self, 'try_get', 'try_get finishing OK')
        return True
    return False


@contract('UVMMailbox.try_peek')
def try_peek(self, itemq):
    if self.can_get() is True:
        item = self.m_queue.front()
        itemq.append(item)
        _uvm_debug(self, 'try_peek', 'try_peek finishing OK')
        return True
    return False


@contract('UVMMailbox.can_get')
def can_get(self):
    return self.m_queue.size() > 0


@contract('UVMMailbox.can_put')
def can_put(self):
    if self.max_size <= 0:
        return True
    return self.m_queue.size() < self.max_size


@contract('UVMMailbox.num')
def num(self):
    return self.m_queue.size()


@contract('UVMMailbox.__init__', ret=False)
def __init__(self, size=0, name='mailbox'):
    self.max_size = size
    self.name = name
    self.m_queue = UVMQueue()
    self.m_read_event = Event('mailbox_read_event')
    self.m_write_event = Event('mailbox_write_event')
    self.debug_enabled = False


@contract('UVMTLMFIFO.size')
def size(self):
    return self.m_size


@contract('UVMTLMFIFO.used')
def used(self):
    return self.m.num()


@contract('UVMTLMFIFO.is_empty')
def is_empty(self):
    return self.m.num() == 0


@contract('UVMTLMFIFO.is_full')
def is_full(self):
    return self.m_size != 0 and self.m.num() == self.m_size


@contract('UVMTLMFIFO.put')
async def put(self, t):
    await self.m.put(t)
    self.put_ap.write(t)


@contract('UVMTLMFIFO.get')
async def get(self, t=None):
    self.m_pending_blocked_gets += 1
    res = await self.m.get()
    self.m_pending_blocked_gets -= 1
    self.get_ap.write(res)
    if t is not None:
        t.append(res)
    return res


@contract('UVMTLMFIFO.peek')
async def peek(self, t=None):
    res = await self.m.peek()
    if t is not None:
        t.append(res)
    return res


@contract('UVMTLMFIFO.try_get')
def try_get(self, t):
    if not self.m.try_get(t):
        return False
    self.get_ap.write(t[-1])
    return True


@contract('UVMTLMFIFO.try_peek')
def try_peek(self, t):
    return self.m.try_peek(t)


@contract('UVMTLMFIFO.try_put')
def try_put(self, t):
    if not self.m.try_put(t):
        return False
    self.put_ap.write(t)
    return True


@contract('UVMTLMFIFO.can_put')
def can_put(self):
    return self.m_size == 0 or self.m.num() < self.m_size


@contract('UVMTLMFIFO.can_get')
def can_get(self):
    return self.m.num() > 0 and self.m_pending_blocked_gets == 0


@contract('UVMTLMFIFO.can_peek')
def can_peek(self):
    return self.m.num() > 0


@contract('UVMTLMFIFO.flush')
def flush(self):
    trans = []
    res = 1
    while res:
        res = self.try_get(trans)
    if self.m.num() > 0 and self.m_pending_blocked_gets != 0:
        uvm_error('flush failed', '')


@contract('UVMTLMFIFO.__init__', ret=False)
def __init__(self, name, parent=None, size=1):
    UVMTLMFIFOBase.__init__(self, name, parent)
    self.m = UVMMailbox(size)
    self.m_size = size
    self.m_pending_blocked_gets = 0


@contract('UVMTLMFIFOBase.__init__', ret=False)
def __init__(self, name, parent=None):
    UVMComponent.__init__(self, name, parent)
    self.put_export = UVMPutImp('put_export', self)
    self.blocking_put_export = self.put_export
    self.nonblocking_put_export = self.put_export
    get_peek_export = UVMGetPeekImp('get_peek_export', self)
    self.get_peek_export = get_peek_export
    self.blocking_get_peek_export = get_peek_export
    self.nonblocking_get_peek_export = get_peek_export
    self.blocking_get_export = get_peek_export
    self.nonblocking_get_export = get_peek_export
    self.get_export = get_peek_export
    self.blocking_peek_export = get_peek_export
    self.nonblocking_peek_export = get_peek_export
    self.peek_export = get_peek_export
    self.put_ap = UVMAnalysisPort('put_ap', self)
    self.get_ap = UVMAnalysisPort('get_ap', self)


@contract('UVMTLMAnalysisFIFO.write')
def write(self, t):
    self.try_put(t)


@contract('UVMTLMAnalysisFIFO.__init__', ret=False)
def __init__(self, name, parent=None):
    UVMTLMFIFO.__init__(self, name, parent, 0)
    self.analysis_export = UVMAnalysisImp('analysis_export', self)


@contract('UVMTLMReqRspChannel.connect_phase')
def connect_phase(self, phase):
    self.put_request_export.connect(self.m_request_fifo.put_export)
    self.get_peek_request_export.connect(self.m_request_fifo.get_peek_export)
    self.m_request_fifo.put_ap.connect(self.request_ap)
    self.put_response_export.connect(self.m_response_fifo.put_export)
    self.get_peek_response_export.connect(self.m_response_fifo.get_peek_export)
    self.m_response_fifo.put_ap.connect(self.response_ap)


@contract('UVMTLMReqRspChannel.create_aliased_exports')
def create_aliased_exports(self):
    self.blocking_put_request_export = self.put_request_export
    self.nonblocking_put_request_export = self.put_request_export
    self.get_request_export = self.get_peek_request_export
    self.blocking_get_request_export = self.get_peek_request_export
    self.nonblocking_get_request_export = self.get_peek_request_export
    self.peek_request_export = self.get_peek_request_export
    self.blocking_peek_request_export = self.get_peek_request_export
    self.nonblocking_peek_request_export = self.get_peek_request_export
    self.blocking_get_peek_request_export = self.get_peek_request_export
    self.nonblocking_get_peek_request_export = self.get_peek_request_export
    self.blocking_put_response_export = self.put_response_export
    self.nonblocking_put_response_export = self.put_response_export
    self.get_response_export = self.get_peek_response_export
    self.blocking_get_response_export = self.get_peek_response_export
    self.nonblocking_get_response_export = self.get_peek_response_export
    self.peek_response_export = self.get_peek_response_export
    self.blocking_peek_response_export = self.get_peek_response_export
    self.nonblocking_peek_response_export = self.get_peek_response_export
    self.blocking_get_peek_response_export = self.get_peek_response_export
    self.nonblocking_get_peek_response_export = self.get_peek_response_export
    self.blocking_master_export = self.master_export
    self.nonblocking_master_export = self.master_export
    self.blocking_slave_export = self.slave_export
    self.nonblocking_slave_export = self.slave_export


@contract('UVMTLMReqRspChannel.__init__', ret=False)
def __init__(self, name, parent=None, request_fifo_size=1, response_fifo_size=1):
    super().__init__(name, parent)
    self.m_request_fifo = UVMTLMFIFO('request_fifo', self, request_fifo_size)
    self.m_response_fifo = UVMTLMFIFO('response_fifo', self, response_fifo_size)
    self.request_ap = UVMAnalysisPort('request_ap', self)
    self.response_ap = UVMAnalysisPort('response_ap', self)
    self.put_request_export = UVMPutExport('put_request_export', self)
    self.get_peek_request_export = UVMGetPeekExport('get_peek_request_export', self)
    self.put_response_export = UVMPutExport('put_response_export', self)
    self.get_peek_response_export = UVMGetPeekExport('get_peek_response_export', self)
    self.master_export = UVMMasterImp('master_export', self, self.m_request_fifo, self.m_response_fifo)
    self.slave_export = UVMSlaveImp('slave_export', self, self.m_request_fifo, self.m_response_fifo)
    self.create_aliased_exports()
    self.set_report_id_action_hier(s_connection_error_id, UVM_NO_ACTION)

