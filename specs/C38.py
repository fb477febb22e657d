
@contract('UVMRegFIFO.__init__', ret=False)
def __init__(self, name, size, n_bits, has_cover):
    super().__init__(name, n_bits, has_cover)
    self.m_size = size
    self.fifo = []
    self.m_set_cnt = 0


@contract('UVMRegFIFO.build', ret=False)
def build(self):
    self.value = UVMRegField.type_id.create('value')
    self.value.configure(self, self.get_n_bits(), 0, 'RW', 0, 0, 1, 0, 1)


@contract('UVMRegFIFO.size')
def size(self):
    return len(self.fifo)


@contract('UVMRegFIFO.capacity')
def capacity(self):
    return self.m_size


@contract('UVMRegFIFO.set_compare', ret=False)
def set_compare(self, check=UVM_CHECK):
    self.value.set_compare(check)


@contract('UVMRegFIFO.set', ret=False)
def set(self, value, fname='', lineno=0):
    value &= (1 << self.get_n_bits()) - 1
    if len(self.fifo) == self.m_size:
        return
    super().set(value, fname, lineno)
    self.m_set_cnt += 1
    self.fifo.append(self.value.value)


@contract('UVMRegFIFO.write')
async def write(self, status, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    rw = UVMRegItem.type_id.create('write_item', None, self.get_full_name())
    await self.XatomicX(1, rw)
    rw.element = self
    rw.element_kind = UVM_REG
    rw.kind = UVM_WRITE
    rw.value[0] = value
    rw.path = path
    rw.map = _map
    rw.parent = parent
    rw.prior = prior
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    await self.do_write(rw)
    status.append(rw.status)
    await self.XatomicX(0)
    return rw.status


@contract('UVMRegFIFO.update', ret=False)
async def update(self, status, path=UVM_DEFAULT_PATH, map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    upd = 0
    if self.m_set_cnt == 0 or len(self.fifo) == 0:
        status.append(UVM_IS_OK)
        return
    self.m_update_in_progress = 1
    i = len(self.fifo) - self.m_set_cnt
    while self.m_set_cnt > 0:
        if i >= 0:
            status.clear()
            await self.write(status, self.fifo[i], path, map, parent, prior, extension, fname, lineno)
        i += 1
        self.m_set_cnt -= 1
    self.m_update_in_progress = 0


@contract('UVMRegFIFO.get')
def get(self, fname='', lineno=0):
    val = 0
    if len(self.fifo) > 0:
        val = self.fifo[0]
    return val


@contract('UVMRegFIFO.do_predict', ret=False)
def do_predict(self, rw, kind=UVM_PREDICT_DIRECT, be=-1):
    super().do_predict(rw, kind, be)
    if rw.status == UVM_NOT_OK:
        return
    if kind in [UVM_PREDICT_WRITE, UVM_PREDICT_DIRECT]:
        if len(self.fifo) != self.m_size and (not self.m_update_in_progress):
            self.fifo.append(self.value.value)
    elif kind == UVM_PREDICT_READ:
        value = rw.value[0] & (1 << self.get_n_bits()) - 1
        mirror_val = 0
        if len(self.fifo) == 0:
            return
        mirror_val = self.fifo.pop(0)
        if self.value.get_compare() == UVM_CHECK and mirror_val != value:
            uvm_warning('MIRROR_MISMATCH', '')


@contract('UVMRegFIFO.pre_write', ret=False)
async def pre_write(self, rw):
    if self.m_set_cnt > 0 and (not self.m_update_in_progress):
        uvm_error('Needs Update', '')
        rw.status = UVM_NOT_OK
        return
    if len(self.fifo) >= self.m_size and (not self.m_update_in_progress):
        uvm_error('FIFO Full', '')
        rw.status = UVM_NOT_OK
        return


@contract('UVMRegFIFO.pre_read', ret=False)
async def pre_read(self, rw):
    if len(self.fifo) == 0:
        rw.status = UVM_NOT_OK
        return


@contract('UVMRegFIFO.post_randomize', ret=False)
def post_randomize(self):
    self.m_set_cnt = 0

