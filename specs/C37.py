
@contract('UVMRegIndirectData.configure', ret=False)
def configure(self, idx, reg_a, blk_parent, regfile_parent=None):
    super().configure(blk_parent, regfile_parent, '')
    self.m_idx = idx
    self.m_tbl = reg_a
    UVMResourceDb.set('REG::' + self.get_full_name(), 'NO_REG_TESTS', 1)
    for _map in self.m_maps:
        self.add_frontdoors(_map)


@contract('UVMRegIndirectData.add_map', ret=False)
def add_map(self, _map):
    super().add_map(_map)
    self.add_frontdoors(_map)


@contract('UVMRegIndirectData.add_frontdoors', ret=False)
def add_frontdoors(self, _map):
    for i in range(len(self.m_tbl)):
        fd = None
        if self.m_tbl[i] is None:
            uvm_error(self.get_full_name(), '')
            continue
        fd = uvm_reg_indirect_ftdr_seq(self.m_idx, i, self)
        if self.m_tbl[i].is_in_map(_map):
            self.m_tbl[i].set_frontdoor(fd, _map)
        else:
            _map.add_reg(self.m_tbl[i], -1, 'RW', 1, fd)


@contract('UVMRegIndirectData.do_predict', ret=False)
def do_predict(self, rw, kind=UVM_PREDICT_DIRECT, be=-1):
    if self.m_idx.get() >= len(self.m_tbl):
        uvm_error(self.get_full_name(), '')
        rw.status = UVM_NOT_OK
        return
    idx = self.m_idx.get()
    self.m_tbl[idx].do_predict(rw, kind, be)


@contract('UVMRegIndirectData.get_local_map')
def get_local_map(self, _map, caller=''):
    return self.m_idx.get_local_map(_map, caller)


@contract('UVMRegIndirectData.add_field', ret=False)
def add_field(self, field):
    uvm_error(self.get_full_name(), '')


@contract('UVMRegIndirectData.get_indirect_reg')
def get_indirect_reg(self, fname='', lineno=0):
    return self.m_tbl[self.m_idx.get_mirrored_value()]


@contract('UVMRegIndirectData.needs_update')
def needs_update(self):
    return 0


@contract('UVMRegIndirectData.write', ret=False)
async def write(self, status, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    if path == UVM_DEFAULT_PATH:
        blk = self.get_parent()
        path = blk.get_default_path()
    if path == UVM_BACKDOOR:
        uvm_warning(self.get_full_name(), '')
        path = UVM_FRONTDOOR
    rw = UVMRegItem.type_id.create('write_item', None, self.get_full_name())
    await self.XatomicX(1, rw)
    rw.element = self
    rw.element_kind = UVM_REG
    rw.kind = UVM_WRITE
    rw.value[0] = value
    rw.path = path
    rw.map = _map
    rw.parent = parent
    rw.prior = prior
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    await self.do_write(rw)
    status.append(rw.status)
    await self.XatomicX(0)


@contract('UVMRegIndirectData.read')
async def read(self, status, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    if path == UVM_DEFAULT_PATH:
        blk = self.get_parent()
        path = blk.get_default_path()
    if path == UVM_BACKDOOR:
        uvm_warning(self.get_full_name(), '')
        path = UVM_FRONTDOOR
    return await super().read(status, value, path, _map, parent, prior, extension, fname, lineno)


@contract('UVMRegIndirectData.update', ret=False)
async def update(self, status, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    status.append(UVM_IS_OK)


@contract('UVMRegIndirectData.mirror', ret=False)
async def mirror(self, status, check=UVM_NO_CHECK, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    status.append(UVM_IS_OK)


@contract('uvm_reg_indirect_ftdr_seq.body', ret=False)
async def body(self):
    arr = []
    if not sv.cast(arr, self.rw_info.clone(), UVMRegItem):
        uvm_fatal('CAST_FAIL', '')
    rw = arr[0]
    rw.element = self.m_addr_reg
    rw.kind = UVM_WRITE
    rw.value[0] = self.m_idx
    await self.m_addr_reg.XatomicX(1, rw)
    await self.m_data_reg.XatomicX(1, rw)
    await self.m_addr_reg.do_write(rw)
    if rw.status == UVM_NOT_OK:
        await self.m_addr_reg.XatomicX(0)
        await self.m_data_reg.XatomicX(0)
        self.rw_info.status = rw.status
        return
    arr = []
    if sv.cast(arr, self.rw_info.clone(), UVMRegItem):
        rw = arr[0]
    rw.element = self.m_data_reg
    if self.rw_info.kind == UVM_WRITE:
        await self.m_data_reg.do_write(rw)
    else:
        await self.m_data_reg.do_read(rw)
        self.rw_info.value[0] = rw.value[0]
    await self.m_addr_reg.XatomicX(0)
    await self.m_data_reg.XatomicX(0)
    self.rw_info.status = rw.status


@contract('uvm_reg_indirect_ftdr_seq.__init__', ret=False)
def __init__(self, addr_reg, idx, data_reg):
    super().__init__('uvm_reg_indirect_ftdr_seq')
    self.m_addr_reg = addr_reg
    self.m_data_reg = data_reg
    self.m_idx = idx


@contract('UVMRegItem.do_copy', ret=False)
def do_copy(self, rhs):
    if rhs is None:
        uvm_fatal('REG/NULL', '')
    arr_rhs_ = []
    if not sv.cast(arr_rhs_, rhs, UVMRegItem):
        uvm_error('WRONG_TYPE', '')
        return
    rhs_ = arr_rhs_[0]
    super().copy(rhs)
    self.element_kind = rhs_.element_kind
    self.element = rhs_.element
    self.kind = rhs_.kind
    self.value = list(rhs_.value)
    self.offset = rhs_.offset
    self.status = rhs_.status
    self.local_map = rhs_.local_map
    self.map = rhs_.map
    self.path = rhs_.path
    self.extension = rhs_.extension
    self.bd_kind = rhs_.bd_kind
    self.parent = rhs_.parent
    self.prior = rhs_.prior
    self.fname = rhs_.fname
    self.lineno = rhs_.lineno

