
@contract('UVMMemMam.__init__')
def __init__(self, name, cfg, mem=None):
    self.cfg = cfg
    self.memory = mem
    self.in_use = []
    self.for_each_idx = -1
    self.fname = ''
    self.lineno = 0
    self.default_alloc = UVMMemMamPolicy()


@contract('UVMMemMam.reserve_region')
def reserve_region(self, start_offset, n_bytes, fname='', lineno=0):
    end_offset = 0
    self.fname = fname
    self.lineno = lineno
    if n_bytes == 0:
        uvm_error('RegModel', '')
        return None
    if start_offset < self.cfg.start_offset:
        uvm_error('RegModel', '')
        return None
    end_offset = start_offset + int((n_bytes - 1) / self.cfg.n_bytes)
    n_bytes = (end_offset - start_offset + 1) * self.cfg.n_bytes
    if end_offset > self.cfg.end_offset:
        uvm_error('RegModel', '')
        return None
    for i in range(len(self.in_use)):
        if start_offset <= self.in_use[i].get_end_offset() and end_offset >= self.in_use[i].get_start_offset():
            uvm_error('RegModel', '')
            return None
        if start_offset > self.in_use[i].get_start_offset():
            reserve_region = UVMMemRegion(start_offset, end_offset, end_offset - start_offset + 1, n_bytes, self)
            self.in_use.insert(i, reserve_region)
            return reserve_region
    reserve_region = UVMMemRegion(start_offset, end_offset, end_offset - start_offset + 1, n_bytes, self)
    self.in_use.append(reserve_region)
    return reserve_region


@contract('UVMMemMam.reconfigure')
def reconfigure(self, cfg=None):
    if cfg is None:
        return self.cfg
    if cfg.n_bytes != self.cfg.n_bytes:
        uvm_error('UVMMemMam', '')
        return self.cfg
    for region in self.in_use:
        if region.get_start_offset() < cfg.start_offset or region.get_end_offset() > cfg.end_offset:
            uvm_error('UVMMemMam', '')
            return self.cfg
    prev = self.cfg
    self.cfg = cfg
    return prev


@contract('UVMMemMam.release_region')
def release_region(self, region):
    if region is None:
        return
    for i in range(len(self.in_use)):
        if self.in_use[i] is region:
            del self.in_use[i]
            return
    uvm_error('RegModel', '')


@contract('UVMMemMam.release_all_regions')
def release_all_regions(self):
    self.in_use = []


@contract('UVMMemMam.for_each')
def for_each(self, reset=0):
    if reset:
        self.for_each_idx = -1
    self.for_each_idx += 1
    if self.for_each_idx >= len(self.in_use):
        return None
    return self.in_use[self.for_each_idx]


@contract('UVMMemMam.get_memory')
def get_memory(self):
    return self.memory


@contract('UVMMemRegion.__init__')
def __init__(self, start_offset, end_offset, _len, n_bytes, parent):
    self.Xstart_offsetX = start_offset
    self.Xend_offsetX = end_offset
    self.len = _len
    self.n_bytes = n_bytes
    self.parent = parent
    self.fname = ''
    self.lineno = 0
    self.XvregX = None


@contract('UVMMemRegion.get_start_offset')
def get_start_offset(self):
    return self.Xstart_offsetX


@contract('UVMMemRegion.get_end_offset')
def get_end_offset(self):
    return self.Xend_offsetX


@contract('UVMMemRegion.get_len')
def get_len(self):
    return self.len


@contract('UVMMemRegion.get_n_bytes')
def get_n_bytes(self):
    return self.n_bytes


@contract('UVMMemRegion.release_region')
def release_region(self):
    self.parent.release_region(self)


@contract('UVMMemRegion.get_memory')
def get_memory(self):
    return self.parent.get_memory()


@contract('UVMMemRegion.get_virtual_registers')
def get_virtual_registers(self):
    return self.XvregX


@contract('UVMMemMamCfg.__init__')
def __init__(self):
    self.n_bytes = 0
    self.start_offset = 0
    self.end_offset = 0
    self.mode = 0
    self.locality = 0


@contract('UVMMemMamPolicy.__init__')
def __init__(self):
    self.len = 0
    self.start_offset = 0
    self.min_offset = 0
    self.max_offset = 0
    self.in_use = []

