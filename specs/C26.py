
@contract('UVMRegBlock.__init__', ret=False)
def __init__(self, name='', has_coverage=UVM_NO_COVERAGE):
    super().__init__(name)
    self.hdl_paths_pool = UVMObjectStringPool('hdl_paths', UVMQueue)
    self.has_cover = has_coverage
    self.cover_on = 0
    UVMRegBlock.m_roots[self] = 0
    self.locked = False
    self.maps = UVMPool()
    self.regs = UVMPool()
    self.blks = UVMPool()
    self.mems = UVMPool()
    self.vregs = UVMPool()
    self.root_hdl_paths = UVMPool()
    self.backdoor = None
    self.default_hdl_path = 'RTL'
    self.parent = None
    self.default_path = UVM_DEFAULT_PATH
    self.fname = ''
    self.lineno = 0
    self.default_map = None


@contract('UVMRegBlock.configure', ret=False)
def configure(self, parent=None, hdl_path=''):
    self.parent = parent
    if self.parent is not None:
        self.parent.add_block(self)
    self.add_hdl_path(hdl_path)
    UVMResourceDb.set('uvm_reg::*', self.get_full_name(), self)


@contract('UVMRegBlock.create_map')
def create_map(self, name, base_addr, n_bytes, endian, byte_addressing=True):
    if self.locked is True:
        uvm_error('RegModel', '')
        return None
    _map = UVMRegMap.type_id.create(name, None, self.get_full_name())
    _map.configure(self, base_addr, n_bytes, endian, byte_addressing)
    self.maps[_map] = True
    if self.maps.num() == 1:
        self.default_map = _map
    return _map


@contract('UVMRegBlock.check_data_width')
def check_data_width(self, width):
    if width <= UVM_REG_DATA_WIDTH:
        return 1
    uvm_fatal('RegModel', '')
    return 0


@contract('UVMRegBlock.set_default_map', ret=False)
def set_default_map(self, _map):
    if _map not in self.maps:
        uvm_warning('RegModel', '')
    self.default_map = _map


@contract('UVMRegBlock.get_default_map')
def get_default_map(self):
    return self.default_map


@contract('UVMRegBlock.set_parent', ret=False)
def set_parent(self, parent):
    if self != parent:
        self.parent = parent


@contract('UVMRegBlock.add_block', ret=False)
def add_block(self, blk):
    if self.is_locked():
        uvm_error('RegModel', '')
        return
    if blk in self.blks:
        uvm_error('RegModel', '')
        return
    self.blks[blk] = UVMRegBlock.id
    UVMRegBlock.id += 1
    if blk in UVMRegBlock.m_roots:
        del UVMRegBlock.m_roots[blk]


@contract('UVMRegBlock.add_map', ret=False)
def add_map(self, _map):
    if self.locked:
        uvm_error('RegModel', '')
        return
    if self.maps.exists(_map):
        uvm_error('RegModel', '')
        return
    self.maps[_map] = 1
    if self.maps.num() == 1:
        self.default_map = _map


@contract('UVMRegBlock.add_reg', ret=False)
def add_reg(self, rg):
    if self.is_locked():
        uvm_error('RegModel', '')
        return
    if rg in self.regs:
        uvm_error('RegModel', '')
        return
    self.regs[rg] = UVMRegBlock.id
    UVMRegBlock.id += 1


@contract('UVMRegBlock.add_vreg', ret=False)
def add_vreg(self, vreg):
    if self.is_locked():
        uvm_error('RegModel', '')
        return
    if self.vregs.exists(vreg):
        uvm_error('RegModel', '')
        return
    self.vregs[vreg] = UVMRegBlock.id
    UVMRegBlock.id += 1


@contract('UVMRegBlock.add_mem', ret=False)
def add_mem(self, mem):
    if self.is_locked():
        uvm_error('RegModel', '')
        return
    if mem in self.mems:
        uvm_error('RegModel', '')
        return
    self.mems[mem] = UVMRegBlock.id
    UVMRegBlock.id += 1


@contract('UVMRegBlock.lock_model', ret=False)
def lock_model(self):
    if self.is_locked():
        return
    self.locked = True
    for rr in self.regs.key_list():
        rr.Xlock_modelX()
    for mem in self.mems.key_list():
        mem.Xlock_modelX()
    for blk in self.blks.key_list():
        blk.lock_model()
    if self.parent is None:
        max_size = UVMReg.get_max_size()
        if UVMRegField.get_max_size() > max_size:
            max_size = UVMRegField.get_max_size()
        if UVMMem.get_max_size() > max_size:
            max_size = UVMMem.get_max_size()
        if max_size > UVM_REG_DATA_WIDTH:
            uvm_fatal('RegModel', '')
        self.Xinit_address_mapsX()
        if self in UVMRegBlock.m_roots and UVMRegBlock.m_roots[self] != 1:
            n = 0
            for _blk in UVMRegBlock.m_roots:
                blk = _blk
                if blk.get_name() == self.get_name():
                    UVMRegBlock.m_roots[blk] = 1
                    n += 1
            if n > 1:
                uvm_error('UVM/REG/DUPLROOT', '')


@contract('UVMRegBlock.is_locked')
def is_locked(self):
    return self.locked


@contract('UVMRegBlock.get_full_name')
def get_full_name(self):
    if self.parent is None:
        return self.get_name()
    return self.parent.get_full_name() + '.' + self.get_name()


@contract('UVMRegBlock.get_parent')
def get_parent(self):
    return self.parent


@contract('UVMRegBlock.get_root_blocks', ret=False)
def get_root_blocks(self, blks):
    for blk in UVMRegBlock.m_roots:
        blks.append(blk)


@contract('UVMRegBlock.get_blocks', ret=False, impure=['get_blocks'])
def get_blocks(self, blks, hier=UVM_HIER):
    for blk_ in self.blks.key_list():
        blk = blk_
        blks.append(blk)
        if hier == UVM_HIER:
            blk.get_blocks(blks)


@contract('UVMRegBlock.get_maps', ret=False)
def get_maps(self, maps):
    for key in self.maps.key_list():
        maps.append(key)


@contract('UVMRegBlock.get_registers', ret=False, impure=['get_registers'])
def get_registers(self, regs, hier=UVM_HIER):
    for rg in self.regs.key_list():
        regs.append(rg)
    if hier == UVM_HIER:
        for blk_ in self.blks.key_list():
            blk = blk_
            blk.get_registers(regs)


@contract('UVMRegBlock.get_memories', ret=False, impure=['get_memories'])
def get_memories(self, mems, hier=UVM_HIER):
    for mem_ in self.mems.key_list():
        mem = mem_
        mems.append(mem)
    if hier == UVM_HIER:
        for blk_ in self.blks.key_list():
            blk = blk_
            blk.get_memories(mems)


@contract('UVMRegBlock.get_map_by_name', impure=['get_maps', 'get_submaps'])
def get_map_by_name(self, name):
    maps = []
    self.get_maps(maps)
    for i in range(len(maps)):
        if maps[i].get_name() == name:
            return maps[i]
    for i in range(len(maps)):
        submaps = []
        maps[i].get_submaps(submaps, UVM_HIER)
        for j in range(len(submaps)):
            if submaps[j].get_name() == name:
                return submaps[j]
    uvm_warning('RegModel', '')
    return None


@contract('UVMRegBlock.get_reg_by_name', impure=['get_registers'])
def get_reg_by_name(self, name):
    for rg in self.regs.key_list():
        if rg.get_name() == name:
            return rg
    for blk_ in self.blks.key_list():
        subregs = []
        blk_.get_registers(subregs, UVM_HIER)
        for j in range(len(subregs)):
            if subregs[j].get_name() == name:
                return subregs[j]
    uvm_warning('RegModel', '')
    return None


@contract('UVMRegBlock.build_coverage')
def build_coverage(self, models):
    build_coverage = UVM_NO_COVERAGE
    cov_arr = []
    uvm_reg_cvr_rsrc_db.read_by_name('uvm_reg::' + self.get_full_name(), 'include_coverage', cov_arr, self)
    if len(cov_arr) > 0:
        build_coverage = cov_arr[0]
    return build_coverage & models


@contract('UVMRegBlock.add_coverage', ret=False)
def add_coverage(self, models):
    self.has_cover |= models


@contract('UVMRegBlock.has_coverage')
def has_coverage(self, models):
    return self.has_cover & models == models


@contract('UVMRegBlock.set_coverage')
def set_coverage(self, is_on):
    self.cover_on = self.has_cover & is_on
    for rg_ in self.regs.key_list():
        rg = rg_
        rg.set_coverage(is_on)
    for mem in self.mems.key_list():
        mem.set_coverage(is_on)
    for blk_ in self.blks.key_list():
        blk = blk_
        blk.set_coverage(is_on)
    return self.cover_on


@contract('UVMRegBlock.get_coverage')
def get_coverage(self, is_on=UVM_CVR_ALL):
    if self.has_coverage(is_on) == 0:
        return 0
    return self.cover_on & is_on == is_on


@contract('UVMRegBlock.sample_values', ret=False)
def sample_values(self):
    for rg_ in self.regs.key_list():
        rg = rg_
        rg.sample_values()
    for blk_ in self.blks.key_list():
        blk = blk_
        blk.sample_values()


@contract('UVMRegBlock.XsampleX', ret=False)
def XsampleX(self, addr, is_read, _map):
    self.sample(addr, is_read, _map)
    if self.parent is not None:
        pass


@contract('UVMRegBlock.get_default_path')
def get_default_path(self):
    if self.default_path != UVM_DEFAULT_PATH:
        return self.default_path
    if self.parent is not None:
        return self.parent.get_default_path()
    return UVM_FRONTDOOR


@contract('UVMRegBlock.reset', ret=False)
def reset(self, kind='HARD'):
    for rg_ in self.regs.key_list():
        rg = rg_
        rg.reset(kind)
    for blk_ in self.blks.key_list():
        blk = blk_
        blk.reset(kind)


@contract('UVMRegBlock.needs_update')
def needs_update(self):
    for rg_ in self.regs.key_list():
        rg = rg_
        if rg.needs_update():
            return 1
    for blk_ in self.blks.key_list():
        blk = blk_
        if blk.needs_update():
            return 1
    return 0


@contract('UVMRegBlock.update', ret=False)
async def update(self, status, path=UVM_DEFAULT_PATH, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    stat_all = UVM_IS_OK
    if not self.needs_update():
        status.append(UVM_IS_OK)
        return
    for rg_ in self.regs.key_list():
        rg = rg_
        if rg.needs_update():
            stat = []
            await rg.update(stat, path, None, parent, prior, extension)
            if stat[0] != UVM_IS_OK and stat[0] != UVM_HAS_X:
                uvm_error('RegModel', '')
                status.append(stat[0])
                return
    for blk_ in self.blks.key_list():
        blk = blk_
        stat_blk = []
        await blk.update(stat_blk, path, parent, prior, extension, fname, lineno)
        if stat_blk[0] != UVM_IS_OK and stat_blk[0] != UVM_HAS_X:
            stat_all = stat_blk[0]
    status.append(stat_all)


@contract('UVMRegBlock.mirror', ret=False)
async def mirror(self, status, check=UVM_NO_CHECK, path=UVM_DEFAULT_PATH, parent=None, prior=-1, extension=None, fname='', lineno=0):
    final_status = UVM_IS_OK
    for rg_ in self.regs.key_list():
        rg = rg_
        curr_stat = []
        await rg.mirror(curr_stat, check, path, None, parent, prior, extension, fname, lineno)
        if curr_stat[0] != UVM_IS_OK and curr_stat[0] != UVM_HAS_X:
            final_status = curr_stat[0]
    for blk_ in self.blks.key_list():
        blk = blk_
        curr_stat = []
        await blk.mirror(curr_stat, check, path, parent, prior, extension, fname, lineno)
        if curr_stat[0] != UVM_IS_OK and curr_stat[0] != UVM_HAS_X:
            final_status = curr_stat[0]
    status.append(final_status)


@contract('UVMRegBlock.write_reg_by_name', ret=False)
async def write_reg_by_name(self, status, name, data, path=UVM_DEFAULT_PATH, map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    self.fname = fname
    self.lineno = lineno
    rg = self.get_reg_by_name(name)
    if rg is not None:
        await rg.write(status, data, path, map, parent, prior, extension)
    else:
        status.append(UVM_NOT_OK)


@contract('UVMRegBlock.read_reg_by_name', ret=False)
async def read_reg_by_name(self, status, name, data, path=UVM_DEFAULT_PATH, map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    self.fname = fname
    self.lineno = lineno
    rg = self.get_reg_by_name(name)
    if rg is not None:
        await rg.read(status, data, path, map, parent, prior, extension)
    else:
        status.append(UVM_NOT_OK)


@contract('UVMRegBlock.Xinit_address_mapsX', ret=False)
def Xinit_address_mapsX(self):
    for map_ in self.maps.key_list():
        map_.Xinit_address_mapX()

