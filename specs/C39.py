
@contract('UVMMem.__init__', ret=False)
def __init__(self, name, size, n_bits, access='RW', has_coverage=UVM_NO_COVERAGE):
    UVMObject.__init__(self, name)
    self.m_locked = 0
    if n_bits == 0:
        uvm_error('RegModel', '')
        n_bits = 1
    self.m_fname = ''
    self.m_parent = None
    self.m_size = size
    self.m_n_bits = n_bits
    self.m_backdoor = None
    self.m_access = access.upper()
    self.m_has_cover = has_coverage
    self.m_hdl_paths_pool = UVMObjectStringPool('hdl_paths', UVMQueue)
    self.m_read_in_progress = False
    self.m_write_in_progress = False
    self.m_is_powered_down = False
    self.m_cover_on = 0
    self.m_vregs = UVMPool()
    self.m_maps = UVMPool()
    if n_bits > UVMMem.m_max_size:
        UVMMem.m_max_size = n_bits
    self.mam = None


@contract('UVMMem.configure', ret=False)
def configure(self, parent, hdl_path=''):
    if parent is None:
        uvm_fatal('REG/None_PARENT', '')
    self.m_parent = parent
    if self.m_access != 'RW' and self.m_access != 'RO':
        uvm_error('RegModel', '')
        self.m_access = 'RW'
    cfg = UVMMemMamCfg()
    cfg.n_bytes = int((self.m_n_bits - 1) / 8) + 1
    cfg.start_offset = 0
    cfg.end_offset = self.m_size - 1
    cfg.mode = UVMMemMam.GREEDY
    cfg.locality = UVMMemMam.BROAD
    self.mam = UVMMemMam(self.get_full_name(), cfg, self)
    self.m_parent.add_mem(self)
    if hdl_path != '':
        self.add_hdl_path_slice(hdl_path, -1, -1)


@contract('UVMMem.add_map', ret=False)
def add_map(self, _map):
    self.m_maps[_map] = 1


@contract('UVMMem.get_maps', ret=False)
def get_maps(self, maps):
    for map_ in self.m_maps.key_list():
        maps.append(map_)


@contract('UVMMem.get_local_map')
def get_local_map(self, _map, caller=''):
    if _map is None:
        return self.get_default_map()
    if _map in self.m_maps:
        return _map
    for l in self.m_maps:
        local_map = l
        parent_map = local_map.get_parent_map()
        while parent_map is not None:
            if parent_map == _map:
                return local_map
            parent_map = parent_map.get_parent_map()
    cname = ''
    if caller != '':
        cname = ' (called from ' + caller + ')'
    uvm_warning('RegModel', '')
    return None


@contract('UVMMem.get_default_map')
def get_default_map(self, caller=''):
    if self.m_maps.num() == 0:
        cname = ''
        if caller != '':
            cname = ' (called from ' + caller + ')'
        uvm_warning('RegModel', '')
        return None
    default_map = None
    if self.m_maps.num() == 1:
        get_default_map = self.m_maps.first()
    for l in self.m_maps:
        _map = l
        blk = _map.get_parent()
        default_map = blk.get_default_map()
        if default_map is not None:
            local_map = self.get_local_map(default_map)
            if local_map is not None:
                return local_map
    get_default_map = self.m_maps.first()
    return get_default_map


@contract('UVMMem.get_rights')
def get_rights(self, _map=None):
    info = None
    if self.m_maps.num() <= 1:
        return 'RW'
    _map = self.get_local_map(_map, 'get_rights()')
    if _map is None:
        return 'RW'
    info = _map.get_mem_map_info(self)
    return info.rights


@contract('UVMMem.get_access')
def get_access(self, _map=None):
    get_access = self.m_access
    if self.get_n_maps() == 1:
        return get_access
    _map = self.get_local_map(_map, 'get_access()')
    if _map is None:
        return get_access
    rights = self.get_rights(_map)
    if rights == 'RW':
        return get_access
    elif rights == 'RO':
        if get_access in ['RW', 'RO']:
            get_access = 'RO'
        elif get_access == 'WO':
            uvm_error('RegModel', '')
        else:
            uvm_error('RegModel', '')
    elif rights == 'WO':
        if get_access in ['RW', 'WO']:
            get_access = 'WO'
        elif get_access == 'RO':
            uvm_error('RegModel', '')
        else:
            uvm_error('RegModel', '')
    else:
        uvm_error('RegModel', '')
    return get_access


@contract('UVMMem.get_size')
def get_size(self):
    return self.m_size


@contract('UVMMem.get_n_bytes')
def get_n_bytes(self):
    return int((self.m_n_bits - 1) / 8) + 1


@contract('UVMMem.get_n_bits')
def get_n_bits(self):
    return self.m_n_bits


@contract('UVMMem.write', ret=False)
async def write(self, status, offset, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    rw = UVMRegItem.type_id.create('mem_write', None, self.get_full_name())
    rw.element = self
    rw.element_kind = UVM_MEM
    rw.kind = UVM_WRITE
    rw.offset = offset
    rw.value[0] = value
    rw.path = path
    rw.map = _map
    rw.parent = parent
    rw.prior = prior
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    await self.do_write(rw)
    status.append(rw.status)


@contract('UVMMem.read', ret=False)
async def read(self, status, offset, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status, value])
    rw = UVMRegItem.type_id.create('mem_read', None, self.get_full_name())
    rw.element = self
    rw.element_kind = UVM_MEM
    rw.kind = UVM_READ
    rw.value[0] = 0
    rw.offset = offset
    rw.path = path
    rw.map = _map
    rw.parent = parent
    rw.prior = prior
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    await self.do_read(rw)
    status.append(rw.status)
    value.append(rw.value[0])


@contract('UVMMem.burst_write', ret=False)
async def burst_write(self, status, offset, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    rw = UVMRegItem.type_id.create('mem_burst_write', None, self.get_full_name())
    rw.element = self
    rw.element_kind = UVM_MEM
    rw.kind = UVM_BURST_WRITE
    rw.offset = offset
    rw.value = value
    rw.path = path
    rw.map = _map
    rw.parent = parent
    rw.prior = prior
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    await self.do_write(rw)
    status.append(rw.status)


@contract('UVMMem.burst_read', ret=False)
async def burst_read(self, status, offset, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    rw = UVMRegItem.type_id.create('mem_burst_read', None, self.get_full_name())
    rw.element = self
    rw.element_kind = UVM_MEM
    rw.kind = UVM_BURST_READ
    rw.offset = offset
    rw.value = value
    rw.path = path
    rw.map = _map
    rw.parent = parent
    rw.prior = prior
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    await self.do_read(rw)
    status.append(rw.status)
    value[:] = rw.value


@contract('UVMMem.poke', ret=False)
async def poke(self, status, offset, value, kind='', parent=None, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    bkdr = self.get_backdoor()
    rw = None
    self.m_fname = fname
    self.m_lineno = lineno
    if bkdr is None and self.has_hdl_path(kind) is False:
        uvm_error('RegModel', '')
        status.append(UVM_NOT_OK)
        return
    rw = UVMRegItem.type_id.create('mem_poke_item', None, self.get_full_name())
    rw.element = self
    rw.path = UVM_BACKDOOR
    rw.element_kind = UVM_MEM
    rw.kind = UVM_WRITE
    rw.offset = offset
    rw.value[0] = value & (1 << self.m_n_bits) - 1
    rw.bd_kind = kind
    rw.parent = parent
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    if bkdr is not None:
        await bkdr.write(rw)
    else:
        self.backdoor_write(rw)
    status.append(rw.status)


@contract('UVMMem.poke', ret=False, asis='poke-user-backdoor')
def poke(self, status, offset, value, kind='', parent=None, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    bkdr = self.get_backdoor()
    rw = None
    self.m_fname = fname
    self.m_lineno = lineno
    if bkdr is None and self.has_hdl_path(kind) is False:
        uvm_error('RegModel', '')
        status.append(UVM_NOT_OK)
        return
    rw = UVMRegItem.type_id.create('mem_poke_item', None, self.get_full_name())
    rw.element = self
    rw.path = UVM_BACKDOOR
    rw.element_kind = UVM_MEM
    rw.kind = UVM_WRITE
    rw.offset = offset
    rw.value[0] = value & (1 << self.m_n_bits) - 1
    rw.bd_kind = kind
    rw.parent = parent
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    if bkdr is not None:
        bkdr.write(rw)
    else:
        self.backdoor_write(rw)
    status.append(rw.status)


@contract('UVMMem.peek', ret=False)
async def peek(self, status, offset, value, kind='', parent=None, extension=None, fname='', lineno=0):
    uvm_check_output_args([status, value])
    bkdr = self.get_backdoor()
    rw = None
    self.m_fname = fname
    self.m_lineno = lineno
    if bkdr is None and self.has_hdl_path(kind) is False:
        uvm_error('RegModel', '')
        status.append(UVM_NOT_OK)
        return
    rw = UVMRegItem.type_id.create('mem_peek_item', None, self.get_full_name())
    rw.element = self
    rw.path = UVM_BACKDOOR
    rw.element_kind = UVM_MEM
    rw.kind = UVM_READ
    rw.offset = offset
    rw.bd_kind = kind
    rw.parent = parent
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    if bkdr is not None:
        await bkdr.read(rw)
    else:
        self.backdoor_read(rw)
    status.append(rw.status)
    value.append(rw.value[0])


@contract('UVMMem.peek', ret=False, asis='peek-user-backdoor')
def peek(self, status, offset, value, kind='', parent=None, extension=None, fname='', lineno=0):
    uvm_check_output_args([status, value])
    bkdr = self.get_backdoor()
    rw = None
    self.m_fname = fname
    self.m_lineno = lineno
    if bkdr is None and self.has_hdl_path(kind) is False:
        uvm_error('RegModel', '')
        status.append(UVM_NOT_OK)
        return
    rw = UVMRegItem.type_id.create('mem_peek_item', None, self.get_full_name())
    rw.element = self
    rw.path = UVM_BACKDOOR
    rw.element_kind = UVM_MEM
    rw.kind = UVM_READ
    rw.offset = offset
    rw.bd_kind = kind
    rw.parent = parent
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    if bkdr is not None:
        bkdr.read(rw)
    else:
        self.backdoor_read(rw)
    status.append(rw.status)
    value.append(rw.value[0])


@contract('UVMMem.Xcheck_accessX', ret='bool')
def Xcheck_accessX(self, rw, map_info, caller):
    uvm_check_output_args([map_info])
    if rw.offset >= self.m_size:
        uvm_error(self.get_type_name(), '')
        rw.status = UVM_NOT_OK
        return False
    if rw.path == UVM_DEFAULT_PATH:
        rw.path = self.m_parent.get_default_path()
    if rw.path == UVM_BACKDOOR:
        if self.get_backdoor() is None and self.has_hdl_path() is False:
            uvm_warning('RegModel', '')
            rw.path = UVM_FRONTDOOR
        else:
            rw.map = UVMRegMap.backdoor()
    if rw.path != UVM_BACKDOOR:
        rw.local_map = self.get_local_map(rw.map, caller)
        if rw.local_map is None:
            name = self.get_full_name()
            if rw.map is not None:
                name = rw.map.get_full_name()
            uvm_error(self.get_type_name(), '')
            rw.status = UVM_NOT_OK
            return False
        _map_info_data = rw.local_map.get_mem_map_info(self)
        map_info.append(_map_info_data)
        if _map_info_data.frontdoor is None:
            if _map_info_data.unmapped:
                name = rw.local_map.get_full_name()
                if rw.map is not None:
                    name = rw.map.get_full_name()
                uvm_error('RegModel', '')
                rw.status = UVM_NOT_OK
                return False
            if len(rw.value) > 1:
                if self.get_n_bits() > rw.local_map.get_n_bytes() * 8:
                    uvm_error('RegModel', '')
                    rw.status = UVM_NOT_OK
                    return False
                if rw.offset + len(rw.value) > self.m_size:
                    uvm_error('RegModel', '')
                    rw.status = UVM_NOT_OK
                    return False
        if rw.map is None:
            rw.map = rw.local_map
    return True


@contract('UVMMem.do_write', ret=False)
async def do_write(self, rw):
    cbs = UVMMemCbIter(self)
    arr_map_info = []
    self.m_fname = rw.fname
    self.m_lineno = rw.lineno
    if self.Xcheck_accessX(rw, arr_map_info, 'burst_write()') is False:
        await uvm_zero_delay()
        return
    self.m_write_in_progress = True
    rw.status = UVM_IS_OK
    await self.pre_write(rw)
    cb = cbs.first()
    while cb is not None:
        await cb.pre_write(rw)
        cb = cbs.next()
    if rw.status != UVM_IS_OK:
        self.m_write_in_progress = False
        return
    rw.status = UVM_NOT_OK
    if rw.path == UVM_FRONTDOOR:
        map_info = arr_map_info[0]
        system_map = rw.local_map.get_root_map()
        if map_info.frontdoor is not None:
            fd = map_info.frontdoor
            fd.rw_info = rw
            if fd.sequencer is None:
                fd.sequencer = system_map.get_sequencer()
            await fd.start(fd.sequencer, rw.parent)
        else:
            await rw.local_map.do_write(rw)
        if rw.status != UVM_NOT_OK:
            _min = rw.offset
            _max = rw.offset + len(rw.value)
            for idx in range(_min, _max):
                self.XsampleX(map_info.mem_range.stride * idx, 0, rw.map)
                self.m_parent.XsampleX(map_info.offset + map_info.mem_range.stride * idx, 0, rw.map)
    elif self.get_access(rw.map) == 'RW':
        bkdr = self.get_backdoor()
        if bkdr is not None:
            await bkdr.write(rw)
        else:
            self.backdoor_write(rw)
    else:
        rw.status = UVM_IS_OK
    await self.post_write(rw)
    cb = cbs.first()
    while cb is not None:
        await cb.post_write(rw)
        cb = cbs.next()
    if uvm_report_enabled(UVM_HIGH, UVM_INFO, 'RegModel'):
        path_s = ''
        value_s = ''
        pre_s = ''
        range_s = ''
        if rw.path == UVM_FRONTDOOR:
            path_s = 'map ' + rw.map.get_full_name()
            if map_info.frontdoor is not None:
                path_s = 'user frontdoor'
        else:
            path_s = 'DPI backdoor'
            if self.get_backdoor() is not None:
                path_s = 'user backdoor'
        if len(rw.value) > 1:
            value_s = "='{"
            pre_s = 'Burst '
            for i in range(len(rw.value)):
                value_s = value_s + sv.sformatf('%0h,', rw.value[i])
            value_s = value_s[:-1] + '}'
            range_s = sv.sformatf('[%0d:%0d]', rw.offset, rw.offset + len(rw.value))
        else:
            value_s = sv.sformatf('=%0h', rw.value[0])
            range_s = sv.sformatf('[%0d]', rw.offset)
    self.m_write_in_progress = False


@contract('UVMMem.do_read', ret=False)
async def do_read(self, rw):
    cbs = UVMMemCbIter(self)
    arr_map_info = []
    self.m_fname = rw.fname
    self.m_lineno = rw.lineno
    if self.Xcheck_accessX(rw, arr_map_info, 'burst_read()') is False:
        await uvm_zero_delay()
        return
    self.m_read_in_progress = True
    rw.status = UVM_IS_OK
    await self.pre_read(rw)
    cb = cbs.first()
    while cb is not None:
        await cb.pre_read(rw)
        cb = cbs.next()
    if rw.status != UVM_IS_OK:
        self.m_read_in_progress = False
        return
    rw.status = UVM_NOT_OK
    if rw.path == UVM_FRONTDOOR:
        map_info = arr_map_info[0]
        system_map = rw.local_map.get_root_map()
        if map_info.frontdoor is not None:
            fd = map_info.frontdoor
            fd.rw_info = rw
            if fd.sequencer is None:
                fd.sequencer = system_map.get_sequencer()
            await fd.start(fd.sequencer, rw.parent)
        else:
            await rw.local_map.do_read(rw)
        if rw.status != UVM_NOT_OK:
            _min = rw.offset
            _max = rw.offset + len(rw.value)
            for idx in range(_min, _max):
                self.XsampleX(map_info.mem_range.stride * idx, 1, rw.map)
                self.m_parent.XsampleX(map_info.offset + map_info.mem_range.stride * idx, 1, rw.map)
    else:
        bkdr = self.get_backdoor()
        if bkdr is not None:
            await bkdr.read(rw)
        else:
            self.backdoor_read(rw)
    await self.post_read(rw)
    cb = cbs.first()
    while cb is not None:
        await cb.post_read(rw)
        cb = cbs.next()
    if uvm_report_enabled(UVM_HIGH, UVM_INFO, 'RegModel'):
        path_s = ''
        value_s = ''
        pre_s = ''
        range_s = ''
        if rw.path == UVM_FRONTDOOR:
            path_s = 'map ' + rw.map.get_full_name()
            map_info = arr_map_info[0]
            if map_info.frontdoor is not None:
                path_s = 'user frontdoor'
        else:
            path_s = 'DPI backdoor'
            if self.get_backdoor() is not None:
                path_s = 'user backdoor'
        if len(rw.value) > 1:
            value_s = "='{"
            pre_s = 'Burst '
            for i in range(len(rw.value)):
                value_s = value_s + sv.sformatf('%0h,', int(rw.value[i]))
            value_s = value_s[:-1] + '}'
            range_s = sv.sformatf('[%0d:%0d]', rw.offset, rw.offset + len(rw.value))
        else:
            value_s = sv.sformatf('=%0h', int(rw.value[0]))
            range_s = sv.sformatf('[%0d]', rw.offset)
    self.m_read_in_progress = False


@contract('UVMMem.add_coverage', ret=False)
def add_coverage(self, models):
    self.m_has_cover |= models


@contract('UVMMem.has_coverage', ret='bool')
def has_coverage(self, models):
    return self.m_has_cover & models == models


@contract('UVMMem.set_coverage')
def set_coverage(self, is_on):
    if is_on == UVM_NO_COVERAGE:
        self.m_cover_on = is_on
        return self.m_cover_on
    self.m_cover_on = self.m_has_cover & is_on
    return self.m_cover_on


@contract('UVMMem.get_coverage')
def get_coverage(self, is_on):
    if self.has_coverage(is_on) == 0:
        return 0
    return self.m_cover_on & is_on == is_on


@contract('UVMMem.build_coverage')
def build_coverage(self, models):
    build_coverage = UVM_NO_COVERAGE
    cov_arr = []
    uvm_reg_cvr_rsrc_db.read_by_name('uvm_reg::' + self.get_full_name(), 'include_coverage', cov_arr, self)
    if len(cov_arr) > 0:
        build_coverage = cov_arr[0]
    return build_coverage & models


@contract('UVMMem.XsampleX', ret=False)
def XsampleX(self, addr, is_read, _map):
    self.sample(addr, is_read, _map)

