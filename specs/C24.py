
@contract('UVMReg.add_field')
def add_field(self, field):
    offset = 0
    idx = 0
    if self.m_locked:
        uvm_report_error('RegModel', '')
        return
    if field is None:
        uvm_report_fatal('RegModel', '')
    offset = field.get_lsb_pos()
    idx = -1
    for i, f in enumerate(self.m_fields):
        if offset < f.get_lsb_pos():
            j = i
            self.m_fields.insert(j, field)
            idx = i
            break
    if idx < 0:
        self.m_fields.append(field)
        idx = len(self.m_fields) - 1
    self.m_n_used_bits += field.get_n_bits()
    if self.m_n_used_bits > self.m_n_bits:
        uvm_report_error('RegModel', '')
    if idx > 0:
        if self.m_fields[idx - 1].get_lsb_pos() + self.m_fields[idx - 1].get_n_bits() > offset:
            uvm_report_error('RegModel', '')
    if idx < len(self.m_fields) - 1:
        if offset + field.get_n_bits() > self.m_fields[idx + 1].get_lsb_pos():
            uvm_report_error('RegModel', '')


@contract('UVMReg.add_map', ret=False)
def add_map(self, reg_map):
    self.m_maps.add(reg_map, 1)


@contract('UVMReg.is_in_map', ret='bool')
def is_in_map(self, _map):
    if _map in self.m_maps:
        return True
    for key in self.m_maps.key_list():
        local_map = key
        parent_map = local_map.get_parent_map()
        while parent_map is not None:
            if parent_map == _map:
                return True
            parent_map = parent_map.get_parent_map()
    return False


@contract('UVMReg.get_maps')
def get_maps(self, maps):
    for _map in self.m_maps.key_list():
        maps.append(_map)
    return maps


@contract('UVMReg.get_local_map')
def get_local_map(self, reg_map, caller=''):
    if reg_map is None:
        return self.get_default_map()
    if reg_map in self.m_maps:
        return reg_map
    for loc_map in self.m_maps.keys():
        local_map = loc_map
        parent_map = local_map.get_parent_map()
        while parent_map is not None:
            if parent_map == reg_map:
                return local_map
            parent_map = parent_map.get_parent_map()
    cname = self._get_cname(caller)
    uvm_report_warning('RegModel', '')
    return None


@contract('UVMReg.get_default_map')
def get_default_map(self, caller=''):
    if self.m_maps.num() == 0:
        cname = self._get_cname(caller)
        uvm_report_warning('RegModel', '')
        return None
    if self.m_maps.num() == 1:
        return self.m_maps.first()
    for loc_map in self.m_maps.keys():
        reg_map = loc_map
        blk = reg_map.get_parent()
        default_map = blk.get_default_map()
        if default_map is not None:
            local_map = self.get_local_map(default_map, 'get_default_map()')
            if local_map is not None:
                return local_map
    return self.m_maps.first()


@contract('UVMReg.get_n_bytes')
def get_n_bytes(self):
    return int((self.m_n_bits - 1) / 8) + 1


@contract('UVMReg.get_fields')
def get_fields(self, fields):
    for f in self.m_fields:
        fields.append(f)
    return fields


@contract('UVMReg.get_field_by_name')
def get_field_by_name(self, name):
    for f in self.m_fields:
        if f.get_name() == name:
            return f
    uvm_warning('RegModel', '')
    return None


@contract('UVMReg.get_offset')
def get_offset(self, reg_map=None):
    orig_map = reg_map
    reg_map = self.get_local_map(reg_map, 'get_offset()')
    if reg_map is None:
        return -1
    map_info = reg_map.get_reg_map_info(self)
    if map_info.unmapped:
        map_name = reg_map.get_full_name()
        if orig_map is not None:
            map_name = orig_map.get_full_name()
        uvm_report_warning('RegModel', '')
        return -1
    return map_info.offset


@contract('UVMReg.get_addresses')
def get_addresses(self, reg_map, addr):
    map_info = None
    system_map = None
    orig_map = reg_map
    reg_map = self.get_local_map(reg_map, 'get_addresses()')
    if reg_map is None:
        return -1
    map_info = reg_map.get_reg_map_info(self)
    if map_info.unmapped:
        map_name = reg_map.get_full_name()
        if orig_map is not None:
            map_name = orig_map.get_full_name()
        uvm_warning('RegModel', '')
        return -1
    addr.extend(map_info.addr)
    system_map = reg_map.get_root_map()
    return reg_map.get_n_bytes()


@contract('UVMReg.get_address')
def get_address(self, reg_map=None):
    addr = []
    self.get_addresses(reg_map, addr)
    if len(addr) > 0:
        return addr[0]


@contract('UVMReg.set', ret=False)
def set(self, value, fname='', lineno=0):
    self.m_fname = fname
    self.m_lineno = lineno
    for field in self.m_fields:
        field.set(value >> field.get_lsb_pos() & (1 << field.get_n_bits()) - 1)


@contract('UVMReg.get')
def get(self, fname='', lineno=0):
    self.m_fname = fname
    self.m_lineno = lineno
    get = 0
    for field in self.m_fields:
        get |= field.get() << field.get_lsb_pos()
    return get


@contract('UVMReg.get_mirrored_value')
def get_mirrored_value(self, fname='', lineno=0):
    self.m_fname = fname
    self.m_lineno = lineno
    get_mirrored_value = 0
    for i in range(len(self.m_fields)):
        lsb_pos = self.m_fields[i].get_lsb_pos()
        get_mirrored_value |= self.m_fields[i].get_mirrored_value() << lsb_pos
    return get_mirrored_value


@contract('UVMReg.needs_update', ret='bool')
def needs_update(self):
    for i in range(len(self.m_fields)):
        if self.m_fields[i].needs_update():
            return True
    return False


@contract('UVMReg.reset', ret=False)
def reset(self, kind='HARD'):
    for i in range(len(self.m_fields)):
        self.m_fields[i].reset(kind)
    q = []
    self.m_atomic.try_get(q)
    self.m_atomic.try_put(1)
    self.m_process = None
    self.Xset_busyX(0)


@contract('UVMReg.set_reset', ret=False)
def set_reset(self, value, kind='HARD'):
    for f in self.m_fields:
        f.set_reset(value >> f.get_lsb_pos(), kind)


@contract('UVMReg.write')
async def write(self, status, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    rw = UVMRegItem.type_id.create('write_item', None, self.get_full_name())
    await self.XatomicX(1, rw)
    self.set(value)
    rw.element = self
    rw.element_kind = UVM_REG
    rw.kind = UVM_WRITE
    rw.value[0] = value
    rw.path = path
    rw.map = _map
    rw.parent = parent
    rw.prior = prior
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    await self.do_write(rw)
    status.append(rw.status)
    await self.XatomicX(0)
    return rw.status


@contract('UVMReg.read')
async def read(self, status, value, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status, value])
    rw = UVMRegItem.type_id.create('pseudo-read_item', None, self.get_full_name())
    await self.XatomicX(1, rw)
    await self.XreadX(status, value, path, _map, parent, prior, extension, fname, lineno)
    await self.XatomicX(0)
    return status[0]


@contract('UVMReg.update', ret=False)
async def update(self, status, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    upd = 0
    if self.needs_update() is False:
        status.append(UVM_IS_OK)
        return
    for i in range(len(self.m_fields)):
        upd = upd | self.m_fields[i].XupdateX() << self.m_fields[i].get_lsb_pos()
    await self.write(status, upd, path, _map, parent, prior, extension, fname, lineno)


@contract('UVMReg.mirror', ret=False)
async def mirror(self, status, check=UVM_NO_CHECK, path=UVM_DEFAULT_PATH, _map=None, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status])
    exp = 0
    bkdr = self.get_backdoor()
    rw = UVMRegItem.type_id.create('mirror_pseudo_item', None, self.get_full_name())
    await self.XatomicX(1, rw)
    self.m_fname = fname
    self.m_lineno = lineno
    if path == UVM_DEFAULT_PATH:
        path = self.m_parent.get_default_path()
    if path == UVM_BACKDOOR and (bkdr is not None or self.has_hdl_path()):
        _map = UVMRegMap.backdoor()
    else:
        _map = self.get_local_map(_map, 'read()')
    if _map is None:
        status.append(UVM_NOT_OK)
        await self.XatomicX(0)
        return
    if check == UVM_CHECK:
        exp = self.get_mirrored_value()
    v = []
    await self.XreadX(status, v, path, _map, parent, prior, extension, fname, lineno)
    v = v[0]
    if status[0] == UVM_NOT_OK:
        await self.XatomicX(0)
        return
    if check == UVM_CHECK:
        self.do_check(exp, v, _map)
    await self.XatomicX(0)


@contract('UVMReg.predict')
def predict(self, value, be=-1, kind=UVM_PREDICT_DIRECT, path=UVM_FRONTDOOR, reg_map=None, fname='', lineno=0):
    rw = UVMRegItem()
    rw.value[0] = value
    rw.path = path
    rw.map = reg_map
    rw.fname = fname
    rw.lineno = lineno
    self.do_predict(rw, kind, be)
    predict = 1
    if rw.status == UVM_NOT_OK:
        predict = 0
    return predict


@contract('UVMReg.is_busy')
def is_busy(self):
    return self.m_is_busy


@contract('UVMReg.Xset_busyX', ret=False)
def Xset_busyX(self, busy):
    self.m_is_busy = busy


@contract('UVMReg.XreadX', ret=False)
async def XreadX(self, status, value, path, _map, parent=None, prior=-1, extension=None, fname='', lineno=0):
    uvm_check_output_args([status, value])
    rw = UVMRegItem.type_id.create('read_item', None, self.get_full_name())
    rw.element = self
    rw.element_kind = UVM_REG
    rw.kind = UVM_READ
    rw.value[0] = 0
    rw.path = path
    rw.map = _map
    rw.parent = parent
    rw.prior = prior
    rw.extension = extension
    rw.fname = fname
    rw.lineno = lineno
    await self.do_read(rw)
    status.append(rw.status)
    value.append(rw.value[0])


@contract('UVMReg.XatomicX', ret=False)
async def XatomicX(self, on, rw=None):
    if on == 1:
        if rw is None:
            raise Exception('rw must not be None for on=1')
        if rw is not None and rw == self.m_atomic_rw:
            await uvm_zero_delay()
            return
        q = []
        await self.m_atomic.get(q)
        self.m_atomic_rw = rw
    else:
        q = []
        self.m_atomic.try_get(q)
        await self.m_atomic.put(1)
        self.m_atomic_rw = None


@contract('UVMReg.Xcheck_accessX', ret='bool')
def Xcheck_accessX(self, rw, map_info, caller):
    uvm_check_output_args([map_info])
    if rw.path == UVM_DEFAULT_PATH:
        rw.path = self.m_parent.get_default_path()
    if rw.path == UVM_BACKDOOR:
        if self.get_backdoor() is None and (not self.has_hdl_path()):
            uvm_warning('RegModel', '')
            rw.path = UVM_FRONTDOOR
        else:
            rw.map = UVMRegMap.backdoor()
    if rw.path != UVM_BACKDOOR:
        rw.local_map = self.get_local_map(rw.map, caller)
        if rw.local_map is None:
            name = self.get_full_name()
            if rw.map is not None:
                name = rw.map.get_full_name()
            uvm_error(self.get_type_name(), '')
            rw.status = UVM_NOT_OK
            return False
        _map_info = rw.local_map.get_reg_map_info(self)
        map_info.append(_map_info)
        if _map_info.frontdoor is None and _map_info.unmapped:
            name = rw.local_map.get_full_name()
            if rw.map is not None:
                name = rw.map.get_full_name()
            uvm_error('RegModel', '')
            rw.status = UVM_NOT_OK
            return False
        if rw.map is None:
            rw.map = rw.local_map
    return True


@contract('UVMReg.do_check', ret='bool')
def do_check(self, expected, actual, _map):
    dc = 0
    for i in range(len(self.m_fields)):
        acc = self.m_fields[i].get_access(_map)
        acc = acc[0:2]
        if self.m_fields[i].get_compare() == UVM_NO_CHECK or acc == 'WO':
            lsb_pos = self.m_fields[i].get_lsb_pos()
            dc |= (1 << self.m_fields[i].get_n_bits()) - 1 << lsb_pos
    if actual | dc == expected | dc:
        return True
    uvm_error('RegModel', '')
    for i in range(len(self.m_fields)):
        acc = self.m_fields[i].get_access(_map)
        acc = acc[0:2]
        if not (self.m_fields[i].get_compare() == UVM_NO_CHECK or acc == 'WO'):
            mask = (1 << self.m_fields[i].get_n_bits()) - 1
            val = actual >> self.m_fields[i].get_lsb_pos() & mask
            exp = expected >> self.m_fields[i].get_lsb_pos() & mask
            if val != exp:
                pass
    return False


@contract('UVMReg.do_write', ret=False, stable=['m_fields'])
async def do_write(self, rw):
    await uvm_zero_delay()
    cbs = UVMRegCbIter(self)
    arr_map_info = []
    value = 0
    self.m_fname = rw.fname
    self.m_lineno = rw.lineno
    if self.Xcheck_accessX(rw, arr_map_info, 'write()') is False:
        await uvm_zero_delay()
        return
    self.m_write_in_progress = True
    rw.value[0] &= (1 << self.m_n_bits) - 1
    value = rw.value[0]
    rw.status = UVM_IS_OK
    msk = 0
    lsb = 0
    for i in range(len(self.m_fields)):
        fld_cbs = UVMRegFieldCbIter(self.m_fields[i])
        f = self.m_fields[i]
        lsb = f.get_lsb_pos()
        msk = (1 << f.get_n_bits()) - 1 << lsb
        rw.value[0] = (value & msk) >> lsb
        await f.pre_write(rw)
        cb = fld_cbs.first()
        while cb is not None:
            rw.element = f
            rw.element_kind = UVM_FIELD
            await cb.pre_write(rw)
            cb = fld_cbs.next()
        value = value & ~msk | rw.value[0] << lsb
    rw.element = self
    rw.element_kind = UVM_REG
    rw.value[0] = value
    await self.pre_write(rw)
    cb = cbs.first()
    while cb is not None:
        await cb.pre_write(rw)
        cb = cbs.next()
    if rw.status != UVM_IS_OK:
        self.m_write_in_progress = False
        return
    if rw.path == UVM_BACKDOOR:
        final_val = 0
        bkdr = self.get_backdoor()
        value = rw.value[0]
        rw.kind = UVM_READ
        if bkdr is not None:
            await bkdr.read(rw)
        else:
            self.backdoor_read(rw)
        if rw.status == UVM_NOT_OK:
            self.m_write_in_progress = False
            return
        for i in range(len(self.m_fields)):
            field_val = 0
            lsb = self.m_fields[i].get_lsb_pos()
            sz = self.m_fields[i].get_n_bits()
            field_val = self.m_fields[i].XpredictX(rw.value[0] >> lsb & (1 << sz) - 1, value >> lsb & (1 << sz) - 1, rw.local_map)
            final_val |= field_val << lsb
        rw.kind = UVM_WRITE
        rw.value[0] = final_val
        if bkdr is not None:
            await bkdr.write(rw)
        else:
            self.backdoor_write(rw)
        self.do_predict(rw, UVM_PREDICT_WRITE)
    elif rw.path == UVM_FRONTDOOR:
        system_map = rw.local_map.get_root_map()
        self.m_is_busy = True
        map_info = arr_map_info[0]
        if map_info is not None and map_info.frontdoor is not None:
            fd = map_info.frontdoor
            fd.rw_info = rw
            if fd.sequencer is None:
                fd.sequencer = system_map.get_sequencer()
            await fd.start(fd.sequencer, rw.parent)
        else:
            await rw.local_map.do_write(rw)
        self.m_is_busy = False
        if system_map.get_auto_predict():
            status = 0
            if rw.status != UVM_NOT_OK:
                self.sample(value, -1, 0, rw.map)
                self.m_parent.XsampleX(map_info.offset, 0, rw.map)
            status = rw.status
            self.do_predict(rw, UVM_PREDICT_WRITE)
            rw.status = status
    value = rw.value[0]
    cb = cbs.first()
    while cb is not None:
        await cb.post_write(rw)
        cb = cbs.next()
    await self.post_write(rw)
    for i in range(len(self.m_fields)):
        fld_cbs = UVMRegFieldCbIter(self.m_fields[i])
        f = self.m_fields[i]
        rw.element = f
        rw.element_kind = UVM_FIELD
        rw.value[0] = value >> f.get_lsb_pos() & (1 << f.get_n_bits()) - 1
        cb = fld_cbs.first()
        while cb is not None:
            await cb.post_write(rw)
            cb = fld_cbs.next()
        await f.post_write(rw)
    rw.value[0] = value
    rw.element = self
    rw.element_kind = UVM_REG
    map_info = None
    if len(arr_map_info) > 0:
        map_info = arr_map_info[0]
    self._report_op_with(rw, map_info)
    self.m_write_in_progress = False


@contract('UVMReg.do_read', ret=False, stable=['m_fields'])
async def do_read(self, rw):
    value = 0
    exp = 0
    self.m_fname = rw.fname
    self.m_lineno = rw.lineno
    arr_map_info = []
    if not self.Xcheck_accessX(rw, arr_map_info, 'read()'):
        return
    self.m_read_in_progress = 1
    rw.status = UVM_IS_OK
    for i in range(len(self.m_fields)):
        cbs = UVMRegFieldCbIter(self.m_fields[i])
        f = self.m_fields[i]
        rw.element = f
        rw.element_kind = UVM_FIELD
        await self.m_fields[i].pre_read(rw)
        cb = cbs.first()
        while cb is not None:
            await cb.pre_read(rw)
            cb = cbs.next()
    rw.element = self
    rw.element_kind = UVM_REG
    cbs = UVMRegCbIter(self)
    await self.pre_read(rw)
    cb = cbs.first()
    while cb is not None:
        await cb.pre_read(rw)
        cb = cbs.next()
    if rw.status != UVM_IS_OK:
        self.m_read_in_progress = 0
        return
    if rw.path == UVM_BACKDOOR:
        bkdr = self.get_backdoor()
        _map = UVMRegMap.backdoor()
        if _map.get_check_on_read():
            exp = self.get()
        if bkdr is not None:
            await bkdr.read(rw)
        else:
            self.backdoor_read(rw)
        value = rw.value[0]
        if rw.status != UVM_NOT_OK:
            wo_mask = 0
            for i in range(len(self.m_fields)):
                acc = self.m_fields[i].get_access(UVMRegMap.backdoor())
                nbits = self.m_fields[i].get_n_bits()
                lsb_pos = self.m_fields[i].get_lsb_pos()
                if acc == 'RC' or acc == 'WRC' or acc == 'WSRC' or (acc == 'W1SRC') or (acc == 'W0SRC'):
                    value &= ~((1 << nbits) - 1 << lsb_pos)
                elif acc == 'RS' or acc == 'WRS' or acc == 'WCRS' or (acc == 'W1CRS') or (acc == 'W0CRS'):
                    value |= (1 << nbits) - 1 << lsb_pos
                elif acc == 'WO' or acc == 'WOC' or acc == 'WOS' or (acc == 'WO1'):
                    wo_mask |= (1 << nbits) - 1 << lsb_pos
            if value != rw.value[0]:
                saved = rw.value[0]
                rw.value[0] = value
                if bkdr is not None:
                    await bkdr.write(rw)
                else:
                    self.backdoor_write(rw)
                rw.value[0] = saved
            rw.value[0] &= ~wo_mask
            if _map.get_check_on_read() and rw.status != UVM_NOT_OK:
                self.do_check(exp, rw.value[0], _map)
            self.do_predict(rw, UVM_PREDICT_READ)
    elif rw.path == UVM_FRONTDOOR:
        system_map = rw.local_map.get_root_map()
        self.m_is_busy = True
        if rw.local_map.get_check_on_read():
            exp = self.get()
        map_info = arr_map_info[0]
        if map_info.frontdoor is not None:
            fd = map_info.frontdoor
            fd.rw_info = rw
            if fd.sequencer is None:
                fd.sequencer = system_map.get_sequencer()
            await fd.start(fd.sequencer, rw.parent)
        else:
            await rw.local_map.do_read(rw)
        self.m_is_busy = 0
        if system_map.get_auto_predict():
            status = 0
            if rw.local_map.get_check_on_read() and rw.status != UVM_NOT_OK:
                self.do_check(exp, rw.value[0], system_map)
            if rw.status != UVM_NOT_OK:
                self.sample(rw.value[0], -1, 1, rw.map)
                self.m_parent.XsampleX(map_info.offset, 1, rw.map)
            status = rw.status
            self.do_predict(rw, UVM_PREDICT_READ)
            rw.status = status
    value = rw.value[0]
    cb = cbs.first()
    while cb is not None:
        await cb.post_read(rw)
        cb = cbs.next()
    await self.post_read(rw)
    for i in range(len(self.m_fields)):
        cbs = UVMRegFieldCbIter(self.m_fields[i])
        f = self.m_fields[i]
        rw.element = f
        rw.element_kind = UVM_FIELD
        rw.value[0] = value >> f.get_lsb_pos() & (1 << f.get_n_bits()) - 1
        cb = cbs.first()
        while cb is not None:
            await cb.post_read(rw)
            cb = cbs.next()
        await f.post_read(rw)
    rw.value[0] = value
    rw.element = self
    rw.element_kind = UVM_REG
    map_info = None
    if len(arr_map_info) > 0:
        map_info = arr_map_info[0]
    self._report_op_with(rw, map_info)
    self.m_read_in_progress = False


@contract('UVMReg.do_predict', ret=False)
def do_predict(self, rw, kind=UVM_PREDICT_DIRECT, be=-1):
    reg_value = rw.value[0]
    self.m_fname = rw.fname
    self.m_lineno = rw.lineno
    if rw.status == UVM_IS_OK:
        rw.status = UVM_IS_OK
    if self.m_is_busy and kind == UVM_PREDICT_DIRECT:
        uvm_report_warning('RegModel', '')
        rw.status = UVM_NOT_OK
        return
    for field in self.m_fields:
        rw.value[0] = reg_value >> field.get_lsb_pos() & (1 << field.get_n_bits()) - 1
        be_shift = int(field.get_lsb_pos() / 8)
        field.do_predict(rw, kind, be >> be_shift)
    rw.value[0] = reg_value

