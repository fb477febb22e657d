
@contract('UVMRegMapInfo.__init__', ret=False)
def __init__(self):
    self.offset = 0
    self.rights = ''
    self.unmapped = False
    self.addr = []
    self.frontdoor = None
    self.mem_range = UVMRegMapAddrRange()
    self.is_initialized = False


@contract('UVMRegMap.__init__', ret=False)
def __init__(self, name='uvm_reg_map'):
    n = 'default_map'
    if name != '':
        n = name
    UVMObject.__init__(self, n)
    self.m_auto_predict = 0
    self.m_check_on_read = True
    self.m_base_addr = 0
    self.m_n_bytes = 0
    self.m_endian = 0
    self.m_byte_addressing = False
    self.m_sequence_wrapper = None
    self.m_adapter = None
    self.m_sequencer = None
    self.m_parent = None
    self.m_system_n_bytes = 0
    self.m_parent_map = None
    self.m_parent_maps = {}
    self.m_submaps = {}
    self.m_submap_rights = {}
    self.m_regs_info = {}
    self.m_mems_info = {}
    self.m_regs_by_offset = {}
    self.m_regs_by_offset_wo = {}
    self.m_mems_by_offset = {}
    self.policy = None


@contract('UVMRegMap.configure', ret=False)
def configure(self, parent, base_addr, n_bytes, endian, byte_addressing=1):
    self.m_parent = parent
    self.m_n_bytes = n_bytes
    self.m_endian = endian
    self.m_base_addr = base_addr
    self.m_byte_addressing = byte_addressing


@contract('UVMRegMap.backdoor')
def backdoor(cls):
    if UVMRegMap.m_backdoor is None:
        UVMRegMap.m_backdoor = UVMRegMap('Backdoor')
    return UVMRegMap.m_backdoor


@contract('UVMRegMap.Xinit_address_mapX', ret=False)
def Xinit_address_mapX(self):
    bus_width = 0
    top_map = self.get_root_map()
    if self == top_map:
        top_map.m_regs_by_offset = {}
        top_map.m_regs_by_offset_wo = {}
        top_map.m_mems_by_offset = {}
    for l in self.m_submaps:
        _map = l
        _map.Xinit_address_mapX()
    for rg_ in self.m_regs_info:
        rg = rg_
        self.m_regs_info[rg].is_initialized = True
        if not self.m_regs_info[rg].unmapped:
            rg_acc = rg.Xget_fields_accessX(self)
            addrs = []
            rg_offset = self.m_regs_info[rg].offset
            bus_width = self.get_physical_addresses(rg_offset, 0, rg.get_n_bytes(), addrs)
            for i in range(len(addrs)):
                addr = addrs[i]
                if addr in top_map.m_regs_by_offset:
                    rg2 = top_map.m_regs_by_offset[addr]
                    rg2_acc = rg2.Xget_fields_accessX(self)
                    if rg_acc == 'RO' and rg2_acc == 'WO':
                        top_map.m_regs_by_offset[addr] = rg
                        UVMRegReadOnlyCbs.add(rg)
                        top_map.m_regs_by_offset_wo[addr] = rg2
                        UVMRegWriteOnlyCbs.add(rg2)
                    elif rg_acc == 'WO' and rg2_acc == 'RO':
                        top_map.m_regs_by_offset_wo[addr] = rg
                        UVMRegWriteOnlyCbs.add(rg)
                        UVMRegReadOnlyCbs.add(rg2)
                    else:
                        a = ''
                        a = sv.sformatf('%0h', addr)
                        uvm_warning('RegModel', '')
                else:
                    top_map.m_regs_by_offset[addr] = rg
                for rr in top_map.m_mems_by_offset:
                    if addr >= rr.min and addr <= rr.max:
                        a = sv.sformatf('%0h', addr)
                        b = sv.sformatf('[%0h:%0h]', rr.min, rr.max)
                        uvm_warning('RegModel', '')
            self.m_regs_info[rg].addr = addrs
    for mem_ in self.m_mems_info:
        mem = mem_
        if not self.m_mems_info[mem].unmapped:
            addrs = []
            addrs_max = []
            min1 = 0
            max1 = 0
            min2 = 0
            max2 = 0
            stride = 0
            mem_offset = self.m_mems_info[mem].offset
            bus_width = self.get_physical_addresses(mem_offset, 0, mem.get_n_bytes(), addrs)
            if addrs[0] < addrs[len(addrs) - 1]:
                min1 = addrs[0]
            else:
                min1 = addrs[len(addrs) - 1]
            min2 = addrs[0]
            mem_offset = self.m_mems_info[mem].offset
            self.get_physical_addresses(mem_offset, mem.get_size() - 1, mem.get_n_bytes(), addrs_max)
            if addrs_max[0] > addrs_max[len(addrs_max) - 1]:
                max1 = addrs_max[0]
            else:
                max1 = addrs_max[len(addrs_max) - 1]
            max2 = addrs_max[0]
            if mem.get_size() > 1:
                stride = int((max2 - min2) / (mem.get_size() - 1))
            for reg_addr in top_map.m_regs_by_offset:
                if reg_addr >= min1 and reg_addr <= max1:
                    a = ''
                    a = sv.sformatf('%0h', reg_addr)
                    reg_name = top_map.m_regs_by_offset[reg_addr].get_full_name()
                    uvm_warning('RegModel', '')
            for rr in top_map.m_mems_by_offset:
                if min1 <= rr.max and max1 >= rr.max or (min1 <= rr.min and max1 >= rr.min) or (min1 >= rr.min and max1 <= rr.max):
                    a = sv.sformatf('[%0h:%0h]', min1, max1)
                    uvm_warning('RegModel', '')
            addr_range = UVMRegMapAddrRange(min1, max1, stride)
            top_map.m_mems_by_offset[addr_range] = mem
            self.m_mems_info[mem].addr = addrs
            self.m_mems_info[mem].mem_range = addr_range
    if bus_width == 0:
        bus_width = self.m_n_bytes
    self.m_system_n_bytes = bus_width


@contract('UVMRegMap.add_reg', ret=False)
def add_reg(self, rg, offset, rights='RW', unmapped=0, frontdoor=None):
    if rg in self.m_regs_info:
        uvm_error('RegModel', '')
        return
    if rg.get_parent() != self.get_parent():
        uvm_error('RegModel', '')
        return
    rg.add_map(self)
    info = UVMRegMapInfo()
    info.offset = offset
    info.rights = rights
    info.unmapped = unmapped
    info.frontdoor = frontdoor
    self.m_regs_info[rg] = info


@contract('UVMRegMap.add_mem', ret=False)
def add_mem(self, mem, offset, rights='RW', unmapped=0, frontdoor=None):
    if mem in self.m_mems_info:
        uvm_error('RegModel', '')
        return
    if mem.get_parent() != self.get_parent():
        uvm_error('RegModel', '')
        return
    mem.add_map(self)
    info = UVMRegMapInfo()
    info.offset = offset
    info.rights = rights
    info.unmapped = unmapped
    info.frontdoor = frontdoor
    self.m_mems_info[mem] = info


@contract('UVMRegMap.add_submap', ret=False)
def add_submap(self, child_map, offset):
    parent_map = None
    if child_map is None:
        uvm_error('RegModel', '')
        return
    parent_map = child_map.get_parent_map()
    if parent_map is not None:
        uvm_error('RegModel', '')
        return
    child_blk = child_map.get_parent()
    if child_blk is None:
        uvm_error('RegModel', '')
        return
    while child_blk is not None and child_blk.get_parent() != self.get_parent():
        child_blk = child_blk.get_parent()
    if child_blk is None:
        uvm_error('RegModel', '')
        return
    if self.m_n_bytes > child_map.get_n_bytes(UVM_NO_HIER):
        uvm_warning('RegModel', '')
    child_map.add_parent_map(self, offset)
    self.set_submap_offset(child_map, offset)


@contract('UVMRegMap.set_sequencer', ret=False)
def set_sequencer(self, sequencer, adapter=None):
    if sequencer is None:
        uvm_error('REG_None_SQR', '')
        return
    if adapter is None:
        pass
    self.m_sequencer = sequencer
    self.m_adapter = adapter


@contract('UVMRegMap.set_submap_offset', ret=False)
def set_submap_offset(self, submap, offset):
    if submap is None:
        uvm_error('REG/None', '')
        return
    self.m_submaps[submap] = offset
    if self.m_parent.is_locked():
        root_map = self.get_root_map()
        root_map.Xinit_address_mapX()


@contract('UVMRegMap.get_submap_offset')
def get_submap_offset(self, submap):
    if submap is None:
        uvm_error('REG/None', '')
        return -1
    if submap not in self.m_submaps:
        uvm_error('RegModel', '')
        return -1
    return self.m_submaps[submap]


@contract('UVMRegMap.reset', ret=False)
def reset(self, kind='SOFT'):
    regs = []
    self.get_registers(regs)
    for reg in regs:
        reg.reset(kind)


@contract('UVMRegMap.add_parent_map', ret=False)
def add_parent_map(self, parent_map, offset):
    if parent_map is None:
        uvm_error('RegModel', '')
        return
    if self.m_parent_map is not None:
        uvm_error('RegModel', '')
        return
    self.m_parent_map = parent_map
    self.m_parent_maps[parent_map] = offset
    parent_map.m_submaps[self] = offset


@contract('UVMRegMap.m_set_reg_offset', ret=False)
def m_set_reg_offset(self, rg, offset, unmapped):
    if not rg in self.m_regs_info:
        uvm_error('RegModel', '')
        return
    info = self.m_regs_info[rg]
    blk = self.get_parent()
    top_map = self.get_root_map()
    addrs = []
    if blk is None:
        uvm_fatal('RegModel', '')
    if blk.is_locked():
        if not info.unmapped:
            for addr in info.addr:
                if addr not in top_map.m_regs_by_offset_wo:
                    top_map.m_regs_by_offset.pop(addr, None)
                else:
                    if top_map.m_regs_by_offset[addr] == rg:
                        top_map.m_regs_by_offset[addr] = top_map.m_regs_by_offset_wo[addr]
                    del top_map.m_regs_by_offset_wo[addr]
        if not unmapped:
            rg_acc = rg.Xget_fields_accessX(self)
            self.get_physical_addresses(offset, 0, rg.get_n_bytes(), addrs)
            for adr in addrs:
                addr = adr
                if addr in top_map.m_regs_by_offset:
                    rg2 = top_map.m_regs_by_offset[addr]
                    rg2_acc = rg2.Xget_fields_accessX(self)
                    if rg_acc == 'RO' and rg2_acc == 'WO':
                        top_map.m_regs_by_offset[addr] = rg
                        top_map.m_regs_by_offset_wo[addr] = rg2
                    elif rg_acc == 'WO' and rg2_acc == 'RO':
                        top_map.m_regs_by_offset_wo[addr] = rg
                    else:
                        a = '{}'.format(addr)
                        uvm_warning('RegModel', '')
                else:
                    top_map.m_regs_by_offset[addr] = rg
                for range in top_map.m_mems_by_offset.keys():
                    if adr >= range.min and adr <= range.max:
                        a = '{}'.format(adr)
                        uvm_warning('RegModel', '')
            info.addr = addrs
    if unmapped:
        info.offset = -1
        info.unmapped = 1
    else:
        info.offset = offset
        info.unmapped = 0


@contract('UVMRegMap.get_full_name')
def get_full_name(self):
    get_full_name = self.get_name()
    if self.m_parent is None:
        return get_full_name
    return self.m_parent.get_full_name() + '.' + get_full_name


@contract('UVMRegMap.get_root_map')
def get_root_map(self):
    if self.m_parent_map is None:
        return self
    else:
        return self.m_parent_map.get_root_map()


@contract('UVMRegMap.get_parent')
def get_parent(self):
    return self.m_parent


@contract('UVMRegMap.get_parent_map')
def get_parent_map(self):
    return self.m_parent_map


@contract('UVMRegMap.get_base_addr')
def get_base_addr(self, hier=UVM_HIER):
    if hier == UVM_NO_HIER or self.m_parent_map is None:
        return self.m_base_addr
    get_base_addr = self.m_parent_map.get_submap_offset(self)
    get_base_addr += self.m_parent_map.get_base_addr(UVM_HIER)
    return get_base_addr


@contract('UVMRegMap.get_n_bytes')
def get_n_bytes(self, hier=UVM_HIER):
    if hier == UVM_NO_HIER:
        return self.m_n_bytes
    return self.m_system_n_bytes


@contract('UVMRegMap.get_addr_unit_bytes')
def get_addr_unit_bytes(self):
    if self.m_byte_addressing:
        return 1
    else:
        return self.m_n_bytes


@contract('UVMRegMap.get_endian')
def get_endian(self, hier=UVM_HIER):
    if hier == UVM_NO_HIER or self.m_parent_map is None:
        return self.m_endian
    return self.m_parent_map.get_endian(hier)


@contract('UVMRegMap.get_sequencer')
def get_sequencer(self, hier=UVM_HIER):
    if hier == UVM_NO_HIER or self.m_parent_map is None:
        return self.m_sequencer
    return self.m_parent_map.get_sequencer(hier)


@contract('UVMRegMap.get_adapter')
def get_adapter(self, hier=UVM_HIER):
    if hier == UVM_NO_HIER or self.m_parent_map is None:
        return self.m_adapter
    return self.m_parent_map.get_adapter(hier)


@contract('UVMRegMap.get_submaps', ret=False)
def get_submaps(self, maps, hier=UVM_HIER):
    for submap in self.m_submaps:
        maps.append(submap)
    if hier == UVM_HIER:
        for sm in self.m_submaps:
            submap = sm
            submap.get_submaps(maps)


@contract('UVMRegMap.get_registers', ret=False)
def get_registers(self, regs, hier=UVM_HIER):
    for rg in self.m_regs_info:
        regs.append(rg)
    if hier == UVM_HIER:
        for sm in self.m_submaps:
            submap = sm
            submap.get_registers(regs)


@contract('UVMRegMap.get_reg_map_info')
def get_reg_map_info(self, rg, error=1):
    result = None
    if rg not in self.m_regs_info:
        if error:
            uvm_error('REG_NO_MAP', '')
        return None
    result = self.m_regs_info[rg]
    if not result.is_initialized:
        uvm_fatal('RegModel', '')
    return result


@contract('UVMRegMap.get_mem_map_info')
def get_mem_map_info(self, mem, error=1):
    if mem not in self.m_mems_info:
        if error:
            uvm_error('REG_NO_MAP', '')
        return None
    return self.m_mems_info[mem]


@contract('UVMRegMap.get_physical_addresses')
def get_physical_addresses(self, base_addr, mem_offset, n_bytes, addr):
    addr.clear()
    bus_width = self.get_n_bytes(UVM_NO_HIER)
    up_map = None
    local_addr = []
    multiplier = 1
    if self.m_byte_addressing:
        multiplier = bus_width
    if n_bytes <= 0:
        uvm_fatal('RegModel', '')
        return 0
    if n_bytes <= bus_width:
        local_addr.append(base_addr + mem_offset * multiplier)
    else:
        n = 0
        n = int((n_bytes - 1) / bus_width + 1)
        local_addr = [0] * n
        base_addr = base_addr + mem_offset * (n * multiplier)
        get_end = self.get_endian(UVM_NO_HIER)
        if get_end == UVM_LITTLE_ENDIAN:
            for i in range(len(local_addr)):
                local_addr[i] = base_addr + i * multiplier
        elif get_end == UVM_BIG_ENDIAN:
            for i in range(len(local_addr)):
                n -= 1
                local_addr[i] = base_addr + n * multiplier
        elif get_end == UVM_LITTLE_FIFO:
            for i in range(len(local_addr)):
                local_addr[i] = base_addr
        elif get_end == UVM_BIG_FIFO:
            for i in range(len(local_addr)):
                local_addr[i] = base_addr
        else:
            uvm_error('RegModel', '')
    up_map = self.get_parent_map()
    if up_map is None:
        addr.clear()
        addr.extend(local_addr)
        for i in range(len(addr)):
            addr[i] += self.m_base_addr
    else:
        sys_addr = []
        base_addr = 0
        w = 0
        k = 0
        if bus_width < up_map.get_n_bytes(UVM_NO_HIER):
            k = 1
        else:
            k = int((bus_width - 1) / up_map.get_n_bytes(UVM_NO_HIER)) + 1
        base_addr = up_map.get_submap_offset(self)
        for i in range(len(local_addr)):
            n = len(addr)
            w = up_map.get_physical_addresses(base_addr + local_addr[i] * k, 0, bus_width, sys_addr)
            for j in range(len(sys_addr)):
                addr.append(sys_addr[j])
        if w < bus_width:
            bus_width = w
    return bus_width


@contract('UVMRegMap.get_reg_by_offset')
def get_reg_by_offset(self, offset, read=True):
    if not self.m_parent.is_locked():
        uvm_error('RegModel', '')
        return None
    if not read and offset in self.m_regs_by_offset_wo:
        return self.m_regs_by_offset_wo[offset]
    if offset in self.m_regs_by_offset:
        return self.m_regs_by_offset[offset]
    return None


@contract('UVMRegMap.set_auto_predict', ret=False)
def set_auto_predict(self, on=True):
    self.m_auto_predict = on


@contract('UVMRegMap.get_auto_predict')
def get_auto_predict(self):
    return self.m_auto_predict


@contract('UVMRegMap.set_check_on_read', ret=False)
def set_check_on_read(self, on=1):
    self.m_check_on_read = on
    for submap in self.m_submaps:
        submap.set_check_on_read(on)


@contract('UVMRegMap.get_check_on_read')
def get_check_on_read(self):
    return self.m_check_on_read


@contract('UVMRegMap.do_bus_write', ret=False, stable=['element_kind', 'value'], parts={'memory': ['rw.element_kind == UVM_MEM'], 'register': ['rw.element_kind == UVM_REG']})
async def do_bus_write(self, rw, sequencer, adapter):
    addrs = []
    system_map = self.get_root_map()
    bus_width = self.get_n_bytes()
    byte_en = sv.get_vector_of_ones(bus_width)
    map_info = None
    n_bits = 0
    lsb = 0
    skip = 0
    curr_byte = 0
    n_access_extra = 0
    n_access = 0
    n_bits_init = 0
    accesses = []
    [map_info, n_bits_init, lsb, skip] = self.Xget_bus_infoX(rw, map_info, n_bits_init, lsb, skip)
    addrs = map_info.addr.copy()
    if rw.element_kind == UVM_MEM:
        for i in range(len(addrs)):
            addrs[i] = addrs[i] + map_info.mem_range.stride * rw.offset
    for val_idx in range(len(rw.value)):
        value = rw.value[val_idx]
        curr_byte = 0
        n_bits = n_bits_init
        accesses = []
        for i in range(len(addrs)):
            rw_access = UVMRegBusOp()
            data = value >> curr_byte * 8 & (1 << bus_width * 8) - 1
            rw_access.kind = rw.kind
            rw_access.addr = addrs[i]
            rw_access.data = data
            rw_access.n_bits = n_bits
            if n_bits > bus_width * 8:
                rw_access.n_bits = bus_width * 8
            rw_access.byte_en = byte_en
            accesses.append(rw_access)
            curr_byte += bus_width
            n_bits -= bus_width * 8
        if self.policy is not None:
            self.policy.order(accesses)
        for i in range(len(accesses)):
            rw_access = accesses[i]
            bus_req = None
            adapter.m_set_item(rw)
            bus_req = adapter.reg2bus(rw_access)
            adapter.m_set_item(None)
            if bus_req is None:
                uvm_fatal('RegMem', '')
            bus_req.set_sequencer(sequencer)
            await rw.parent.start_item(bus_req, rw.prior)
            if rw.parent is not None and i == 0:
                rw.parent.mid_do(rw)
            await rw.parent.finish_item(bus_req)
            await bus_req.end_event.wait_on()
            if adapter.provides_responses:
                bus_rsp = []
                op = None
                await rw.parent.get_base_response(bus_rsp)
                adapter.bus2reg(bus_rsp[0], rw_access)
            else:
                adapter.bus2reg(bus_req, rw_access)
            if rw.parent is not None and i == len(addrs) - 1:
                rw.parent.post_do(rw)
            rw.status = rw_access.status
            if rw.status == UVM_NOT_OK:
                break
        for i in range(len(addrs)):
            addrs[i] = addrs[i] + map_info.mem_range.stride


@contract('UVMRegMap.do_bus_read', ret=False, stable=['element_kind', 'value'], parts={'memory': ['rw.element_kind == UVM_MEM'], 'register': ['rw.element_kind == UVM_REG']})
async def do_bus_read(self, rw, sequencer, adapter):
    addrs = []
    system_map = self.get_root_map()
    bus_width = self.get_n_bytes()
    byte_en = sv.get_vector_of_ones(bus_width)
    map_info = None
    size = 0
    n_bits = 0
    skip = 0
    lsb = 0
    curr_byte = 0
    n_access_extra = 0
    n_access = 0
    n_bits_init = 0
    accesses = []
    [map_info, n_bits_init, lsb, skip] = self.Xget_bus_infoX(rw, map_info, n_bits_init, lsb, skip)
    addrs = map_info.addr.copy()
    if rw.element_kind == UVM_MEM:
        for i in range(len(addrs)):
            addrs[i] = addrs[i] + map_info.mem_range.stride * rw.offset
    for val_idx in range(len(rw.value)):
        rw.value[val_idx] = 0
        curr_byte = 0
        n_bits = n_bits_init
        accesses = []
        for i in range(len(addrs)):
            rw_access = UVMRegBusOp()
            rw_access.kind = rw.kind
            rw_access.addr = addrs[i]
            rw_access.data = curr_byte
            rw_access.byte_en = byte_en
            rw_access.n_bits = n_bits
            if n_bits > bus_width * 8:
                rw_access.n_bits = bus_width * 8
            accesses.append(rw_access)
            curr_byte += bus_width
            n_bits -= bus_width * 8
        if self.policy is not None:
            self.policy.order(accesses)
        for i in range(len(accesses)):
            rw_access = accesses[i]
            curr_byte_ = rw_access.data
            rw_access.data = 0
            adapter.m_set_item(rw)
            bus_req = adapter.reg2bus(rw_access)
            adapter.m_set_item(None)
            if bus_req is None:
                uvm_fatal('RegMem', '')
            bus_req.set_sequencer(sequencer)
            await rw.parent.start_item(bus_req, rw.prior)
            if rw.parent is not None and i == 0:
                rw.parent.mid_do(rw)
            await rw.parent.finish_item(bus_req)
            await bus_req.end_event.wait_on()
            if adapter.provides_responses:
                bus_rsp = []
                op = 0
                await rw.parent.get_base_response(bus_rsp)
                adapter.bus2reg(bus_rsp[0], rw_access)
            else:
                adapter.bus2reg(bus_req, rw_access)
            data = rw_access.data & (1 << bus_width * 8) - 1
            rw.status = rw_access.status
            if rw.status == UVM_NOT_OK:
                break
            rw.value[val_idx] |= data << curr_byte_ * 8
            if rw.parent is not None and i == len(addrs) - 1:
                rw.parent.post_do(rw)
        for i in range(len(addrs)):
            addrs[i] = addrs[i] + map_info.mem_range.stride


@contract('UVMRegMap.do_write', ret=False)
async def do_write(self, rw):
    tmp_parent_seq = None
    system_map = self.get_root_map()
    adapter = system_map.get_adapter()
    sequencer = system_map.get_sequencer()
    if adapter is not None and adapter.parent_sequence is not None:
        o = None
        seq = None
        o = adapter.parent_sequence.clone()
        seq = o
        seq.set_parent_sequence(rw.parent)
        rw.parent = seq
        tmp_parent_seq = seq
    if rw.parent is None:
        rw.parent = UVMSequenceBase('default_parent_seq')
        tmp_parent_seq = rw.parent
    if adapter is None:
        rw.set_sequencer(sequencer)
        await rw.parent.start_item(rw, rw.prior)
        await rw.parent.finish_item(rw)
        await rw.end_event.wait_on()
    else:
        await self.do_bus_write(rw, sequencer, adapter)
    if tmp_parent_seq is not None:
        sequencer.m_sequence_exiting(tmp_parent_seq)


@contract('UVMRegMap.do_read', ret=False)
async def do_read(self, rw):
    tmp_parent_seq = None
    system_map = self.get_root_map()
    adapter = system_map.get_adapter()
    sequencer = system_map.get_sequencer()
    if adapter is not None and adapter.parent_sequence is not None:
        o = None
        seq = None
        o = adapter.parent_sequence.clone()
        seq = o
        seq.set_parent_sequence(rw.parent)
        rw.parent = seq
        tmp_parent_seq = seq
    if rw.parent is None:
        rw.parent = UVMSequenceBase('default_parent_seq')
        tmp_parent_seq = rw.parent
    if adapter is None:
        rw.set_sequencer(sequencer)
        await rw.parent.start_item(rw, rw.prior)
        await rw.parent.finish_item(rw)
        await rw.end_event.wait_on()
    else:
        await self.do_bus_read(rw, sequencer, adapter)
    if tmp_parent_seq is not None:
        sequencer.m_sequence_exiting(tmp_parent_seq)


@contract('UVMRegMap.Xget_bus_infoX')
def Xget_bus_infoX(self, rw, map_info, size, lsb, addr_skip):
    if rw.element_kind == UVM_MEM:
        mem = None
        if rw.element is None:
            uvm_fatal('REG/CAST', '')
        mem = rw.element
        map_info = self.get_mem_map_info(mem)
        size = mem.get_n_bits()
    elif rw.element_kind == UVM_REG:
        rg = None
        if rw.element is None:
            uvm_fatal('REG/CAST', '')
        rg = rw.element
        map_info = self.get_reg_map_info(rg)
        size = rg.get_n_bits()
    elif rw.element_kind == UVM_FIELD:
        field = None
        if rw.element is None:
            uvm_fatal('REG/CAST', '')
        field = rw.element
        map_info = self.get_reg_map_info(field.get_parent())
        size = field.get_n_bits()
        lsb = field.get_lsb_pos()
        addr_skip = int(lsb / self.get_n_bytes() * 8)
    else:
        raise Exception('rw.element_kind value illegal: ' + str(rw.element_kind))
    return [map_info, size, lsb, addr_skip]


@contract('UVMReg.set_offset', ret=False)
def set_offset(self, reg_map, offset, unmapped=0):
    if self.m_maps.num() > 1 and reg_map is None:
        uvm_report_error('RegModel', '')
        return
    reg_map = self.get_local_map(reg_map, 'set_offset()')
    if reg_map is None:
        return
    reg_map.m_set_reg_offset(self, offset, unmapped)


@contract('UVMReg.get_offset')
def get_offset(self, reg_map=None):
    orig_map = reg_map
    reg_map = self.get_local_map(reg_map, 'get_offset()')
    if reg_map is None:
        return -1
    map_info = reg_map.get_reg_map_info(self)
    if map_info.unmapped:
        map_name = reg_map.get_full_name()
        if orig_map is not None:
            map_name = orig_map.get_full_name()
        uvm_report_warning('RegModel', '')
        return -1
    return map_info.offset


@contract('UVMReg.get_address')
def get_address(self, reg_map=None):
    addr = []
    self.get_addresses(reg_map, addr)
    if len(addr) > 0:
        return addr[0]


@contract('UVMReg.get_addresses')
def get_addresses(self, reg_map, addr):
    map_info = None
    system_map = None
    orig_map = reg_map
    reg_map = self.get_local_map(reg_map, 'get_addresses()')
    if reg_map is None:
        return -1
    map_info = reg_map.get_reg_map_info(self)
    if map_info.unmapped:
        map_name = reg_map.get_full_name()
        if orig_map is not None:
            map_name = orig_map.get_full_name()
        uvm_warning('RegModel', '')
        return -1
    addr.extend(map_info.addr)
    system_map = reg_map.get_root_map()
    return reg_map.get_n_bytes()

