
@contract('UVMRegBlock.get_backdoor')
def get_backdoor(self, inherited=True):
    if self.backdoor is None and inherited:
        blk = self.get_parent()
        while blk is not None:
            bkdr = blk.get_backdoor()
            if bkdr is not None:
                return bkdr
            blk = blk.get_parent()
    return self.backdoor


@contract('UVMRegBlock.add_hdl_path', ret=False)
def add_hdl_path(self, path, kind='RTL'):
    paths = self.hdl_paths_pool.get(kind)
    paths.push_back(path)


@contract('UVMRegBlock.has_hdl_path')
def has_hdl_path(self, kind=''):
    if kind == '':
        kind = self.get_default_hdl_path()
    return self.hdl_paths_pool.exists(kind)


@contract('UVMRegBlock.get_full_hdl_path', ret=False)
def get_full_hdl_path(self, paths, kind='', separator='.'):
    if kind == '':
        kind = self.get_default_hdl_path()
    paths.clear()
    if self.is_hdl_path_root(kind):
        if self.root_hdl_paths[kind] != '':
            paths.append(self.root_hdl_paths[kind])
        return
    if not self.has_hdl_path(kind):
        uvm_error('RegModel', '')
        return
    hdl_paths = self.hdl_paths_pool.get(kind)
    parent_paths = []
    if self.parent is not None:
        self.parent.get_full_hdl_path(parent_paths, kind, separator)
    for i in range(len(hdl_paths)):
        hdl_path = hdl_paths.get(i)
        if len(parent_paths) == 0:
            if hdl_path != '':
                paths.append(hdl_path)
            continue
        for j in range(len(parent_paths)):
            if hdl_path == '':
                paths.append(parent_paths[j])
            else:
                paths.append(parent_paths[j] + separator + hdl_path)


@contract('UVMRegBlock.set_default_hdl_path', ret=False)
def set_default_hdl_path(self, kind):
    if kind == '':
        if self.parent is None:
            uvm_error('RegModel', '')
        else:
            kind = self.parent.get_default_hdl_path()
    self.default_hdl_path = kind


@contract('UVMRegBlock.get_default_hdl_path')
def get_default_hdl_path(self):
    if self.default_hdl_path == '' and self.parent is not None:
        return self.parent.get_default_hdl_path()
    return self.default_hdl_path


@contract('UVMRegBlock.set_hdl_path_root', ret=False)
def set_hdl_path_root(self, path, kind='RTL'):
    if kind == '':
        kind = self.get_default_hdl_path()
    self.root_hdl_paths[kind] = path


@contract('UVMRegBlock.is_hdl_path_root')
def is_hdl_path_root(self, kind=''):
    if kind == '':
        kind = self.get_default_hdl_path()
    return self.root_hdl_paths.exists(kind)


@contract('UVMReg.get_backdoor')
def get_backdoor(self, inherited=True):
    if self.m_backdoor is None and inherited:
        blk = self.get_parent()
        bkdr = None
        while blk is not None:
            bkdr = blk.get_backdoor()
            if bkdr is not None:
                self.m_backdoor = bkdr
                break
            blk = blk.get_parent()
    return self.m_backdoor


@contract('UVMReg.add_hdl_path', ret=False)
def add_hdl_path(self, slices, kind='RTL'):
    if not self.m_hdl_paths_pool.exists(kind):
        self.m_hdl_paths_pool[kind] = UVMQueue()
    paths = self.m_hdl_paths_pool.get(kind)
    concat = uvm_hdl_path_concat()
    concat.set(slices)
    paths.push_back(concat)


@contract('UVMReg.add_hdl_path_slice', ret=False)
def add_hdl_path_slice(self, name, offset, size, first=0, kind='RTL'):
    if not self.m_hdl_paths_pool.exists(kind):
        self.m_hdl_paths_pool[kind] = UVMQueue()
    paths = self.m_hdl_paths_pool.get(kind)
    concat = None
    if first or paths.size() == 0:
        concat = uvm_hdl_path_concat()
        paths.push_back(concat)
    else:
        concat = paths[paths.size() - 1]
    concat.add_path(name, offset, size)


@contract('UVMReg.has_hdl_path')
def has_hdl_path(self, kind=''):
    if kind == '':
        if self.m_regfile_parent is not None:
            kind = self.m_regfile_parent.get_default_hdl_path()
        else:
            kind = self.m_parent.get_default_hdl_path()
    return self.m_hdl_paths_pool.exists(kind)


@contract('UVMReg.get_full_hdl_path', ret=False)
def get_full_hdl_path(self, paths, kind='', separator='.'):
    if kind == '':
        if self.m_regfile_parent is not None:
            kind = self.m_regfile_parent.get_default_hdl_path()
        else:
            kind = self.m_parent.get_default_hdl_path()
    if not self.has_hdl_path(kind):
        uvm_error('RegModel', '')
        return
    hdl_paths = self.m_hdl_paths_pool.get(kind)
    parent_paths = []
    if self.m_regfile_parent is not None:
        self.m_regfile_parent.get_full_hdl_path(parent_paths, kind, separator)
    else:
        self.m_parent.get_full_hdl_path(parent_paths, kind, separator)
    for i in range(len(hdl_paths)):
        hdl_concat = hdl_paths.get(i)
        for j in range(len(parent_paths)):
            t = uvm_hdl_path_concat()
            for k in range(len(hdl_concat.slices)):
                if hdl_concat.slices[k].path == '':
                    t.add_path(parent_paths[j])
                else:
                    t.add_path(parent_paths[j] + separator + hdl_concat.slices[k].path, hdl_concat.slices[k].offset, hdl_concat.slices[k].size)
            paths.append(t)


@contract('UVMReg.backdoor_read', ret=False)
def backdoor_read(self, rw):
    rw.status = self.backdoor_read_func(rw)


@contract('UVMReg.backdoor_write', ret=False)
def backdoor_write(self, rw):
    paths = []
    ok = 1
    self.get_full_hdl_path(paths, rw.bd_kind)
    for i in range(len(paths)):
        hdl_concat = paths[i]
        for j in range(len(hdl_concat.slices)):
            if hdl_concat.slices[j].offset < 0:
                ok &= uvm_hdl.uvm_hdl_deposit(hdl_concat.slices[j].path, rw.value[0])
                continue
            _slice = 0
            _slice = rw.value[0] >> hdl_concat.slices[j].offset
            _slice &= (1 << hdl_concat.slices[j].size) - 1
            ok &= uvm_hdl.uvm_hdl_deposit(hdl_concat.slices[j].path, _slice)
    rw.status = UVM_NOT_OK
    if ok:
        rw.status = UVM_IS_OK


@contract('UVMReg.backdoor_read_func')
def backdoor_read_func(self, rw):
    paths = []
    val = 0
    ok = 1
    self.get_full_hdl_path(paths, rw.bd_kind)
    for i in range(len(paths)):
        hdl_concat = paths[i]
        val = 0
        for j in range(len(hdl_concat.slices)):
            if hdl_concat.slices[j].offset < 0:
                arr = []
                ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
                val = arr[0]
                continue
            arr = []
            k = hdl_concat.slices[j].offset
            ok &= uvm_hdl.uvm_hdl_read(hdl_concat.slices[j].path, arr)
            _slice = arr[0]
            for _ in range(hdl_concat.slices[j].size):
                bit_val = _slice & 1
                val = sv.set_bit(val, k, bit_val)
                k += 1
                _slice >>= 1
        val &= (1 << self.m_n_bits) - 1
        if i == 0:
            rw.value[0] = val
        if val != rw.value[0]:
            uvm_error('RegModel', '')
            return UVM_NOT_OK
    rw.status = UVM_NOT_OK
    if ok:
        rw.status = UVM_IS_OK
    return rw.status


@contract('UVMMem.set_backdoor', ret=False)
def set_backdoor(self, bkdr, fname='', lineno=0):
    self.m_fname = fname
    self.m_lineno = lineno
    self.m_backdoor = bkdr


@contract('UVMMem.get_backdoor')
def get_backdoor(self, inherited=1):
    if self.m_backdoor is None and inherited:
        blk = self.get_parent()
        bkdr = None
        while blk is not None:
            bkdr = blk.get_backdoor()
            if bkdr is not None:
                self.m_backdoor = bkdr
                break
            blk = blk.get_parent()
    return self.m_backdoor


@contract('UVMMem.add_hdl_path_slice', ret=False)
def add_hdl_path_slice(self, name, offset, size, first=0, kind='RTL'):
    paths = self.m_hdl_paths_pool.get(kind)
    concat = None
    if first or paths.size() == 0:
        concat = uvm_hdl_path_concat()
        paths.push_back(concat)
    else:
        concat = paths.get(paths.size() - 1)
    concat.add_path(name, offset, size)


@contract('UVMMem.has_hdl_path')
def has_hdl_path(self, kind=''):
    if kind == '':
        kind = self.m_parent.get_default_hdl_path()
    return self.m_hdl_paths_pool.exists(kind)


@contract('UVMMem.get_full_hdl_path', ret=False)
def get_full_hdl_path(self, paths, kind='', separator='.'):
    if kind == '':
        kind = self.m_parent.get_default_hdl_path()
    if self.has_hdl_path(kind) is False:
        uvm_error('RegModel', '')
        return
    hdl_paths = self.m_hdl_paths_pool.get(kind)
    parent_paths = []
    self.m_parent.get_full_hdl_path(parent_paths, kind, separator)
    for i in range(len(hdl_paths)):
        hdl_concat = hdl_paths.get(i)
        for j in range(len(parent_paths)):
            t = uvm_hdl_path_concat()
            for k in range(len(hdl_concat.slices)):
                if hdl_concat.slices[k].path == '':
                    t.add_path(parent_paths[j])
                else:
                    t.add_path(parent_paths[j] + separator + hdl_concat.slices[k].path, hdl_concat.slices[k].offset, hdl_concat.slices[k].size)
            paths.append(t)


@contract('UVMMem.backdoor_read', ret=False)
def backdoor_read(self, rw):
    rw.status = self.backdoor_read_func(rw)


@contract('UVMMem.backdoor_write', ret=False)
def backdoor_write(self, rw):
    paths = []
    ok = 1
    self.get_full_hdl_path(paths, rw.bd_kind)
    for mem_idx in range(len(rw.value)):
        idx = str(rw.offset + mem_idx)
        for i in range(len(paths)):
            hdl_concat = paths[i]
            for j in range(len(hdl_concat.slices)):
                if hdl_concat.slices[j].offset < 0:
                    ok &= uvm_hdl.uvm_hdl_deposit(hdl_concat.slices[j].path + '[' + idx + ']', rw.value[mem_idx])
                    continue
                _slice = 0
                _slice = rw.value[mem_idx] >> hdl_concat.slices[j].offset
                _slice &= (1 << hdl_concat.slices[j].size) - 1
                ok &= uvm_hdl.uvm_hdl_deposit(hdl_concat.slices[j].path + '[' + idx + ']', _slice)
    rw.status = UVM_NOT_OK
    if ok:
        rw.status = UVM_IS_OK


@contract('UVMMem.backdoor_read_func')
def backdoor_read_func(self, rw):
    paths = []
    val = 0
    ok = 1
    self.get_full_hdl_path(paths, rw.bd_kind)
    for mem_idx in range(len(rw.value)):
        idx = str(rw.offset + mem_idx)
        for i in range(len(paths)):
            hdl_concat = paths[i]
            val = 0
            for j in range(len(hdl_concat.slices)):
                hdl_path = hdl_concat.slices[j].path + '[' + idx + ']'
                if hdl_concat.slices[j].offset < 0:
                    arr = []
                    ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
                    val = arr[0]
                    continue
                arr = []
                k = hdl_concat.slices[j].offset
                ok &= uvm_hdl.uvm_hdl_read(hdl_path, arr)
                _slice = arr[0]
                for n in range(hdl_concat.slices[j].size):
                    slice_n_bit = _slice >> n & 1
                    val |= slice_n_bit << k & 1 << k
                    k += 1
            val &= (1 << self.m_n_bits) - 1
            if i == 0:
                rw.value[mem_idx] = val
            if val != rw.value[mem_idx]:
                uvm_error('RegModel', '')
                return UVM_NOT_OK
    rw.status = UVM_NOT_OK
    if ok:
        rw.status = UVM_IS_OK
    return rw.status


@contract('UVMRegBackdoor.do_pre_read', ret=False)
async def do_pre_read(self, rw):
    await self.pre_read(rw)
    await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'pre_read', rw)


@contract('UVMRegBackdoor.do_post_read', ret=False, impure=['decode'])
async def do_post_read(self, rw):
    iter = UVMCallbackIter(self)
    cb = iter.last()
    while cb is not None:
        cb.decode(rw.value)
        cb = iter.prev()
    await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'post_read', rw)
    await self.post_read(rw)


@contract('UVMRegBackdoor.do_pre_write', ret=False, impure=['encode'])
async def do_pre_write(self, rw):
    iter = UVMCallbackIter(self)
    await self.pre_write(rw)
    await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'pre_write', rw)
    cb = iter.first()
    while cb is not None:
        cb.encode(rw.value)
        cb = iter.next()


@contract('UVMRegBackdoor.do_post_write', ret=False)
async def do_post_write(self, rw):
    await uvm_do_obj_callbacks_async(self, UVMRegCbs, 'post_write', rw)
    await self.post_write(rw)


@contract('UVMRegBackdoor.read', ret=False)
async def read(self, rw):
    await self.do_pre_read(rw)
    self.read_func(rw)
    await self.do_post_read(rw)


@contract('UVMRegBackdoor.read_func', ret=False)
def read_func(self, rw):
    uvm_fatal('RegModel', '')
    rw.status = UVM_NOT_OK


@contract('UVMRegBackdoor.write', ret=False)
async def write(self, rw):
    uvm_fatal('RegModel', '')


@contract('uvm.reg.uvm_reg_model:uvm_hdl_path_concat.set', ret=False)
def set(self, t):
    self.slices = []
    for slice in t:
        if isinstance(slice, uvm_hdl_path_slice):
            self.add_slice(slice)
        else:
            self.add_path(*slice)


@contract('uvm.reg.uvm_reg_model:uvm_hdl_path_concat.add_slice', ret=False)
def add_slice(self, slice):
    self.slices.append(slice)


@contract('uvm.reg.uvm_reg_model:uvm_hdl_path_concat.add_path', ret=False)
def add_path(self, path, offset=-1, size=-1):
    t = uvm_hdl_path_slice()
    t.offset = offset
    t.path = path
    t.size = size
    self.add_slice(t)


@contract('uvm.dpi.uvm_hdl:uvm_hdl.split_hdl_path')
def split_hdl_path(cls, path):
    if cls.SIM_NAME == 'Verilator':
        res = []
        spl = path.split('.')
        for name in spl:
            match = cls.re_brackets.search(name)
            if match is not None:
                res.append(match[1])
                res.append(int(match[2]))
            else:
                res.append(name)
        return res
    else:
        return path.split('.')


@contract('uvm.dpi.uvm_hdl:uvm_hdl.uvm_hdl_read')
def uvm_hdl_read(cls, path, value):
    if cls.dut is not None:
        curr_obj = cls.dut
        split = cls.split_hdl_path(path)
        for spl in split:
            curr_obj = cls.get_next_obj(curr_obj, spl)
        if curr_obj is not None:
            value.append(int(curr_obj))
            return 1
        return 0
    else:
        raise Exception('dut is None. Use uvm_hdl.set_dut(dut) in your @cocotb.test()')


@contract('uvm.dpi.uvm_hdl:uvm_hdl.uvm_hdl_deposit')
def uvm_hdl_deposit(cls, path, value):
    if cls.dut is not None:
        curr_obj = cls.dut
        split = cls.split_hdl_path(path)
        for spl in split:
            curr_obj = cls.get_next_obj(curr_obj, spl)
        if curr_obj is not None:
            curr_obj.value = value
            return 1
        return 0
    else:
        raise Exception('dut is None. Use uvm_hdl.set_dut(dut) in your @cocotb.test()')


@contract('uvm.dpi.uvm_hdl:uvm_hdl.get_next_obj')
def get_next_obj(cls, curr_obj, spl):
    if isinstance(spl, int):
        return curr_obj[spl]
    elif hasattr(curr_obj, spl):
        curr_obj = getattr(curr_obj, spl)
    return curr_obj

