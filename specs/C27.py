
@contract('UVMRegPredictor.write')
def write(self, tr):
    rw = UVMRegBusOp()
    if self.adapter is None:
        uvm_fatal('REG/WRITE/None', '')
    rw.byte_en = -1
    self.adapter.bus2reg(tr, rw)
    rg = self.map.get_reg_by_offset(rw.addr, rw.kind == UVM_READ)
    if rg is not None:
        found = False
        reg_item = None
        local_map = None
        map_info = None
        predict_info = None
        ir = None
        if not self.m_pending.exists(rg):
            item = UVMRegItem()
            predict_info = UVMPredictS()
            item.element_kind = UVM_REG
            item.element = rg
            item.path = UVM_PREDICT
            item.map = self.map
            item.kind = rw.kind
            predict_info.reg_item = item
            self.m_pending[rg] = predict_info
        predict_info = self.m_pending[rg]
        reg_item = predict_info.reg_item
        if rw.addr in predict_info.addr:
            uvm_error('REG_PREDICT_COLLISION', '')
            self.m_pending.delete(rg)
        local_map = rg.get_local_map(self.map, 'predictor::write()')
        map_info = local_map.get_reg_map_info(rg)
        ir = rg
        ireg = []
        if sv.cast(ireg, rg, UVMRegIndirectData):
            ireg = ireg[0]
            ir = ireg.get_indirect_reg()
        for i in range(len(map_info.addr)):
            if rw.addr == map_info.addr[i]:
                found = True
                reg_item.value[0] |= rw.data << i * self.map.get_n_bytes() * 8
                predict_info.addr[rw.addr] = 1
                if len(predict_info.addr) == len(map_info.addr):
                    predict_kind = UVM_PREDICT_READ
                    if reg_item.kind == UVM_WRITE:
                        predict_kind = UVM_PREDICT_WRITE
                    is_ok = False
                    if reg_item.kind == UVM_READ and local_map.get_check_on_read() and (reg_item.status != UVM_NOT_OK):
                        is_ok = rg.do_check(ir.get_mirrored_value(), reg_item.value[0], local_map)
                    self.pre_predict(reg_item)
                    ir.XsampleX(reg_item.value[0], rw.byte_en, reg_item.kind == UVM_READ, local_map)
                    blk = rg.get_parent()
                    blk.XsampleX(map_info.offset, reg_item.kind == UVM_READ, local_map)
                    rg.do_predict(reg_item, predict_kind, rw.byte_en)
                    if reg_item.kind == UVM_WRITE:
                        pass
                    self.reg_ap.write(reg_item)
                    self.m_pending.delete(rg)
                break
        if found is False:
            uvm_error('REG_PREDICT_INTERNAL', '')


@contract('UVMRegPredictor.check_phase', ret=False)
def check_phase(self, phase):
    q = []
    UVMComponent.check_phase(self, phase)
    for l in self.m_pending.key_list():
        rg = l
        q.append(sv.sformatf('\n%s', rg.get_full_name()))
    if self.m_pending.num() > 0:
        uvm_error('PENDING REG ITEMS', '')


@contract('UVMRegPredictor.__init__', ret=False)
def __init__(self, name, parent):
    super().__init__(name, parent)
    self.bus_in = UVMAnalysisImp('bus_in', self)
    self.reg_ap = UVMAnalysisPort('reg_ap', self)
    self.m_pending = UVMPool()
    self.adapter = None
    self.map = None


@contract('UVMRegMap.get_reg_by_offset')
def get_reg_by_offset(self, offset, read=True):
    if not self.m_parent.is_locked():
        uvm_error('RegModel', '')
        return None
    if not read and offset in self.m_regs_by_offset_wo:
        return self.m_regs_by_offset_wo[offset]
    if offset in self.m_regs_by_offset:
        return self.m_regs_by_offset[offset]
    return None


@contract('UVMRegMap.get_reg_map_info')
def get_reg_map_info(self, rg, error=1):
    result = None
    if rg not in self.m_regs_info:
        if error:
            uvm_error('REG_NO_MAP', '')
        return None
    result = self.m_regs_info[rg]
    if not result.is_initialized:
        uvm_fatal('RegModel', '')
    return result

