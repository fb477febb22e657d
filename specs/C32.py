
@contract('uvm.tlm2.uvm_tlm2_imps:UVM_TLM_NB_TRANSPORT_FW_IMP')
def UVM_TLM_NB_TRANSPORT_FW_IMP(imp, T):
    def nb_transport_fw(self, t, p, delay):
        if delay is None:
            uvm_error('UVM/TLM/NULLDELAY', '')
            return uvm_tlm_sync_e.UVM_TLM_COMPLETED
        return getattr(self, imp).nb_transport_fw(t, p, delay)
    setattr(T, 'nb_transport_fw', nb_transport_fw)


@contract('uvm.tlm2.uvm_tlm2_imps:UVM_TLM_NB_TRANSPORT_BW_IMP')
def UVM_TLM_NB_TRANSPORT_BW_IMP(imp, T):
    def nb_transport_bw(self, t, p, delay):
        if delay is None:
            uvm_error('UVM/TLM/NULLDELAY', '')
            return uvm_tlm_sync_e.UVM_TLM_COMPLETED
        return getattr(self, imp).nb_transport_bw(t, p, delay)
    setattr(T, 'nb_transport_bw', nb_transport_bw)


@contract('uvm.tlm2.uvm_tlm2_imps:UVM_TLM_B_TRANSPORT_IMP')
def UVM_TLM_B_TRANSPORT_IMP(imp, T):
    async def b_transport(self, t, delay):
        if delay is None:
            uvm_error('UVM/TLM/NULLDELAY', '')
            return
        await getattr(self, imp).b_transport(t, delay)
    setattr(T, 'b_transport', b_transport)


@contract('UVMTLMBTargetSocketBase.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent, UVM_IMPLEMENTATION, 1, 1)
    self.m_if_mask = UVM_TLM_B_MASK


@contract('UVMTLMNbTargetSocketBase.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent, UVM_IMPLEMENTATION, 1, 1)
    self.m_if_mask = UVM_TLM_NB_FW_MASK


@contract('UVMTLMNbInitiatorSocketBase.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent, UVM_PORT, 1, 1)
    self.m_if_mask = UVM_TLM_NB_FW_MASK


@contract('UVMTLMNbPassthroughInitiatorSocketBase.__init__')
def __init__(self, name, parent, min_size=1, max_size=1):
    super().__init__(name, parent, UVM_PORT, min_size, max_size)
    self.m_if_mask = UVM_TLM_NB_FW_MASK
    self.bw_export = UVMTLMNbTransportBwExport('bw_export', self.get_comp())


@contract('UVMTLMNbPassthroughTargetSocketBase.__init__')
def __init__(self, name, parent, min_size=1, max_size=1):
    super().__init__(name, parent, UVM_EXPORT, min_size, max_size)
    self.m_if_mask = UVM_TLM_NB_FW_MASK
    self.bw_port = UVMTLMNbTransportBwPort('bw_port', self.get_comp())


@contract('UVMTLMBInitiatorSocket.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent)


@contract('UVMTLMBInitiatorSocket.connect')
def connect(self, provider):
    valid_providers = (UVMTLMBPassthroughInitiatorSocketBase, UVMTLMBPassthroughTargetSocketBase, UVMTLMBTargetSocketBase)
    super().connect(provider)
    if not isinstance(provider, valid_providers):
        c = self.get_comp()
        uvm_error_context(self.get_type_name(), 'type mismatch in connect -- connection cannot be completed', c)


@contract('UVMTLMBTargetSocket.__init__')
def __init__(self, name, parent, imp=None):
    super().__init__(name, parent)
    self.m_imp = parent if imp is None else imp
    if self.m_imp is None:
        uvm_error('UVM/TLM2/NOIMP', '')


@contract('UVMTLMBTargetSocket.connect')
def connect(self, provider):
    super().connect(provider)
    c = self.get_comp()


@contract('UVMTLMNbInitiatorSocket.__init__')
def __init__(self, name, parent, imp=None):
    super().__init__(name, parent)
    if imp is None:
        imp = parent
    if imp is None:
        uvm_error('UVM/TLM2/NOIMP', '')
    self.bw_imp = UVMTLMNbTransportBwImp('bw_imp', imp)


@contract('UVMTLMNbInitiatorSocket.connect')
def connect(self, provider):
    valid_providers = (UVMTLMNbPassthroughInitiatorSocketBase, UVMTLMNbPassthroughTargetSocketBase, UVMTLMNbTargetSocketBase)
    super().connect(provider)
    if not isinstance(provider, valid_providers):
        msg = 'Req type: ' + str(valid_providers) + ' Got: ' + str(provider)
        uvm_error_context(self.get_type_name(), 'type mismatch in connect -- connection cannot be done: ' + msg, self.get_comp())
        return
    sock = []
    if sv.cast(sock, provider, UVMTLMNbPassthroughInitiatorSocketBase):
        sock[0].bw_export.connect(self.bw_imp)
        return
    if sv.cast(sock, provider, UVMTLMNbPassthroughTargetSocketBase):
        sock[0].bw_port.connect(self.bw_imp)
        return
    if sv.cast(sock, provider, UVMTLMNbTargetSocketBase):
        sock[0].bw_port.connect(self.bw_imp)
        return
    uvm_fatal('UVMTLMNbInitiatorSocket', '')


@contract('UVMTLMNbTargetSocket.__init__')
def __init__(self, name, parent, imp=None):
    super().__init__(name, parent)
    self.m_imp = parent if imp is None else imp
    self.bw_port = UVMTLMNbTransportBwPort('bw_port', self.get_comp())
    if self.m_imp is None:
        uvm_error('UVM/TLM2/NOIMP', '')


@contract('UVMTLMNbTargetSocket.connect')
def connect(self, provider):
    super().connect(provider)


@contract('UVMTLMBPassthroughInitiatorSocket.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent)


@contract('UVMTLMBPassthroughInitiatorSocket.connect')
def connect(self, provider):
    valid_providers = (UVMTLMBPassthroughInitiatorSocketBase, UVMTLMBPassthroughTargetSocketBase, UVMTLMBTargetSocketBase)
    super().connect(provider)
    if not isinstance(provider, valid_providers):
        uvm_error_context(self.get_type_name(), 'type mismatch in connect -- connection cannot be completed', self.get_comp())


@contract('UVMTLMBPassthroughTargetSocket.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent)


@contract('UVMTLMBPassthroughTargetSocket.connect')
def connect(self, provider):
    valid_providers = (UVMTLMBPassthroughTargetSocketBase, UVMTLMBTargetSocketBase)
    super().connect(provider)
    if not isinstance(provider, valid_providers):
        uvm_error_context(self.get_type_name(), 'type mismatch in connect -- connection cannot be completed', self.get_comp())


@contract('UVMTLMNbPassthroughInitiatorSocket.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent)


@contract('UVMTLMNbPassthroughInitiatorSocket.connect')
def connect(self, provider):
    valid_providers = (UVMTLMNbPassthroughInitiatorSocketBase, UVMTLMNbPassthroughTargetSocketBase, UVMTLMNbTargetSocketBase)
    super().connect(provider)
    if not isinstance(provider, valid_providers):
        uvm_error_context(self.get_type_name(), 'type mismatch in connect -- connection cannot be completed', self.get_comp())
        return
    if isinstance(provider, UVMTLMNbPassthroughInitiatorSocketBase):
        provider.bw_export.connect(self.bw_export)
    else:
        provider.bw_port.connect(self.bw_export)


@contract('UVMTLMNbPassthroughTargetSocket.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent)


@contract('UVMTLMNbPassthroughTargetSocket.connect')
def connect(self, provider):
    valid_providers = (UVMTLMNbPassthroughTargetSocketBase, UVMTLMNbTargetSocketBase)
    super().connect(provider)
    if not isinstance(provider, valid_providers):
        uvm_error_context(self.get_type_name(), 'type mismatch in connect -- connection cannot be completed', self.get_comp())
        return
    provider.bw_port.connect(self.bw_port)


@contract('UVMTLMGenericPayload.__init__')
def __init__(self, name=''):
    super().__init__(name)
    self.m_address = 0
    self.m_command = UVM_TLM_IGNORE_COMMAND
    self.m_length = 0
    self.m_response_status = UVM_TLM_INCOMPLETE_RESPONSE
    self.m_dmi = 0
    self.m_byte_enable = []
    self.m_byte_enable_length = 0
    self.m_streaming_width = 0
    self.m_data = []


@contract('UVMTLMGenericPayload.do_copy')
def do_copy(self, rhs):
    super().do_copy(rhs)
    self.m_address = rhs.m_address
    self.m_command = rhs.m_command
    self.m_data = list(rhs.m_data)
    self.m_dmi = rhs.m_dmi
    self.m_length = rhs.m_length
    self.m_response_status = rhs.m_response_status
    self.m_byte_enable = list(rhs.m_byte_enable)
    self.m_streaming_width = rhs.m_streaming_width
    self.m_byte_enable_length = rhs.m_byte_enable_length


@contract('UVMTLMGenericPayload.do_compare')
def do_compare(self, rhs, comparer):
    comparer.compare_field_int('m_address', self.m_address, rhs.m_address, 64)
    comparer.compare_string('m_command', str(self.m_command), str(rhs.m_command))
    comparer.compare_field_int('m_length', self.m_length, rhs.m_length, 32)
    comparer.compare_field_int('m_dmi', self.m_dmi, rhs.m_dmi, 1)
    comparer.compare_field_int('m_byte_enable_length', self.m_byte_enable_length, rhs.m_byte_enable_length, 32)
    comparer.compare_string('m_response_status', self.get_response_string(), rhs.get_response_string())
    comparer.compare_field_int('m_streaming_width', self.m_streaming_width, rhs.m_streaming_width, 32)
    if self.m_byte_enable_length == rhs.m_byte_enable_length:
        for i in range(self.m_byte_enable_length):
            comparer.compare_field_int('m_byte_enable[' + str(i) + ']', self.m_byte_enable[i], rhs.m_byte_enable[i], 8)
    if self.m_length == rhs.m_length:
        for i in range(self.m_length):
            be = 255
            if self.m_byte_enable_length:
                be = self.m_byte_enable[i % self.m_byte_enable_length]
            comparer.compare_field_int('m_data[' + str(i) + ']', self.m_data[i] & be, rhs.m_data[i] & be, 8)
    return super().do_compare(rhs, comparer) and comparer.result == 0


@contract('UVMTLMGenericPayload.convert2string')
def convert2string(self):
    msg = '%s %s [0x%16x] = ' % (super().convert2string(), str(self.m_command), self.m_address)
    for i in range(self.m_length):
        if self.m_byte_enable_length == 0 or self.m_byte_enable[i % self.m_byte_enable_length] == 255:
            s = ' %02x' % self.m_data[i]
        else:
            s = ' --'
        msg += s
    msg += ' (status=' + self.get_response_string() + ')'
    return msg


@contract('UVMTLMGenericPayload.get_command')
def get_command(self):
    return self.m_command


@contract('UVMTLMGenericPayload.set_command')
def set_command(self, command):
    self.m_command = command


@contract('UVMTLMGenericPayload.is_read')
def is_read(self):
    return self.m_command == UVM_TLM_READ_COMMAND


@contract('UVMTLMGenericPayload.set_read')
def set_read(self):
    self.set_command(UVM_TLM_READ_COMMAND)


@contract('UVMTLMGenericPayload.is_write')
def is_write(self):
    return self.m_command == UVM_TLM_WRITE_COMMAND


@contract('UVMTLMGenericPayload.set_write')
def set_write(self):
    self.set_command(UVM_TLM_WRITE_COMMAND)


@contract('UVMTLMGenericPayload.set_address')
def set_address(self, addr):
    self.m_address = addr


@contract('UVMTLMGenericPayload.get_address')
def get_address(self):
    return self.m_address


@contract('UVMTLMGenericPayload.get_data')
def get_data(self):
    return self.m_data


@contract('UVMTLMGenericPayload.set_data')
def set_data(self, p):
    self.m_data = p


@contract('UVMTLMGenericPayload.get_data_length')
def get_data_length(self):
    return self.m_length


@contract('UVMTLMGenericPayload.set_data_length')
def set_data_length(self, length):
    self.m_length = length


@contract('UVMTLMGenericPayload.get_streaming_width')
def get_streaming_width(self):
    return self.m_streaming_width


@contract('UVMTLMGenericPayload.set_streaming_width')
def set_streaming_width(self, width):
    self.m_streaming_width = width


@contract('UVMTLMGenericPayload.get_byte_enable')
def get_byte_enable(self):
    return self.m_byte_enable


@contract('UVMTLMGenericPayload.set_byte_enable')
def set_byte_enable(self, p):
    self.m_byte_enable = p


@contract('UVMTLMGenericPayload.get_byte_enable_length')
def get_byte_enable_length(self):
    return self.m_byte_enable_length


@contract('UVMTLMGenericPayload.set_byte_enable_length')
def set_byte_enable_length(self, length):
    self.m_byte_enable_length = length


@contract('UVMTLMGenericPayload.set_dmi_allowed')
def set_dmi_allowed(self, dmi):
    self.m_dmi = dmi


@contract('UVMTLMGenericPayload.is_dmi_allowed')
def is_dmi_allowed(self):
    return self.m_dmi


@contract('UVMTLMGenericPayload.get_response_status')
def get_response_status(self):
    return self.m_response_status


@contract('UVMTLMGenericPayload.set_response_status')
def set_response_status(self, status):
    self.m_response_status = status


@contract('UVMTLMGenericPayload.is_response_ok')
def is_response_ok(self):
    return int(self.m_response_status) > 0


@contract('UVMTLMGenericPayload.is_response_error')
def is_response_error(self):
    return not self.is_response_ok()


@contract('UVMTLMGenericPayload.get_response_string')
def get_response_string(self):
    try:
        return uvm_tlm_response_status_e(self.m_response_status).name.replace('_RESPONSE', '')
    except ValueError:
        return 'UNKNOWN_RESPONSE'


@contract('UVMTime.__init__')
def __init__(self, name='UVMTLMTime', res=0):
    self.m_name = name
    self.m_res = res
    self.m_time = 0
    if res == 0:
        self.m_res = UVMTime.m_resolution
    self.reset()


@contract('UVMTime.set_time_resolution')
def set_time_resolution(cls, res):
    cls.m_resolution = res


@contract('UVMTime.reset')
def reset(self):
    self.m_time = 0


@contract('UVMTime.to_m_res')
def to_m_res(self, t, scaled, secs):
    return t / scaled * (secs / self.m_res)


@contract('UVMTime.get_realtime')
def get_realtime(self, scaled, secs=1e-09):
    return self.m_time * float(scaled) * self.m_res / secs


@contract('UVMTime.incr')
def incr(self, t, scaled, secs=1e-09):
    if t < 0.0:
        uvm_error('UVM/TLM/TIMENEG', '')
        return
    if scaled == 0:
        uvm_fatal('UVM/TLM/BADSCALE', '')
    self.m_time += self.to_m_res(t, scaled, secs)


@contract('UVMTLMIf.nb_transport_fw')
def nb_transport_fw(self, t, p, delay):
    uvm_error('nb_transport_fw', '')
    return uvm_tlm_sync_e.UVM_TLM_ACCEPTED


@contract('UVMTLMIf.nb_transport_bw')
def nb_transport_bw(self, t, p, delay):
    uvm_error('nb_transport_bw', '')
    return uvm_tlm_sync_e.UVM_TLM_ACCEPTED


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime.__init__')
def __init__(self, name='uvm_tlm_time', res=0):
    self.m_name = name
    self.m_res = UVMTLMTime.m_resolution if res == 0 else res
    self.reset()


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime.set_time_resolution')
def set_time_resolution(res):
    UVMTLMTime.m_resolution = res


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime.reset')
def reset(self):
    self.m_time = 0


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime.get_name')
def get_name(self):
    return self.m_name


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime._to_m_res')
def _to_m_res(self, t, scaled, secs):
    return t / scaled * (secs / self.m_res)


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime.get_realtime')
def get_realtime(self, scaled, secs=1e-09):
    return self.m_time * scaled * (self.m_res / secs)


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime.incr')
def incr(self, t, scaled, secs=1e-09):
    if t < 0.0:
        uvm_error('UVM/TLM/TIMENEG', '')
        return
    if scaled == 0:
        uvm_fatal('UVM/TLM/BADSCALE', '')
    self.m_time += self._to_m_res(t, scaled, secs)


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime.decr')
def decr(self, t, scaled, secs):
    if t < 0.0:
        uvm_error('UVM/TLM/TIMENEG', '')
        return
    if scaled == 0:
        uvm_fatal('UVM/TLM/BADSCALE', '')
    self.m_time -= self._to_m_res(t, scaled, secs)
    if self.m_time < 0.0:
        uvm_error('UVM/TLM/TOODECR', '')
        self.reset()


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime.get_abstime')
def get_abstime(self, secs):
    return self.m_time * self.m_res / secs


@contract('uvm.tlm2.uvm_tlm2_time:UVMTLMTime.set_abstime')
def set_abstime(self, t, secs):
    self.m_time = t * secs / self.m_res

