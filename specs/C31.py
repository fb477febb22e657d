
@contract('uvm_get_to_lock_dap.__init__')
def __init__(self, name='unnamed-uvm_get_to_lock_dap#(T)'):
    uvm_set_get_dap_base.__init__(self, name)
    self.m_locked = False
    self.m_value = None


@contract('uvm_get_to_lock_dap.set')
def set(self, value):
    if self.m_locked:
        uvm_error('UVM/GET_TO_LOCK_DAP/SAG', '')
    else:
        self.m_value = value


@contract('uvm_get_to_lock_dap.try_set')
def try_set(self, value):
    if self.m_locked:
        return 0
    self.m_value = value
    return 1


@contract('uvm_get_to_lock_dap.get')
def get(self):
    self.m_locked = True
    return self.m_value


@contract('uvm_get_to_lock_dap.try_get', impure=['get'])
def try_get(self, value):
    uvm_check_output_args([value])
    value.append(self.get())
    return 1


@contract('uvm_get_to_lock_dap.do_copy')
def do_copy(self, rhs):
    uvm_error('UVM/GET_TO_LOCK_DAP/CPY', '')


@contract('uvm_get_to_lock_dap.do_pack')
def do_pack(self, packer):
    uvm_error('UVM/GET_TO_LOCK_DAP/PCK', '')


@contract('uvm_get_to_lock_dap.do_unpack')
def do_unpack(self, packer):
    uvm_error('UVM/GET_TO_LOCK_DAP/UPK', '')


@contract('uvm_simple_lock_dap.__init__')
def __init__(self, name='unnamed-uvm_simple_lock_dap'):
    uvm_set_get_dap_base.__init__(self, name)
    self.m_locked = False
    self.m_value = None


@contract('uvm_simple_lock_dap.set')
def set(self, value):
    if self.m_locked:
        uvm_error('UVM/SIMPLE_LOCK_DAP/SAG', '')
    else:
        self.m_value = value


@contract('uvm_simple_lock_dap.try_set')
def try_set(self, value):
    if self.m_locked:
        return 0
    self.m_value = value
    return 1


@contract('uvm_simple_lock_dap.get')
def get(self):
    return self.m_value


@contract('uvm_simple_lock_dap.try_get')
def try_get(self, value):
    uvm_check_output_args([value])
    value.append(self.get())
    return 1


@contract('uvm_simple_lock_dap.do_copy')
def do_copy(self, rhs):
    uvm_error('UVM/SIMPLE_LOCK_DAP/CPY', '')


@contract('uvm_simple_lock_dap.do_pack')
def do_pack(self, packer):
    uvm_error('UVM/SIMPLE_LOCK_DAP/PCK', '')


@contract('uvm_simple_lock_dap.do_unpack')
def do_unpack(self, packer):
    uvm_error('UVM/SIMPLE_LOCK_DAP/UPK', '')


@contract('uvm_set_before_get_dap.__init__')
def __init__(self, name='unnamed-uvm_set_before_get_dap#(T)'):
    uvm_set_get_dap_base.__init__(self, name)
    self.m_set = False
    self.m_value = None


@contract('uvm_set_before_get_dap.set')
def set(self, value):
    self.m_set = True
    self.m_value = value


@contract('uvm_set_before_get_dap.try_set')
def try_set(self, value):
    self.set(value)
    return 1


@contract('uvm_set_before_get_dap.get')
def get(self):
    if not self.m_set:
        uvm_error('UVM/SET_BEFORE_GET_DAP/NO_SET', '')
    return self.m_value


@contract('uvm_set_before_get_dap.try_get')
def try_get(self, value):
    uvm_check_output_args([value])
    if not self.m_set:
        return 0
    else:
        value.append(self.m_value)
        return 1


@contract('uvm_set_before_get_dap.do_copy')
def do_copy(self, rhs):
    uvm_error('UVM/SET_BEFORE_GET_DAP/CPY', '')


@contract('uvm_set_before_get_dap.do_pack')
def do_pack(self, packer):
    uvm_error('UVM/SET_BEFORE_GET_DAP/PCK', '')


@contract('uvm_set_before_get_dap.do_unpack')
def do_unpack(self, packer):
    uvm_error('UVM/SET_BEFORE_GET_DAP/UPK', '')


@contract('uvm_simple_lock_dap.lock')
def lock(self):
    self.m_locked = True


@contract('uvm_simple_lock_dap.unlock')
def unlock(self):
    self.m_locked = False


@contract('uvm_simple_lock_dap.is_locked')
def is_locked(self):
    return self.m_locked

