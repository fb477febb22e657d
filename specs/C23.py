
@contract('UVMRegField.__init__', ret=False)
def __init__(self, name='uvm_reg_field'):
    UVMObject.__init__(self, name)
    self.value = 0
    self.m_mirrored = 0
    self.m_desired = 0
    self.m_access = ''
    self.m_parent = None
    self.m_lsb = 0
    self.m_size = 0
    self.m_volatile = False
    self.m_reset = {}
    self.m_written = False
    self.m_read_in_progress = False
    self.m_write_in_progress = False
    self.m_fname = ''
    self.m_lineno = 0
    self.m_cover_on = 0
    self.m_individually_accessible = False
    self.m_check = UVM_CHECK
    if UVMRegField.m_predefined is False:
        UVMRegField.m_predefined = UVMRegField.m_predefine_policies()


@contract('UVMRegField.configure', ret=False)
def configure(self, parent, size, lsb_pos, access, volatile, reset, has_reset, is_rand, individually_accessible):
    self.m_parent = parent
    if size == 0:
        uvm_report_error('RegModel', '')
        size = 1
    self.m_size = size
    self.rand('value', range(1 << size))
    self.m_volatile = volatile
    self.m_access = access.upper()
    self.m_lsb = lsb_pos
    self.m_cover_on = UVM_NO_COVERAGE
    self.m_written = False
    if volatile:
        self.m_check = UVM_NO_CHECK
    else:
        self.m_check = self.m_check
    self.m_individually_accessible = individually_accessible
    if has_reset:
        self.set_reset(reset)
    else:
        UVMResourceDb.set('REG::' + self.get_full_name(), 'NO_REG_HW_RESET_TEST', 1)
    self.m_parent.add_field(self)
    if not self.m_access in UVMRegField.m_policy_names:
        uvm_report_error('RegModel', '')
        self.m_access = 'RW'
    if size > UVMRegField.m_max_size:
        UVMRegField.m_max_size = size
    if access in NO_RAND_SET:
        self.is_rand = False


@contract('UVMRegField.get_full_name')
def get_full_name(self):
    return self.m_parent.get_full_name() + '.' + self.get_name()


@contract('UVMRegField.get_parent')
def get_parent(self):
    return self.m_parent


@contract('UVMRegField.get_register')
def get_register(self):
    return self.m_parent


@contract('UVMRegField.get_lsb_pos')
def get_lsb_pos(self):
    return self.m_lsb


@contract('UVMRegField.get_n_bits')
def get_n_bits(self):
    return self.m_size


@contract('UVMRegField.get_max_size')
def get_max_size(cls):
    return UVMRegField.m_max_size


@contract('UVMRegField.set_access')
def set_access(self, mode):
    set_access = self.m_access
    self.m_access = mode.upper()
    if self.m_access not in UVMRegField.m_policy_names:
        uvm_error('RegModel', '')
        self.m_access = set_access
    return set_access


@contract('UVMRegField.define_access', ret='bool')
def define_access(cls, name):
    if not UVMRegField.m_predefined:
        UVMRegField.m_predefined = UVMRegField.m_predefine_policies()
    name = name.upper()
    if name in UVMRegField.m_policy_names:
        return False
    UVMRegField.m_policy_names[name] = 1
    return True


@contract('UVMRegField.m_predefine_policies', ret='bool')
def m_predefine_policies(cls):
    if UVMRegField.m_predefined is True:
        return True
    UVMRegField.m_predefined = True
    UVMRegField.define_access('RO')
    UVMRegField.define_access('RW')
    UVMRegField.define_access('RC')
    UVMRegField.define_access('RS')
    UVMRegField.define_access('WRC')
    UVMRegField.define_access('WRS')
    UVMRegField.define_access('WC')
    UVMRegField.define_access('WS')
    UVMRegField.define_access('WSRC')
    UVMRegField.define_access('WCRS')
    UVMRegField.define_access('W1C')
    UVMRegField.define_access('W1S')
    UVMRegField.define_access('W1T')
    UVMRegField.define_access('W0C')
    UVMRegField.define_access('W0S')
    UVMRegField.define_access('W0T')
    UVMRegField.define_access('W1SRC')
    UVMRegField.define_access('W1CRS')
    UVMRegField.define_access('W0SRC')
    UVMRegField.define_access('W0CRS')
    UVMRegField.define_access('WO')
    UVMRegField.define_access('WOC')
    UVMRegField.define_access('WOS')
    UVMRegField.define_access('W1')
    UVMRegField.define_access('WO1')
    return True


@contract('UVMRegField.get_access')
def get_access(self, reg_map=None):
    field_access = self.m_access
    from .uvm_reg_map import UVMRegMap
    if reg_map == UVMRegMap.backdoor():
        return field_access
    rights = self.m_parent.get_rights(reg_map)
    if rights == 'RW':
        return field_access
    elif rights == 'RO':
        if field_access in ['RW', 'RO', 'WC', 'WS', 'W1C', 'W1S', 'W1T', 'W0C', 'W0S', 'W0T', 'W1']:
            field_access = 'RO'
        elif field_access in ['RC', 'WRC', 'W1SRC', 'W0SRC', 'WSRC']:
            field_access = 'RC'
        elif field_access in ['RS', 'WRS', 'W1CRS', 'W0CRS', 'WCRS']:
            field_access = 'RS'
        elif field_access in ['WO', 'WOC', 'WOS', 'WO1']:
            field_access = 'NOACCESS'
    elif rights == 'WO':
        if field_access == 'RW' or field_access == 'WO':
            field_access = 'WO'
        else:
            field_access = 'NOACCESS'
    else:
        field_access = 'NOACCESS'
        fname = ''
        if reg_map is not None:
            fname = reg_map.get_full_name()
        uvm_report_warning('RegModel', '')
    return field_access


@contract('UVMRegField.is_known_access')
def is_known_access(self, _map=None):
    acc = self.get_access(_map)
    if acc in KNOWN_ACCESSES:
        return 1
    return 0


@contract('UVMRegField.set_volatility', ret=False)
def set_volatility(self, volatile):
    self.m_volatile = volatile


@contract('UVMRegField.is_volatile')
def is_volatile(self):
    return self.m_volatile


@contract('UVMRegField.set', ret=False)
def set(self, value, fname='', lineno=0):
    mask = (1 << self.m_size) - 1
    self.m_fname = fname
    self.m_lineno = lineno
    if value >> self.m_size:
        uvm_report_warning('RegModel', '')
        value = value & mask
    if self.m_parent.is_busy():
        uvm_report_warning('UVM/FLD/SET/BSY', '')
    if self.m_access == 'RO':
        self.m_desired = self.m_desired
    elif self.m_access == 'RW':
        self.m_desired = value
    elif self.m_access == 'RC':
        self.m_desired = self.m_desired
    elif self.m_access == 'RS':
        self.m_desired = self.m_desired
    elif self.m_access == 'WC':
        self.m_desired = 0
    elif self.m_access == 'WS':
        self.m_desired = mask
    elif self.m_access == 'WRC':
        self.m_desired = value
    elif self.m_access == 'WRS':
        self.m_desired = value
    elif self.m_access == 'WSRC':
        self.m_desired = mask
    elif self.m_access == 'WCRS':
        self.m_desired = 0
    elif self.m_access == 'W1C':
        self.m_desired = self.m_desired & ~value
    elif self.m_access == 'W1S':
        self.m_desired = self.m_desired | value
    elif self.m_access == 'W1T':
        self.m_desired = self.m_desired ^ value
    elif self.m_access == 'W0C':
        self.m_desired = self.m_desired & value
    elif self.m_access == 'W0S':
        self.m_desired = self.m_desired | ~value & mask
    elif self.m_access == 'W0T':
        self.m_desired = self.m_desired ^ ~value & mask
    elif self.m_access == 'W1SRC':
        self.m_desired = self.m_desired | value
    elif self.m_access == 'W1CRS':
        self.m_desired = self.m_desired & ~value
    elif self.m_access == 'W0SRC':
        self.m_desired = self.m_desired | ~value & mask
    elif self.m_access == 'W0CRS':
        self.m_desired = self.m_desired & value
    elif self.m_access == 'WO':
        self.m_desired = value
    elif self.m_access == 'WOC':
        self.m_desired = 0
    elif self.m_access == 'WOS':
        self.m_desired = mask
    elif self.m_access == 'W1':
        if self.m_written:
            self.m_desired = self.m_desired
        else:
            self.m_desired = value
    elif self.m_access == 'WO1':
        if self.m_written:
            self.m_desired = self.m_desired
        else:
            self.m_desired = value
    else:
        self.m_desired = value
    self.value = self.m_desired


@contract('UVMRegField.get')
def get(self, fname='', lineno=0):
    self.m_fname = fname
    self.m_lineno = lineno
    return self.m_desired


@contract('UVMRegField.get_mirrored_value')
def get_mirrored_value(self, fname='', lineno=0):
    self.m_fname = fname
    self.m_lineno = lineno
    return self.m_mirrored


@contract('UVMRegField.reset', ret=False)
def reset(self, kind='HARD'):
    if not kind in self.m_reset:
        return
    self.m_mirrored = self.m_reset[kind]
    self.m_desired = self.m_mirrored
    self.value = self.m_mirrored
    if kind == 'HARD':
        self.m_written = False


@contract('UVMRegField.get_reset')
def get_reset(self, kind='HARD'):
    if not kind in self.m_reset:
        return self.m_desired
    return self.m_reset[kind]


@contract('UVMRegField.has_reset', ret='bool')
def has_reset(self, kind='HARD', delete=False):
    if kind not in self.m_reset:
        return False
    if delete:
        del self.m_reset[kind]
    return True


@contract('UVMRegField.set_reset', ret=False)
def set_reset(self, value, kind='HARD'):
    self.m_reset[kind] = value & (1 << self.m_size) - 1


@contract('UVMRegField.needs_update', ret='bool')
def needs_update(self):
    return self.m_mirrored != self.m_desired or self.m_volatile


@contract('UVMRegField.set_compare', ret=False)
def set_compare(self, check=UVM_CHECK):
    self.m_check = check


@contract('UVMRegField.get_compare')
def get_compare(self):
    return self.m_check


@contract('UVMRegField.predict')
def predict(self, value, be=-1, kind=UVM_PREDICT_DIRECT, path=UVM_FRONTDOOR, _map=None, fname='', lineno=0):
    rw = UVMRegItem()
    rw.value[0] = value
    rw.path = path
    rw.map = _map
    rw.fname = fname
    rw.lineno = lineno
    self.do_predict(rw, kind, be)
    if rw.status == UVM_NOT_OK:
        return 0
    return 1


@contract('UVMRegField._get_mask')
def _get_mask(self):
    return (1 << self.m_size) - 1


@contract('UVMRegField.XpredictX', fatal_stops=1)
def XpredictX(self, cur_val, wr_val, _map):
    mask = self._get_mask()
    acc = self.get_access(_map)
    if acc == 'RO':
        return cur_val
    elif acc == 'RW':
        return wr_val
    elif acc == 'RC':
        return cur_val
    elif acc == 'RS':
        return cur_val
    elif acc == 'WC':
        return 0
    elif acc == 'WS':
        return mask
    elif acc == 'WRC':
        return wr_val
    elif acc == 'WRS':
        return wr_val
    elif acc == 'WSRC':
        return mask
    elif acc == 'WCRS':
        return 0
    elif acc == 'W1C':
        return cur_val & ~wr_val
    elif acc == 'W1S':
        return cur_val | wr_val
    elif acc == 'W1T':
        return cur_val ^ wr_val
    elif acc == 'W0C':
        return cur_val & wr_val
    elif acc == 'W0S':
        return cur_val | ~wr_val & mask
    elif acc == 'W0T':
        return cur_val ^ ~wr_val & mask
    elif acc == 'W1SRC':
        return cur_val | wr_val
    elif acc == 'W1CRS':
        return cur_val & ~wr_val
    elif acc == 'W0SRC':
        return cur_val | ~wr_val & mask
    elif acc == 'W0CRS':
        return cur_val & wr_val
    elif acc == 'WO':
        return wr_val
    elif acc == 'WOC':
        return 0
    elif acc == 'WOS':
        return mask
    elif acc == 'W1':
        if self.m_written:
            return cur_val
        else:
            return wr_val
    elif acc == 'WO1':
        if self.m_written:
            return cur_val
        else:
            return wr_val
    elif acc == 'NOACCESS':
        return cur_val
    else:
        return wr_val
    uvm_fatal('RegModel', '')
    return 0


@contract('UVMRegField.XupdateX')
def XupdateX(self):
    XupdateX = self.m_desired
    if self.m_access == 'W1C':
        XupdateX = ~self.m_desired
    if self.m_access == 'W1S':
        XupdateX = self.m_desired
    if self.m_access == 'W1T':
        XupdateX = self.m_desired ^ self.m_mirrored
    if self.m_access == 'W0C':
        XupdateX = self.m_desired
    if self.m_access == 'W0S':
        XupdateX = ~self.m_desired
    if self.m_access == 'W0T':
        XupdateX = ~(self.m_desired ^ self.m_mirrored)
    if self.m_access == 'W1SRC':
        XupdateX = self.m_desired
    if self.m_access == 'W1CRS':
        XupdateX = ~self.m_desired
    if self.m_access == 'W0SRC':
        XupdateX = ~self.m_desired
    if self.m_access == 'W0CRS':
        XupdateX = self.m_desired
    if self.m_access == 'WO':
        XupdateX = self.m_desired
    if self.m_access == 'WOC':
        XupdateX = self.m_desired
    if self.m_access == 'WOS':
        XupdateX = self.m_desired
    if self.m_access == 'W1':
        XupdateX = self.m_desired
    if self.m_access == 'WO1':
        XupdateX = self.m_desired
    XupdateX = XupdateX & self._get_mask()
    return XupdateX


@contract('UVMRegField.do_predict', ret=False)
def do_predict(self, rw, kind=UVM_PREDICT_DIRECT, be=-1):
    field_val = rw.value[0] & self._get_mask()
    if rw.status != UVM_NOT_OK:
        rw.status = UVM_IS_OK
    if 1 & be == 0:
        return
    self.m_fname = rw.fname
    self.m_lineno = rw.lineno
    if kind == UVM_PREDICT_WRITE:
        cbs = UVMRegFieldCbIter(self)
        if rw.path == UVM_FRONTDOOR or rw.path == UVM_PREDICT:
            field_val = self.XpredictX(self.m_mirrored, field_val, rw.map)
        self.m_written = True
        cb = cbs.first()
        while cb is not None:
            cb.post_predict(self, self.m_mirrored, field_val, UVM_PREDICT_WRITE, rw.path, rw.map)
            cb = cbs.next()
        field_val &= self._get_mask()
    elif kind == UVM_PREDICT_READ:
        cbs = UVMRegFieldCbIter(self)
        if rw.path == UVM_FRONTDOOR or rw.path == UVM_PREDICT:
            acc = self.get_access(rw.map)
            if acc in ['RC', 'WRC', 'WSRC', 'W1SRC', 'W0SRC']:
                field_val = 0
            elif acc in ['RS', 'WRS', 'WCRS', 'W1CRS', 'W0CRS']:
                field_val = self._get_mask()
            elif acc in ['WO', 'WOC', 'WOS', 'WO1', 'NOACCESS']:
                return
        cb = cbs.first()
        while cb is not None:
            cb.post_predict(self, self.m_mirrored, field_val, UVM_PREDICT_READ, rw.path, rw.map)
            cb = cbs.next()
        field_val &= self._get_mask()
    elif kind == UVM_PREDICT_DIRECT:
        if self.m_parent.is_busy():
            uvm_report_warning('RegModel', '')
            rw.status = UVM_NOT_OK
    self.m_mirrored = field_val
    self.m_desired = field_val
    self.value = field_val


@contract('UVMRegField.pre_randomize', ret=False)
def pre_randomize(self):
    self.value = self.m_desired


@contract('UVMRegField.post_randomize', ret=False)
def post_randomize(self):
    self.m_desired = self.value

