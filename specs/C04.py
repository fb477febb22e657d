
@contract('UVMConfigDb.get')
def get(cls, cntxt, inst_name, field_name, value, T=None):
    r = None
    rp = UVMResourcePool.get()
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    if cntxt is None:
        cntxt = cs.get_root()
    if inst_name == '':
        inst_name = cntxt.get_full_name()
    elif cntxt.get_full_name() != '':
        inst_name = cntxt.get_full_name() + '.' + inst_name
    rq = rp.lookup_regex_names(inst_name, field_name)
    r = UVMResource.get_highest_precedence(rq, T)
    if UVMConfigDbOptions.is_tracing():
        UVMResourceDb.m_show_msg('CFGDB/GET', 'Configuration', 'read', inst_name, field_name, cntxt, r)
    if r is None:
        return False
    if hasattr(value, 'append'):
        value.append(r.read(cntxt))
    else:
        raise Exception('value must be a list-like with append')
    return True


@contract('UVMConfigDb.exists', ret='bool')
def exists(cls, cntxt, inst_name, field_name, spell_chk=False):
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    if cntxt is None:
        cntxt = cs.get_root()
    if inst_name == '':
        inst_name = cntxt.get_full_name()
    elif cntxt.get_full_name() != '':
        inst_name = cntxt.get_full_name() + '.' + inst_name
    found_val = UVMResourceDb.get_by_name(inst_name, field_name, spell_chk)
    return found_val is not None


@contract('UVMConfigDb.set', ret=False)
def set(cls, cntxt, inst_name, field_name, value, T=None):
    p = None
    curr_phase = None
    exists = False
    lookup = ''
    pool = None
    rstate = ''
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    top = cs.get_root()
    curr_phase = top.m_current_phase
    if cntxt is None:
        cntxt = top
    if inst_name == '':
        inst_name = cntxt.get_full_name()
    elif cntxt.get_full_name() != '':
        inst_name = cntxt.get_full_name() + '.' + inst_name
    if cntxt in UVMConfigDb.m_rsc:
        pass
    else:
        UVMConfigDb.m_rsc[cntxt] = UVMPool()
    pool = UVMConfigDb.m_rsc[cntxt]
    lookup = inst_name + '__M_UVM__' + field_name
    r = None
    if not pool.exists(lookup):
        r = UVMResource(field_name, inst_name)
        pool.add(lookup, r)
    else:
        r = pool.get(lookup)
        exists = True
    if curr_phase is not None and curr_phase.get_name() == 'build':
        r.precedence = UVMResourceBase.default_precedence - cntxt.get_depth()
    else:
        r.precedence = UVMResourceBase.default_precedence
    r.write(value, cntxt)
    if exists:
        rp = UVMResourcePool.get()
        rp.set_priority_name(r, PRI_HIGH)
    else:
        r.set_override()
    if field_name in UVMConfigDb.m_waiters:
        w = None
        for i in range(len(UVMConfigDb.m_waiters[field_name])):
            w = UVMConfigDb.m_waiters[field_name].get(i)
            if uvm_re_match(uvm_glob_to_re(inst_name), w.inst_name) == 0:
                w.trigger.set()
    if p is not None:
        p.set_randstate(rstate)
    if UVMConfigDbOptions.is_tracing():
        UVMResourceDb.m_show_msg('CFGDB/SET', 'Configuration', 'set', inst_name, field_name, cntxt, r)


@contract('UVMComponent.apply_config_settings', ret=False)
def apply_config_settings(self, verbose=0):
    from .uvm_resource import UVMResourcePool
    rp = UVMResourcePool.get()
    rq = UVMQueue()
    r = None
    name = ''
    search_name = ''
    i = 0
    j = 0
    self._m_uvm_field_automation(None, UVM_CHECK_FIELDS, '')
    T_cont = UVMObject._m_uvm_status_container
    if len(T_cont.field_array) == 0:
        return
    if verbose:
        pass
    rq = rp.lookup_scope(self.get_full_name())
    rq = UVMResourcePool.sort_by_precedence(rq)
    for i in reversed(range(len(rq))):
        r = rq[i]
        name = r.get_name()
        j = 0
        while j < len(name):
            if name[j] == '[' or name[j] == '.':
                break
            j += 1
        if j < len(name):
            search_name = name[0:j]
        else:
            search_name = name
        if search_name not in T_cont.field_array and search_name != 'recording_detail':
            continue
        if verbose:
            pass
        val = r.read(self)
        if isinstance(val, int):
            self.set_int_local(name, val)
        elif isinstance(val, UVMObject):
            self.set_object_local(name, val, 0)
        elif isinstance(val, UVMObjectWrapper):
            self.set_object_local(name, val.obj, val.clone)
        elif isinstance(val, str):
            self.set_string_local(name, val)
        elif verbose:
            pass
    T_cont.field_array.clear()


@contract('UVMAgent.build_phase', ret=False)
def build_phase(self, phase):
    self.active = 0
    rp = None
    rq = UVMQueue()
    UVMComponent.build_phase(self, phase)
    rp = UVMResourcePool.get()
    rq = rp.lookup_name(self.get_full_name(), 'is_active', None, 0)
    rq = UVMResourcePool.sort_by_precedence(rq)
    for i in range(len(rq)):
        rsrc = rq[i]
        rap = rsrc
        self.is_active = rap.read(self)
        break


@contract('UVMAgent.get_is_active')
def get_is_active(self):
    return self.is_active


@contract('m_uvm_waiter.__init__', ret=False)
def __init__(self, inst_name, field_name):
    self.inst_name = inst_name
    self.field_name = field_name
    self.trigger = Event()


@contract('UVMResource.write', ret=False)
def write(self, t, accessor=None):
    if self.is_read_only():
        uvm_report_error('resource', '')
        return
    if self.val == t:
        return
    self.record_write_access(accessor)
    self.val = t
    self.modified = True
    self.event_modified.set()


@contract('UVMResource.read')
def read(self, accessor=None):
    self.record_read_access(accessor)
    return self.val


@contract('UVMResourcePool.set_priority_name', ret=False)
def set_priority_name(self, rsrc, pri):
    name = ''
    msg = ''
    q = []
    if rsrc is None:
        uvm_report_warning('NoneRASRC', '')
        return
    name = rsrc.get_name()
    if not self.rtab.exists(name):
        msg = sv.sformatf('Res named %s not found in name map; cannot change its search priority', name)
        uvm_report_error('RNFNAME', '')
        return
    q = self.rtab[name]
    self.set_priority_queue(rsrc, q, pri)


@contract('UVMResourcePool.set_priority_queue', ret=False)
def set_priority_queue(self, rsrc, q, pri):
    r = None
    i = 0
    msg = ''
    name = rsrc.get_name()
    for i in range(len(q)):
        r = q[i]
        if r == rsrc:
            break
    if r != rsrc:
        msg = sv.sformatf('Handle for res named %s not in the name name; cannot change its priority', name)
        uvm_report_error('NORSRC', '')
        return
    q.pop(i)
    if pri == PRI_HIGH:
        q.insert(0, rsrc)
    elif pri == PRI_LOW:
        q.append(rsrc)


@contract('UVMResourcePool.sort_by_precedence')
def sort_by_precedence(cls, q):
    _all = {}
    r = None
    for i in range(len(q)):
        r = q[i]
        if r.precedence not in _all:
            _all[r.precedence] = UVMQueue()
        _all[r.precedence].push_front(r)
    qq = []
    for key in sorted(_all):
        for j in range(len(_all[key])):
            r = _all[key].get(j)
            qq.insert(0, r)
    return qq


@contract('UVMResourcePool.lookup_regex_names')
def lookup_regex_names(self, scope, name, type_handle=None):
    return self.lookup_name(scope, name, type_handle, 0)


@contract('UVMResourcePool.lookup_scope')
def lookup_scope(self, scope):
    rq = None
    r = None
    i = 0
    q = UVMQueue()
    name = ''
    if self.rtab.has_last():
        name = self.rtab.last()
        while True:
            rq = self.rtab[name]
            for i in range(len(rq)):
                r = rq[i]
                if r.match_scope(scope):
                    q.push_back(r)
            if self.rtab.has_prev():
                name = self.rtab.prev()
            else:
                break
    return q


@contract('UVMResource.get_highest_precedence')
def get_highest_precedence(cls, q, T=None):
    rsrc = None
    r = None
    i = 0
    prec = 0
    first = 0
    if len(q) == 0:
        return None
    for i in range(len(q)):
        first = i
        q_val = q[first]
        if T is not None:
            arr_rsrc = []
            if sv.cast(arr_rsrc, q_val, T):
                rsrc = q_val
                break
        else:
            rsrc = q_val
            break
    if rsrc is None:
        return None
    prec = rsrc.precedence
    for i in range(first + 1, len(q)):
        if T is not None:
            arr_r = []
            if sv.cast(arr_r, q[i], T):
                r = q[i]
                if r.precedence > prec:
                    rsrc = r
                    prec = r.precedence
        else:
            r = q[i]
            if r.precedence > prec:
                rsrc = r
                prec = r.precedence
    return rsrc

