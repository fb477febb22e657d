
@contract('UVMResourceBase.__init__', ret=False)
def __init__(self, name='', s='*'):
    UVMObject.__init__(self, name)
    if s is None:
        raise TypeError('s/scope must be string (or use "*" default) ' + ', got: ' + str(s))
    self.set_scope(s)
    self.modified = False
    self.read_only = False
    self.access = {}
    self.precedence = UVMResourceBase.default_precedence
    self.event_modified = Event(name + '_' + 'event_modified')
    self.modified = False


@contract('UVMResourceBase.set_read_only', ret=False)
def set_read_only(self):
    self.read_only = True


@contract('UVMResourceBase.set_read_write', ret=False)
def set_read_write(self):
    self.read_only = False


@contract('UVMResourceBase.is_read_only', ret='bool')
def is_read_only(self):
    return self.read_only


@contract('UVMResourceBase.set_scope', ret=False)
def set_scope(self, s):
    scope = uvm_glob_to_re(s)
    self.scope = scope


@contract('UVMResourceBase.get_scope')
def get_scope(self):
    return self.scope


@contract('UVMResourceBase.match_scope', ret='bool')
def match_scope(self, s):
    err = uvm_re_match(self.scope, s)
    return err == 0


@contract('UVMResourceBase.record_read_access', ret=False)
def record_read_access(self, accessor=None):
    _str = ''
    access_record = None
    if not UVMResourceOptions.is_auditing():
        return
    if accessor is not None:
        _str = accessor.get_full_name()
    else:
        _str = '<empty>'
    if _str in self.access:
        access_record = self.access[_str]
    else:
        access_record = Access_t()
        self.init_access_record(access_record)
    access_record.read_count += 1
    self.access[_str] = access_record


@contract('UVMResourceBase.record_write_access', ret=False)
def record_write_access(self, accessor=None):
    if UVMResourceOptions.is_auditing():
        if accessor is not None:
            access_record = None
            _str = accessor.get_full_name()
            if _str in self.access:
                access_record = self.access[_str]
            else:
                access_record = Access_t()
                self.init_access_record(access_record)
            access_record.write_count += 1
            self.access[_str] = access_record


@contract('UVMResourceBase.init_access_record', ret=False)
def init_access_record(self, access_record):
    access_record.read_time = 0
    access_record.write_time = 0
    access_record.read_count = 0
    access_record.write_count = 0


@contract('UVMResource.__init__', ret=False)
def __init__(self, name='', scope=''):
    UVMResourceBase.__init__(self, name, scope)
    self.val = None
    self.m_r2s = None


@contract('UVMResource.get_type')
def get_type(cls):
    if UVMResource.my_type is None:
        UVMResource.my_type = UVMResource()
    return UVMResource.my_type


@contract('UVMResource.get_type_handle')
def get_type_handle(self):
    return UVMResource.get_type()


@contract('UVMResource.set', ret=False)
def set(self):
    pool = UVMResourcePool.get()
    pool.set(self)


@contract('UVMResource.set_override', ret=False)
def set_override(self, override=NAME_OVERRIDE):
    rp = UVMResourcePool.get()
    rp.set(self, override)


@contract('UVMResource.get_by_name')
def get_by_name(cls, scope, name, rpterr=True):
    rp = UVMResourcePool.get()
    rsrc_base = rp.get_by_name(scope, name, cls.get_type(), rpterr)
    if rsrc_base is None:
        return None
    return rsrc_base


@contract('UVMResource.read')
def read(self, accessor=None):
    self.record_read_access(accessor)
    return self.val


@contract('UVMResource.write', ret=False)
def write(self, t, accessor=None):
    if self.is_read_only():
        uvm_report_error('resource', '')
        return
    if self.val == t:
        return
    self.record_write_access(accessor)
    self.val = t
    self.modified = True
    self.event_modified.set()


@contract('UVMResource.get_highest_precedence')
def get_highest_precedence(cls, q, T=None):
    rsrc = None
    r = None
    i = 0
    prec = 0
    first = 0
    if len(q) == 0:
        return None
    for i in range(len(q)):
        first = i
        q_val = q[first]
        if T is not None:
            arr_rsrc = []
            if sv.cast(arr_rsrc, q_val, T):
                rsrc = q_val
                break
        else:
            rsrc = q_val
            break
    if rsrc is None:
        return None
    prec = rsrc.precedence
    for i in range(first + 1, len(q)):
        if T is not None:
            arr_r = []
            if sv.cast(arr_r, q[i], T):
                r = q[i]
                if r.precedence > prec:
                    rsrc = r
                    prec = r.precedence
        else:
            r = q[i]
            if r.precedence > prec:
                rsrc = r
                prec = r.precedence
    return rsrc


@contract('UVMResourcePool.set', ret=False)
def set(self, rsrc, override=False):
    rq = list()
    name = ''
    type_handle = None
    if rsrc is None:
        return
    name = rsrc.get_name()
    if name != '':
        if name in self.rtab:
            rq = self.rtab[name]
        else:
            rq = list()
    if override & NAME_OVERRIDE:
        rq.insert(0, rsrc)
    else:
        rq.append(rsrc)
    self.rtab[name] = rq
    type_handle = rsrc.get_type_handle()
    if type_handle in self.ttab:
        rq = self.ttab[type_handle]
    else:
        rq = list()
    if override & TYPE_OVERRIDE:
        rq.insert(0, rsrc)
    else:
        rq.append(rsrc)
    self.ttab[type_handle] = rq


@contract('UVMResourcePool.push_get_record', ret=False)
def push_get_record(self, name, scope, rsrc):
    impt = None
    if not UVMResourceOptions.is_auditing():
        return
    impt = get_t()
    impt.name = name
    impt.scope = scope
    impt.rsrc = rsrc
    impt.t = sv.realtime()
    self.get_record.append(impt)


@contract('UVMResourcePool.lookup_name')
def lookup_name(self, scope, name, type_handle=None, rpterr=True):
    rq = list()
    q = list()
    r = None
    if name == '':
        return q
    if name not in self.rtab:
        if rpterr:
            self.spell_check(name)
        return q
    rq = self.rtab[name]
    for i in range(0, len(rq)):
        r = rq[i]
        handle_ok = type_handle is None or r.get_type_handle() == type_handle
        if handle_ok and r.match_scope(scope):
            q.append(r)
    return q


@contract('UVMResourcePool.get_highest_precedence')
def get_highest_precedence(self, q):
    rsrc = None
    r = None
    i = 0
    prec = 0
    if len(q) == 0:
        return None
    rsrc = q[0]
    prec = rsrc.precedence
    for i in range(1, len(q)):
        r = q[i]
        if r.precedence > prec:
            rsrc = r
            prec = r.precedence
    return rsrc


@contract('UVMResourcePool.sort_by_precedence')
def sort_by_precedence(cls, q):
    _all = {}
    r = None
    for i in range(len(q)):
        r = q[i]
        if r.precedence not in _all:
            _all[r.precedence] = UVMQueue()
        _all[r.precedence].push_front(r)
    qq = []
    for key in sorted(_all):
        for j in range(len(_all[key])):
            r = _all[key].get(j)
            qq.insert(0, r)
    return qq


@contract('UVMResourcePool.get_by_name')
def get_by_name(self, scope, name, type_handle, rpterr=True):
    q = []
    rsrc = None
    q = self.lookup_name(scope, name, type_handle, rpterr)
    if len(q) == 0:
        self.push_get_record(name, scope, None)
        return None
    rsrc = self.get_highest_precedence(q)
    self.push_get_record(name, scope, rsrc)
    return rsrc


@contract('UVMResourcePool.lookup_regex_names')
def lookup_regex_names(self, scope, name, type_handle=None):
    return self.lookup_name(scope, name, type_handle, 0)


@contract('UVMResourcePool.lookup_scope')
def lookup_scope(self, scope):
    rq = None
    r = None
    i = 0
    q = UVMQueue()
    name = ''
    if self.rtab.has_last():
        name = self.rtab.last()
        while True:
            rq = self.rtab[name]
            for i in range(len(rq)):
                r = rq[i]
                if r.match_scope(scope):
                    q.push_back(r)
            if self.rtab.has_prev():
                name = self.rtab.prev()
            else:
                break
    return q


@contract('UVMResourcePool.set_priority_queue', ret=False)
def set_priority_queue(self, rsrc, q, pri):
    r = None
    i = 0
    msg = ''
    name = rsrc.get_name()
    for i in range(len(q)):
        r = q[i]
        if r == rsrc:
            break
    if r != rsrc:
        msg = sv.sformatf('Handle for res named %s not in the name name; cannot change its priority', name)
        uvm_report_error('NORSRC', '')
        return
    q.pop(i)
    if pri == PRI_HIGH:
        q.insert(0, rsrc)
    elif pri == PRI_LOW:
        q.append(rsrc)


@contract('UVMResourcePool.set_priority_name', ret=False)
def set_priority_name(self, rsrc, pri):
    name = ''
    msg = ''
    q = []
    if rsrc is None:
        uvm_report_warning('NoneRASRC', '')
        return
    name = rsrc.get_name()
    if not self.rtab.exists(name):
        msg = sv.sformatf('Res named %s not found in name map; cannot change its search priority', name)
        uvm_report_error('RNFNAME', '')
        return
    q = self.rtab[name]
    self.set_priority_queue(rsrc, q, pri)


@contract('UVMResourceDb.get_by_type')
def get_by_type(cls, scope):
    return cls.rsrc_t.get_by_type(scope, cls.rsrc_t.get_type())


@contract('UVMResourceDb.get_by_name')
def get_by_name(cls, scope, name, rpterr=True):
    rsrc = UVMResource.get_by_name(scope, name, rpterr)
    if UVMResourceDbOptions.is_tracing():
        cls.m_show_msg('RSRCDB/GET_BY_NAME', 'Resource', 'get', scope, name, None, rsrc)
    return rsrc


@contract('UVMResourceDb.set_default')
def set_default(cls, scope, name):
    r = UVMResource(name, scope)
    r.set()
    return r


@contract('UVMResourceDb.set', ret=False)
def set(cls, scope, name, val, accessor=None):
    rsrc = cls.rsrc_t(name, scope)
    rsrc.write(val, accessor)
    rsrc.set()
    if UVMResourceDbOptions.is_tracing():
        cls.m_show_msg('RSRCDB/SET', 'Resource', 'set', scope, name, accessor, rsrc)


@contract('UVMResourceDb.read_by_name', ret='bool')
def read_by_name(cls, scope, name, val, accessor=None):
    uvm_check_output_args([val])
    rsrc = cls.get_by_name(scope, name)
    if UVMResourceDbOptions.is_tracing():
        cls.m_show_msg('RSRCDB/RDBYNAM', 'Resource', 'read', scope, name, accessor, rsrc)
    if rsrc is None:
        return False
    val.append(rsrc.read(accessor))
    return True


@contract('UVMResourceDb.write_by_name', ret='bool')
def write_by_name(cls, scope, name, val, accessor=None):
    rsrc = cls.get_by_name(scope, name)
    if UVMResourceDbOptions.is_tracing():
        cls.m_show_msg('RSRCDB/WR', 'Resource', 'written', scope, name, accessor, rsrc)
    if rsrc is None:
        return 0
    rsrc.write(val, accessor)
    return 1


@contract('uvm.base.sv:uvm_re_match', ret='bool')
def uvm_re_match(rex, _str):
    if len(rex) > 1 and rex[0] == '/' and (rex[-1] == '/'):
        m = re.search(rex[1:-1], _str)
    elif rex == '':
        m = re.search(rex, _str)
    else:
        m = re.search('(?:' + rex + ')\\Z', _str)
    if m is not None:
        return RET_OK
    return RET_ERR


@contract('uvm.base.sv:uvm_glob_to_re')
def uvm_glob_to_re(_str):
    if _str is None or _str == '':
        return ''
    if _str[0] == '/' and _str[-1] == '/':
        return _str
    res = _str.replace('.', '\\.')
    res = res.replace('*', '.*')
    res = res.replace('[', '\\[')
    res = res.replace(']', '\\]')
    res = res.replace('?', '.')
    return res


@contract('uvm.base.uvm_globals:uvm_is_match', ret='bool')
def uvm_is_match(expr, _str):
    s = uvm_glob_to_re(expr)
    return uvm_re_match(s, _str) == 0

