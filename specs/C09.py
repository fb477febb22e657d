
@contract('UVMTypeID.get')
def get(cls):
    if UVMTypeID.m_b_inst is None:
        UVMTypeID.m_b_inst = UVMTypeID()
    return UVMTypeID.m_b_inst


@contract('UVMCallbacksBase.__init__')
def __init__(self, name):
    super().__init__(name)
    self.m_this_type = []
    self.m_super_type = None
    self.m_derived_types = []


@contract('UVMCallbacksBase.m_initialize')
def m_initialize(cls):
    if UVMCallbacksBase.m_b_inst is None:
        UVMCallbacksBase.m_b_inst = UVMCallbacksBase('callbacks_base')
        UVMCallbacksBase.m_pool = UVMPool()
    return UVMCallbacksBase.m_b_inst


@contract('UVMCallbacksBase.m_am_i_a')
def m_am_i_a(self, obj):
    return 0


@contract('UVMCallbacksBase.m_is_for_me')
def m_is_for_me(self, cb):
    return 0


@contract('UVMCallbacksBase.m_is_registered')
def m_is_registered(self, obj, cb):
    return True


@contract('UVMCallbacksBase.m_get_tw_cb_q')
def m_get_tw_cb_q(self, obj, CB=None):
    return None


@contract('UVMCallbacksBase.m_add_tw_cbs')
def m_add_tw_cbs(self, cb, ordering):
    raise NotImplementedError('m_add_tw_cbs is pure virtual function!')


@contract('UVMCallbacksBase.m_delete_tw_cbs')
def m_delete_tw_cbs(self, cb):
    return 0


@contract('UVMCallbacksBase.check_registration')
def check_registration(self, obj, cb):
    dt = None
    if self.m_is_registered(obj, cb):
        return True
    for item in self.m_this_type:
        if UVMCallbacksBase.m_b_inst != item and item.m_is_registered(obj, cb):
            return True
    if obj is None:
        for item in self.m_derived_types:
            dt = UVMTypeIDBase.typeid_map[item]
            if dt is not None and dt.check_registration(None, cb):
                return True
    return False


@contract('UVMCallbacksBase.get_first')
def get_first(cls, itr, obj, CB=None):
    cb = None
    cls.get()
    q = cls.m_get_q(obj, CB)
    if q is not None:
        for i in range(len(q)):
            itr.m_i = i
            cb = q[i]
            if cb is not None and cb.callback_mode():
                return cb
    return None


@contract('UVMTypedCallbacks.__init__')
def __init__(self, name, T=ALL_TYPES):
    super().__init__(name)
    self.T = T


@contract('UVMTypedCallbacks.m_initialize')
def m_initialize(cls):
    if UVMTypedCallbacks.m_t_inst is None:
        super().m_initialize()
        UVMTypedCallbacks.m_t_inst = UVMTypedCallbacks('typed_callbacks')
    return UVMTypedCallbacks.m_t_inst


@contract('UVMTypedCallbacks.m_am_i_a')
def m_am_i_a(self, obj):
    if obj is None:
        return True
    arr = []
    if self.T is not ALL_TYPES:
        return sv.cast(arr, obj, self.T)
    return True


@contract('UVMTypedCallbacks.m_get_tw_cb_q')
def m_get_tw_cb_q(self, obj, CB=None):
    if self.m_am_i_a(obj):
        for i in range(len(self.m_derived_types)):
            dt = UVMTypeIDBase.typeid_map[self.m_derived_types[i]]
            if dt is not None and dt != self:
                m_get_tw_cb_q = dt.m_get_tw_cb_q(obj, CB)
                if m_get_tw_cb_q is not None:
                    return m_get_tw_cb_q
        return UVMTypedCallbacks.m_t_inst.m_tw_cb_q
    else:
        return None


@contract('UVMTypedCallbacks.m_cb_find')
def m_cb_find(cls, q, cb):
    for i in range(len(q)):
        if q[i] == cb:
            return i
    return -1


@contract('UVMTypedCallbacks.m_cb_find_name')
def m_cb_find_name(cls, q, name, where):
    cb = None
    for i in range(len(q)):
        cb = q[i]
        if cb.get_name() == name:
            uvm_report_warning('UVM/CB/NAM/SAM', '')
            return 1
    return 0


@contract('UVMTypedCallbacks.m_add_tw_cbs')
def m_add_tw_cbs(self, cb, ordering):
    cb_pair = None
    obj = None
    me = None
    warned = False
    cls = UVMTypedCallbacks
    q = []
    if self.m_cb_find(cls.m_t_inst.m_tw_cb_q, cb) == -1:
        warned = cls.m_cb_find_name(cls.m_t_inst.m_tw_cb_q, cb.get_name(), 'type')
        if ordering == UVM_APPEND:
            cls.m_t_inst.m_tw_cb_q.append(cb)
        else:
            cls.m_t_inst.m_tw_cb_q.insert(0, cb)
    for obj in cls.m_t_inst.m_pool.key_list():
        me = obj
        q = cls.m_t_inst.m_pool.get(obj)
        if q is None:
            q = []
            cls.m_t_inst.m_pool.add(obj, q)
        if self.m_cb_find(q, cb) == -1:
            if not warned:
                cls.m_cb_find_name(q, cb.get_name(), 'object instance ' + me.get_full_name())
            if ordering == UVM_APPEND:
                q.append(cb)
            else:
                q.insert(0, cb)
    for i in range(len(self.m_derived_types)):
        cb_pair = UVMTypeIDBase.typeid_map[self.m_derived_types[i]]
        if cb_pair != self:
            cb_pair.m_add_tw_cbs(cb, ordering)


@contract('UVMCallbacks.__init__')
def __init__(self, name='uvm_callbacks', T=ALL_TYPES, CB=ALL_TYPES):
    super().__init__(name)
    self.m_registered = False
    self.T = T
    self.CB = CB


@contract('UVMCallbacks.get')
def get(cls):
    if cls.m_inst is None:
        cb_base_type = UVMTypeIDBase()
        super().m_initialize()
        cb_base_type = UVMTypeID.get()
        cls.m_cb_typeid = UVMTypeID.get()
        cls.m_typeid = UVMTypeID.get()
        cls.m_inst = UVMCallbacks()
        if cb_base_type == cls.m_cb_typeid:
            cls.m_base_inst = cls.m_inst
            cls.m_t_inst = cls.m_base_inst
            UVMTypeIDBase.typeid_map[cls.m_typeid] = cls.m_inst
            UVMTypeIDBase.type_map[cls.m_b_inst] = cls.m_typeid
        else:
            cls.m_base_inst = cls.get()
            cls.m_base_inst.m_this_type.append(cls.m_inst)
        if cls.m_inst is None:
            uvm_report_fatal('CB/INTERNAL', '')
    return cls.m_inst


@contract('UVMCallbacks.m_register_pair')
def m_register_pair(cls, tname='', cbname='', T=ALL_TYPES):
    inst = cls.get()
    cbs = UVMCallbacks(tname + '__' + cbname, T)
    cbs.m_typename = tname
    cbs.m_typeid.typename = tname
    cbs.m_cb_typename = cbname
    cbs.m_cb_typeid.typename = cbname
    cbs.m_registered = True
    if cbs.get_name() not in inst._m_cb_table:
        inst._m_cb_table[cbs.get_name()] = cbs
    else:
        uvm_warning('CB_EXISTS', '')
    return True


@contract('UVMCallbacks._get_typed_cbs')
def _get_typed_cbs(cls, obj, CB):
    cb_table_key = cls._get_cb_table_key(obj, CB)
    if cb_table_key in cls._m_cb_table:
        return cls._m_cb_table[cb_table_key]
    return cls


@contract('UVMCallbacks._get_cb_table_key')
def _get_cb_table_key(cls, obj, CB):
    if obj is not None:
        if CB is not None:
            return type(obj).__name__ + '__' + CB.__name__
        else:
            return type(obj).__name__
    elif CB is not None:
        return '__' + CB.__name__
    else:
        return '__<unknown_key>__'


@contract('UVMCallbacks.add')
def add(cls, obj, cb, ordering=UVM_APPEND):
    q = []
    nm = ''
    tnm = ''
    cls.get()
    if cb is None:
        nm, tnm = cls.get_obj_and_typename(obj)
        uvm_report_error('CBUNREG', '', UVM_NONE)
        return
    if not cls.m_base_inst.check_registration(obj, cb):
        nm, tnm = cls.get_obj_and_typename(obj)
        uvm_report_warning('CBUNREG', '', UVM_NONE)
    if obj is None:
        if cls.m_cb_find(cls.m_t_inst.m_tw_cb_q, cb) != -1:
            if cls.m_base_inst.m_typename != '':
                tnm = cls.m_base_inst.m_typename
            else:
                tnm = 'uvm_object'
            uvm_report_warning('CBPREG', '', UVM_NONE)
        else:
            uvm_cb_trace_noobj(cb, sv.sformatf('Add (%s) typewide callback %0s for type %s', o2str(ordering), cb.get_name(), cls.m_base_inst.m_typename))
            cls.m_t_inst.m_add_tw_cbs(cb, ordering)
    else:
        uvm_cb_trace_noobj(cb, sv.sformatf('Add (%s) callback %0s to object %0s ', o2str(ordering), cb.get_name(), obj.get_full_name()))
        q = cls.m_base_inst.m_pool.get(obj)
        if q is None:
            q = []
            cls.m_base_inst.m_pool.add(obj, q)
        if len(q) == 0:
            o = []
            if sv.cast(o, obj, UVMReportObject):
                UVMCallbacks.get()
                qr = UVMCallbacks.m_t_inst.m_tw_cb_q
                for i in range(len(qr)):
                    q.append(qr[i])
            for i in range(len(cls.m_t_inst.m_tw_cb_q)):
                if cls.m_cb_find(q, cls.m_t_inst.m_tw_cb_q[i]) == -1:
                    q.append(cls.m_t_inst.m_tw_cb_q[i])
        if cls.m_cb_find(q, cb) != -1:
            uvm_report_warning('CBPREG', '', UVM_NONE)
        else:
            cls.m_cb_find_name(q, cb.get_name(), 'object instance ' + obj.get_full_name())
            if ordering == UVM_APPEND:
                q.append(cb)
            else:
                q.insert(0, cb)


@contract('UVMCallbacks.get_obj_and_typename')
def get_obj_and_typename(cls, obj):
    nm = ''
    tnm = ''
    if obj is None:
        nm = '(*)'
    else:
        nm = obj.get_full_name()
    if cls.m_base_inst.m_typename != '':
        tnm = cls.m_base_inst.m_typename
    elif obj is not None:
        tnm = obj.get_type_name()
    else:
        tnm = 'uvm_object'
    return (nm, tnm)


@contract('UVMCallbacks.m_get_q')
def m_get_q(cls, obj, CB=None):
    q = None
    if not cls.m_base_inst.m_pool.exists(obj):
        if obj is None:
            q = cls.m_t_inst.m_tw_cb_q
        else:
            q = cls.m_t_inst.m_get_tw_cb_q(obj, CB)
    else:
        q = cls.m_base_inst.m_pool.get(obj)
        if q is None:
            q = UVMQueue()
            cls.m_base_inst.m_pool.add(obj, q)
    return q


@contract('UVMCallbacks.get_first')
def get_first(cls, itr, obj, CB=None):
    cls.get()
    typed_cls = cls._get_typed_cbs(obj, CB)
    cls = typed_cls
    q = cls.m_get_q(obj, CB)
    for i in range(len(q)):
        itr.m_i = i
        cb = []
        if CB is not None:
            if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                return cb[0]
        elif q[itr.m_i].callback_mode():
            return q[itr.m_i]
    return None


@contract('UVMCallbacks.get_last')
def get_last(cls, itr, obj, CB=None):
    cls.get()
    typed_cls = cls._get_typed_cbs(obj, CB)
    cls = typed_cls
    q = cls.m_get_q(obj, CB)
    for i in range(len(q) - 1, -1, -1):
        itr.m_i = i
        cb = []
        if CB is not None:
            if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                return cb[0]
        elif q[itr.m_i].callback_mode():
            return q[itr.m_i]
    return None


@contract('UVMCallbacks.get_next')
def get_next(cls, itr, obj, CB=None):
    cls.get()
    typed_cls = cls._get_typed_cbs(obj, CB)
    cls = typed_cls
    q = cls.m_get_q(obj)
    for i in range(itr.m_i + 1, len(q)):
        itr.m_i = i
        cb = []
        if CB is not None:
            if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                return cb[0]
        elif q[itr.m_i].callback_mode():
            return q[itr.m_i]
    return None


@contract('UVMCallbacks.get_prev')
def get_prev(cls, itr, obj, CB=None):
    cls.get()
    typed_cls = cls._get_typed_cbs(obj, CB)
    cls = typed_cls
    q = cls.m_get_q(obj)
    for i in range(itr.m_i - 1, -1, -1):
        itr.m_i = i
        cb = []
        if CB is not None:
            if sv.cast(cb, q[itr.m_i], CB) and cb[0].callback_mode():
                return cb[0]
        elif q[itr.m_i].callback_mode():
            return q[itr.m_i]
    return None


@contract('UVMCallbackIter.__init__')
def __init__(self, obj, CB=None):
    self.m_i = 0
    self.m_cb = None
    self.m_obj = obj
    self.CB = CB


@contract('UVMCallbackIter.first')
def first(self):
    self.m_cb = UVMCallbacks.get_first(self, self.m_obj, self.CB)
    return self.m_cb


@contract('UVMCallbackIter.last')
def last(self):
    self.m_cb = UVMCallbacks.get_last(self, self.m_obj, self.CB)
    return self.m_cb


@contract('UVMCallbackIter.next')
def next(self):
    self.m_cb = UVMCallbacks.get_next(self, self.m_obj, self.CB)
    return self.m_cb


@contract('UVMCallbackIter.prev')
def prev(self):
    self.m_cb = UVMCallbacks.get_prev(self, self.m_obj, self.CB)
    return self.m_cb


@contract('UVMCallbackIter.get_cb')
def get_cb(self):
    return self.m_cb


@contract('UVMCallback.__init__')
def __init__(self, name='uvm_callback'):
    super().__init__(name)
    self.m_enabled = True


@contract('UVMCallback.callback_mode')
def callback_mode(self, on=-1):
    if on == 0 or on == 1:
        is_en = 'DISABLED'
        if on == 1:
            is_en = 'ENABLED'
        uvm_cb_trace_noobj(self, sv.sformatf('Setting callback mode for %s to %s', self.get_name(), is_en))
    else:
        is_en = 'DISABLED'
        if self.m_enabled is True:
            is_en = 'ENABLED'
        uvm_cb_trace_noobj(self, sv.sformatf('Callback mode for %s is %s', self.get_name(), is_en))
    callback_mode = self.m_enabled
    if on == 0:
        self.m_enabled = False
    if on == 1:
        self.m_enabled = True
    return callback_mode


@contract('UVMCallback.is_enabled')
def is_enabled(self):
    return self.callback_mode()


@contract('uvm.macros.uvm_callback_defines:uvm_register_cb')
def uvm_register_cb(T, CB):
    from ..base.uvm_callback import UVMCallbacks
    Ts = T.__name__
    cb_name = '_m_register_cb_' + CB.__name__
    ok = UVMCallbacks.m_register_pair(Ts, CB.__name__, T)
    setattr(T, cb_name, ok)


@contract('uvm.macros.uvm_callback_defines:uvm_do_callbacks')
def uvm_do_callbacks(self, CB, METHOD, *args):
    uvm_do_obj_callbacks(self, CB, METHOD, *args)


@contract('uvm.macros.uvm_callback_defines:uvm_do_callbacks_async')
async def uvm_do_callbacks_async(self, CB, METHOD, *args):
    await uvm_do_obj_callbacks_async(self, CB, METHOD, *args)


@contract('uvm.macros.uvm_callback_defines:uvm_do_obj_callbacks')
def uvm_do_obj_callbacks(OBJ, CB, METHOD, *args):
    from ..base.uvm_callback import UVMCallbackIter
    cb_iter = UVMCallbackIter(OBJ, CB)
    cb = cb_iter.first()
    while cb is not None:
        uvm_cb_trace_noobj(cb, "Executing callback method '{}' for callback {} (CB) from {} (T)".format(METHOD, cb.get_name(), OBJ.get_full_name()))
        m_to_call = getattr(cb, METHOD)
        m_to_call(*args)
        cb = cb_iter.next()


@contract('uvm.macros.uvm_callback_defines:uvm_do_obj_callbacks_async')
async def uvm_do_obj_callbacks_async(OBJ, CB, METHOD, *args):
    from ..base.uvm_callback import UVMCallbackIter
    cb_iter = UVMCallbackIter(OBJ, CB)
    cb = cb_iter.first()
    while cb is not None:
        uvm_cb_trace_noobj(cb, "Executing callback method '{}' for callback {} (CB) from {} (T)".format(METHOD, cb.get_name(), OBJ.get_full_name()))
        m_to_call = getattr(cb, METHOD)
        await m_to_call(*args)
        cb = cb_iter.next()


@contract('uvm.macros.uvm_callback_defines:uvm_do_callbacks_exit_on')
def uvm_do_callbacks_exit_on(self, CB, METHOD, VAL, *args):
    return uvm_do_obj_callbacks_exit_on(self, CB, METHOD, VAL, *args)


@contract('uvm.macros.uvm_callback_defines:uvm_do_obj_callbacks_exit_on')
def uvm_do_obj_callbacks_exit_on(OBJ, CB, METHOD, VAL, *args):
    from ..base.uvm_callback import UVMCallbackIter
    cb_iter = UVMCallbackIter(OBJ, CB)
    cb = cb_iter.first()
    while cb is not None:
        m_to_call = getattr(cb, METHOD)
        ret_val = m_to_call(*args)
        if ret_val == VAL:
            uvm_cb_trace_noobj(cb, sv.sformatf('Executed callback method ' + "'METHOD' for callback %s (CB) from %s (T) : returned value VAL" + '(other callbacks will be ignored)l', cb.get_name(), OBJ.get_full_name()))
            return VAL
        uvm_cb_trace_noobj(cb, "Executed callback method '{}' for callback {} (CB) from {} (T)".format(METHOD, cb.get_name(), OBJ.get_full_name()))
        cb = cb_iter.next()
    return 1 - VAL


@contract('uvm.macros.uvm_callback_defines:uvm_cb_trace_noobj')
def uvm_cb_trace_noobj(CB, OPER):
    from ..base.uvm_callback import UVMCallbacksBase
    if UVMCallbacksBase.m_tracing:
        pass

