
@contract('UVMPortBase.get_name')
def get_name(self):
    return self.m_comp.get_name()


@contract('UVMPortBase.get_full_name')
def get_full_name(self):
    return self.m_comp.get_full_name()


@contract('UVMPortBase.get_parent')
def get_parent(self):
    return self.m_comp.get_parent()


@contract('UVMPortBase.get_comp')
def get_comp(self):
    return self.m_comp


@contract('UVMPortBase.max_size')
def max_size(self):
    return self.m_max_size


@contract('UVMPortBase.min_size')
def min_size(self):
    return self.m_min_size


@contract('UVMPortBase.is_unbounded')
def is_unbounded(self):
    return self.m_max_size == UVM_UNBOUNDED_CONNECTIONS


@contract('UVMPortBase.is_port')
def is_port(self):
    return self.m_port_type == UVM_PORT


@contract('UVMPortBase.is_export')
def is_export(self):
    return self.m_port_type == UVM_EXPORT


@contract('UVMPortBase.is_imp')
def is_imp(self):
    return self.m_port_type == UVM_IMPLEMENTATION


@contract('UVMPortBase.size')
def size(self):
    return len(self.m_imp_list)


@contract('UVMPortBase.set_if')
def set_if(self, index=0):
    self.m_if = self.get_if(index)
    if self.m_if is not None:
        self.m_def_index = index


@contract('UVMPortBase.m_get_if_mask')
def m_get_if_mask(self):
    return self.m_if_mask


@contract('UVMPortBase.set_default_index')
def set_default_index(self, index):
    self.m_def_index = index


@contract('UVMPortBase.connect')
def connect(self, provider):
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    top = cs.get_root()
    if provider is None:
        self.m_comp.uvm_report_error(s_connection_error_id, '', UVM_NONE)
        return
    if provider == self:
        self.m_comp.uvm_report_error(s_connection_error_id, '', UVM_NONE)
        return
    if provider.m_if_mask & self.m_if_mask != self.m_if_mask:
        self.m_comp.uvm_report_error(s_connection_error_id, '', UVM_NONE)
        return
    if self.is_imp() is True:
        parent_name = ''
        if self.m_comp.get_parent() is not None:
            parent_name = self.m_comp.get_full_name()
        self.m_comp.uvm_report_error(s_connection_error_id, '', UVM_NONE)
        return
    if self.is_export() is True and provider.is_port() is True:
        self.m_comp.uvm_report_error(s_connection_error_id, '', UVM_NONE)
        return
    self.m_check_relationship(provider)
    self.m_provided_by[provider.get_full_name()] = provider
    provider.m_provided_to[self.get_full_name()] = self


@contract('UVMPortBase.get_connected_to')
def get_connected_to(self, port_list):
    for name in self.m_provided_by:
        port = self.m_provided_by[name]
        port_list[name] = port.get_comp()


@contract('UVMPortBase.get_provided_to')
def get_provided_to(self, port_list):
    for name in self.m_provided_to:
        port = self.m_provided_to[name]
        port_list[name] = port.get_comp()


@contract('UVMPortBase.m_check_relationship')
def m_check_relationship(self, provider):
    s = ''
    res_from = None
    from_parent = None
    to_parent = None
    from_gparent = None
    to_gparent = None
    if self.get_type_name() == 'uvm_analysis_port':
        return 1
    res_from = self
    from_parent = self.get_parent()
    to_parent = provider.get_parent()
    if from_parent is None or to_parent is None:
        return 1
    from_gparent = from_parent.get_parent()
    to_gparent = to_parent.get_parent()
    if res_from.is_port() and provider.is_port() and (from_gparent != to_parent):
        s = provider.get_full_name() + ' (of type ' + provider.get_type_name() + ') is not up one level of hierarchy from this port. ' + 'A port-to-port connection takes the form ' + 'child_component.child_port.connect(parent_port)'
        self.m_comp.uvm_report_warning(s_connection_warning_id, '', UVM_NONE)
        return 0
    elif res_from.is_port() and (provider.is_export() or provider.is_imp()) and (from_gparent != to_gparent):
        s = provider.get_full_name() + ' (of type ' + provider.get_type_name() + ') is not at the same level of hierarchy as this port. ' + 'A port-to-export connection takes the form ' + 'component1.port.connect(component2.export)'
        self.m_comp.uvm_report_warning(s_connection_warning_id, '', UVM_NONE)
        return 0
    elif res_from.is_export() and (provider.is_export() or provider.is_imp()) and (from_parent != to_gparent):
        s = provider.get_full_name() + ' (of type ' + provider.get_type_name() + ') is not down one level of hierarchy from this export. ' + 'An export-to-export or export-to-imp connection takes the form ' + 'parent_export.connect(child_component.child_export)'
        self.m_comp.uvm_report_warning(s_connection_warning_id, '', UVM_NONE)
        return 0
    return 1


@contract('UVMPortBase.m_add_list')
def m_add_list(self, provider):
    sz = ''
    for i in range(0, provider.size()):
        imp = provider.get_if(i)
        if not imp.get_full_name() in self.m_imp_list:
            self.m_imp_list[imp.get_full_name()] = imp


@contract('UVMPortBase.resolve_bindings')
def resolve_bindings(self):
    if self.m_resolved:
        return
    if self.is_imp() is True:
        self.m_imp_list[self.get_full_name()] = self
    else:
        for nm in self.m_provided_by:
            port = self.m_provided_by[nm]
            port.resolve_bindings()
            self.m_add_list(port)
    self.m_resolved = 1
    if self.size() < self.min_size():
        self.m_comp.uvm_report_error(s_connection_error_id, '', UVM_NONE)
    if self.max_size() != UVM_UNBOUNDED_CONNECTIONS and self.size() > self.max_size():
        self.m_comp.uvm_report_error(s_connection_error_id, '', UVM_NONE)
    if self.size() > 0:
        self.set_if(0)


@contract('UVMPortBase.get_if')
def get_if(self, index=0):
    s = ''
    if self.size() == 0:
        self.m_comp.uvm_report_warning('get_if', '', UVM_NONE)
        return None
    if index < 0 or index >= self.size():
        s = 'Index {} out of range [0,{}]'.format(index, self.size() - 1)
        self.m_comp.uvm_report_warning(s_connection_error_id, '', UVM_NONE)
        return None
    for nm in self.m_imp_list:
        if index == 0:
            return self.m_imp_list[nm]
        index -= 1


@contract('UVMPortBase.__init__', ret=False)
def __init__(self, name, parent, port_type, min_size=0, max_size=1):
    self.m_port_type = port_type
    self.m_min_size = min_size
    self.m_max_size = max_size
    self.m_comp = UVMPortComponent(name, parent, self)
    self.m_resolved = False
    self.m_imp_list = {}
    self.m_if_mask = 0
    self.m_def_index = 0
    self.m_provided_by = {}
    self.m_provided_to = {}
    self.m_if = None
    self.m_imp = None


@contract('UVMPortComponent.resolve_bindings')
def resolve_bindings(self):
    self.m_port.resolve_bindings()


@contract('UVMPortComponent.get_port')
def get_port(self):
    return self.m_port


@contract('UVMPortComponent.get_connected_to', impure=['get_connected_to', 'get_provided_to'])
def get_connected_to(self, port_list):
    self.m_port.get_connected_to(port_list)


@contract('UVMPortComponent.get_provided_to', impure=['get_connected_to', 'get_provided_to'])
def get_provided_to(self, port_list):
    self.m_port.get_provided_to(port_list)


@contract('UVMPortComponent.is_port')
def is_port(self):
    return self.m_port.is_port()


@contract('UVMPortComponent.is_export')
def is_export(self):
    return self.m_port.is_export()


@contract('UVMPortComponent.is_imp')
def is_imp(self):
    return self.m_port.is_imp()


@contract('UVMPortComponent.__init__', ret=False)
def __init__(self, name, parent, port):
    UVMPortComponentBase.__init__(self, name, parent)
    if port is None:
        uvm_report_fatal('Bad usage', '', UVM_NONE)
    self.m_port = port


@contract('UVMAnalysisPort.write')
def write(self, t):
    for i in range(0, self.size()):
        tif = self.get_if(i)
        if tif is None:
            uvm_fatal('NTCONN', '')
        else:
            tif.write(t)


@contract('UVMAnalysisPort.__init__', ret=False)
def __init__(self, name, parent):
    UVMPortBase.__init__(self, name, parent, UVM_PORT, 0, UVM_UNBOUNDED_CONNECTIONS)
    self.m_if_mask = UVM_TLM_ANALYSIS_MASK


@contract('UVMAnalysisExport.write')
def write(self, t):
    for i in range(0, self.size()):
        tif = self.get_if(i)
        if tif is None:
            uvm_fatal('NTCONN', '')
        else:
            tif.write(t)


@contract('UVMAnalysisExport.__init__', ret=False)
def __init__(self, name, parent=None):
    UVMPortBase.__init__(self, name, parent, UVM_EXPORT, 0, UVM_UNBOUNDED_CONNECTIONS)
    self.m_if_mask = UVM_TLM_ANALYSIS_MASK


@contract('UVMAnalysisImp.write')
def write(self, t):
    self.m_imp.write(t)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_BLOCKING_PUT_IMP')
def UVM_BLOCKING_PUT_IMP(imp, T):
    async def put(self, t):
        if not hasattr(self, imp):
            raise Exception('Tried calling put() for attr {}'.format(imp))
        port_imp = getattr(self, imp)
        await port_imp.put(t)
    setattr(T, 'put', put)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_BLOCKING_GET_IMP')
def UVM_BLOCKING_GET_IMP(imp, T):
    async def get(self, arg):
        await getattr(self, imp).get(arg)
    setattr(T, 'get', get)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_BLOCKING_PEEK_IMP')
def UVM_BLOCKING_PEEK_IMP(imp, T):
    async def peek(self, arg):
        await getattr(self, imp).peek(arg)
    setattr(T, 'peek', peek)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_BLOCKING_TRANSPORT_IMP')
def UVM_BLOCKING_TRANSPORT_IMP(imp, T):
    async def transport(self, req_arg, rsp_arg):
        await getattr(self, imp).transport(req_arg, rsp_arg)
    setattr(T, 'transport', transport)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_NONBLOCKING_PUT_IMP')
def UVM_NONBLOCKING_PUT_IMP(imp, T):
    def try_put(self, arg):
        return getattr(self, imp).try_put(arg)
    setattr(T, 'try_put', try_put)
    def can_put(self):
        return getattr(self, imp).can_put()
    setattr(T, 'can_put', can_put)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_NONBLOCKING_GET_IMP')
def UVM_NONBLOCKING_GET_IMP(imp, T):
    def try_get(self, arg):
        return getattr(self, imp).try_get(arg)
    setattr(T, 'try_get', try_get)
    def can_get(self):
        return getattr(self, imp).can_get()
    setattr(T, 'can_get', can_get)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_NONBLOCKING_PEEK_IMP')
def UVM_NONBLOCKING_PEEK_IMP(imp, T):
    def try_peek(self, arg):
        return getattr(self, imp).try_peek(arg)
    setattr(T, 'try_peek', try_peek)
    def can_peek(self):
        return getattr(self, imp).can_peek()
    setattr(T, 'can_peek', can_peek)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_NONBLOCKING_TRANSPORT_IMP')
def UVM_NONBLOCKING_TRANSPORT_IMP(imp, T):
    def nb_transport(self, req_arg, rsp_arg):
        return getattr(self, imp).nb_transport(req_arg, rsp_arg)
    setattr(T, 'nb_transport', nb_transport)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_PUT_IMP')
def UVM_PUT_IMP(imp, T):
    UVM_BLOCKING_PUT_IMP(imp, T)
    UVM_NONBLOCKING_PUT_IMP(imp, T)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_GET_IMP')
def UVM_GET_IMP(imp, T):
    UVM_BLOCKING_GET_IMP(imp, T)
    UVM_NONBLOCKING_GET_IMP(imp, T)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_PEEK_IMP')
def UVM_PEEK_IMP(imp, T):
    UVM_BLOCKING_PEEK_IMP(imp, T)
    UVM_NONBLOCKING_PEEK_IMP(imp, T)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_TRANSPORT_IMP')
def UVM_TRANSPORT_IMP(imp, T):
    UVM_BLOCKING_TRANSPORT_IMP(imp, T)
    UVM_NONBLOCKING_TRANSPORT_IMP(imp, T)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_BLOCKING_GET_PEEK_IMP')
def UVM_BLOCKING_GET_PEEK_IMP(imp, T):
    UVM_BLOCKING_GET_IMP(imp, T)
    UVM_BLOCKING_PEEK_IMP(imp, T)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_NONBLOCKING_GET_PEEK_IMP')
def UVM_NONBLOCKING_GET_PEEK_IMP(imp, T):
    UVM_NONBLOCKING_GET_IMP(imp, T)
    UVM_NONBLOCKING_PEEK_IMP(imp, T)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_GET_PEEK_IMP')
def UVM_GET_PEEK_IMP(imp, T):
    UVM_BLOCKING_GET_PEEK_IMP(imp, T)
    UVM_NONBLOCKING_GET_PEEK_IMP(imp, T)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_PORT_COMMON')
def UVM_PORT_COMMON(T, MASK, TYPE_NAME):
    from ..base.uvm_port_base import UVMPortBase
    def __init__(self, name, parent, min_size=1, max_size=1):
        UVMPortBase.__init__(self, name, parent, UVM_PORT, min_size, max_size)
        self.m_if_mask = MASK
    setattr(T, '__init__', __init__)
    UVM_TLM_GET_TYPE_NAME(T)
    return add_base_class(T, UVMPortBase)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_SEQ_PORT')
def UVM_SEQ_PORT(T, MASK, TYPE_NAME):
    from ..base.uvm_port_base import UVMPortBase
    def __init__(self, name, parent, min_size=0, max_size=1):
        UVMPortBase.__init__(self, name, parent, UVM_PORT, min_size, max_size)
        self.m_if_mask = MASK
    setattr(T, '__init__', __init__)
    UVM_TLM_GET_TYPE_NAME(T)
    return add_base_class(T, UVMPortBase)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_EXPORT_COMMON')
def UVM_EXPORT_COMMON(T, MASK, TYPE_NAME):
    from ..base.uvm_port_base import UVMPortBase
    def __init__(self, name, parent, min_size=1, max_size=1):
        UVMPortBase.__init__(self, name, parent, UVM_EXPORT, min_size, max_size)
        self.m_if_mask = MASK
    setattr(T, '__init__', __init__)
    UVM_TLM_GET_TYPE_NAME(T)
    return add_base_class(T, UVMPortBase)


@contract('uvm.tlm1.uvm_tlm_imps:UVM_IMP_COMMON')
def UVM_IMP_COMMON(T, MASK, TYPE_NAME):
    from ..base.uvm_port_base import UVMPortBase
    def __init__(self, name, imp):
        UVMPortBase.__init__(self, name, imp, UVM_IMPLEMENTATION, 1, 1)
        self.m_imp = imp
        self.m_if_mask = MASK
    UVM_TLM_GET_TYPE_NAME(T)
    TT = add_base_class(T, UVMPortBase)
    setattr(TT, '__init__', __init__)
    return TT


@contract('uvm.tlm1.uvm_tlm_imps:UVM_MS_IMP_COMMON')
def UVM_MS_IMP_COMMON(T, MASK, TYPE_NAME):
    from ..base.uvm_port_base import UVMPortBase
    def __init__(self, name, imp, req_imp=None, rsp_imp=None):
        UVMPortBase.__init__(self, name, imp, UVM_IMPLEMENTATION, 1, 1)
        if req_imp is None:
            req_imp = imp
        if rsp_imp is None:
            rsp_imp = imp
        self.m_req_imp = req_imp
        self.m_rsp_imp = rsp_imp
        self.m_if_mask = MASK
    setattr(T, '__init__', __init__)
    UVM_TLM_GET_TYPE_NAME(T)
    return add_base_class(T, UVMPortBase)


@contract('uvm.tlm1.uvm_tlm_imps:add_base_class')
def add_base_class(T, new_base, args={}):
    return type(T.__name__, (T, new_base), args)


@contract('uvm.macros.uvm_tlm_defines:UVM_SEQ_ITEM_PULL_IMP')
def UVM_SEQ_ITEM_PULL_IMP(T, imp):
    def disable_auto_item_recording(self):
        getattr(self, imp).disable_auto_item_recording()
    setattr(T, 'disable_auto_item_recording', disable_auto_item_recording)
    def is_auto_item_recording_enabled(self):
        return getattr(self, imp).is_auto_item_recording_enabled()
    setattr(T, 'is_auto_item_recording_enabled', is_auto_item_recording_enabled)
    async def get_next_item(self, req_arg=None):
        if req_arg is not None:
            uvm_check_ref_arg('get_next_item', req_arg)
        return await getattr(self, imp).get_next_item(req_arg)
    setattr(T, 'get_next_item', get_next_item)
    async def try_next_item(self, req_arg):
        await getattr(self, imp).try_next_item(req_arg)
    setattr(T, 'try_next_item', try_next_item)
    def item_done(self, rsp_arg=None):
        getattr(self, imp).item_done(rsp_arg)
    setattr(T, 'item_done', item_done)
    async def wait_for_sequences(self):
        await getattr(self, imp).wait_for_sequences()
    setattr(T, 'wait_for_sequences', wait_for_sequences)
    def has_do_available(self):
        return getattr(self, imp).has_do_available()
    setattr(T, 'has_do_available', has_do_available)
    def put_response(self, rsp_arg):
        getattr(self, imp).put_response(rsp_arg)
    setattr(T, 'put_response', put_response)
    async def get(self, req_arg):
        uvm_check_ref_arg('get', req_arg)
        await getattr(self, imp).get(req_arg)
    setattr(T, 'get', get)
    async def peek(self, req_arg):
        uvm_check_ref_arg('get', req_arg)
        await getattr(self, imp).peek(req_arg)
    setattr(T, 'peek', peek)
    async def put(self, rsp_arg):
        await getattr(self, imp).put(rsp_arg)
    setattr(T, 'put', put)


@contract('uvm.macros.uvm_tlm_defines:uvm_analysis_imp_decl')
def uvm_analysis_imp_decl(SFX):
    TT = type('UVMAnalysisImp' + SFX, (), {})
    T = add_base_class(TT, UVMPortBase)
    T = UVM_IMP_COMMON(T, UVM_TLM_ANALYSIS_MASK, 'UVMAnalysisImp' + SFX)
    def write(self, t):
        getattr(self.m_imp, 'write' + SFX)(t)
    setattr(T, 'write', write)
    return T


@contract('uvm.macros.uvm_tlm_defines:uvm_check_ref_arg')
def uvm_check_ref_arg(func_name, req_arg):
    if not hasattr(req_arg, 'append'):
        raise Exception('In python-uvm, ref args not supported. Variables ' + ' need to be passed as empty lists to obtain the output ' + 'values. Function: ' + func_name)

