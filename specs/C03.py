
@contract('UVMDefaultFactory._get_inst_path')
def _get_inst_path(self, parent_inst_path, name):
    inst_path = ''
    if parent_inst_path == '':
        inst_path = name
    elif name != '':
        inst_path = parent_inst_path + '.' + name
    else:
        inst_path = parent_inst_path
    return inst_path


@contract('UVMDefaultFactory.are_args_ok', ret='bool')
def are_args_ok(self, qc_elem, requested_type, full_inst_path):
    name_ok = qc_elem.orig_type == requested_type or (qc_elem.orig_type_name != '<unknown>' and qc_elem.orig_type_name != '' and (qc_elem.orig_type_name == requested_type.get_type_name()))
    return name_ok and uvm_is_match(qc_elem.full_inst_path, full_inst_path)


@contract('UVMDefaultFactory.args_are_ok_again', ret='bool')
def args_are_ok_again(self, type_override, requested_type):
    match_ok = type_override.orig_type_name != '<unknown>' and type_override.orig_type_name != '' and (requested_type is not None) and (type_override.orig_type_name == requested_type.get_type_name())
    return type_override.orig_type == requested_type or match_ok


@contract('UVMDefaultFactory.check_inst_override_exists', ret='bool')
def check_inst_override_exists(self, original_type, override_type, full_inst_path):
    override = None
    qc = None
    if original_type in self.m_inst_override_queues:
        qc = self.m_inst_override_queues[original_type]
    else:
        return 0
    for index in range(len(qc.queue)):
        override = qc.queue[index]
        if override.full_inst_path == full_inst_path and override.orig_type == original_type and (override.ovrd_type == override_type) and (override.orig_type_name == original_type.get_type_name()):
            return 1
    return 0


@contract('UVMDefaultFactory.create_component_by_name')
def create_component_by_name(self, requested_type_name, parent_inst_path, name, parent):
    inst_path = self._get_inst_path(parent_inst_path, name)
    self.m_override_info.clear()
    wrapper = self.find_override_by_name(requested_type_name, inst_path)
    if wrapper is None:
        if not self.m_type_names.exists(requested_type_name):
            uvm_report_warning('BDTYP', '', UVM_NONE)
            return None
        wrapper = self.m_type_names.get(requested_type_name)
    return wrapper.create_component(name, parent)


@contract('UVMDefaultFactory.create_component_by_type')
def create_component_by_type(self, requested_type, parent_inst_path, name, parent):
    full_inst_path = self._get_inst_path(parent_inst_path, name)
    self.m_override_info.clear()
    requested_type = self.find_override_by_type(requested_type, full_inst_path)
    return requested_type.create_component(name, parent)


@contract('UVMDefaultFactory.create_object_by_name')
def create_object_by_name(self, requested_type_name, parent_inst_path='', name=''):
    inst_path = self._get_inst_path(parent_inst_path, name)
    self.m_override_info.clear()
    wrapper = self.find_override_by_name(requested_type_name, inst_path)
    if wrapper is None:
        if not self.m_type_names.exists(requested_type_name):
            uvm_report_warning('BDTYP', '', UVM_NONE)
            return None
        wrapper = self.m_type_names.get(requested_type_name)
    return wrapper.create_object(name)


@contract('UVMDefaultFactory.create_object_by_type')
def create_object_by_type(self, requested_type, parent_inst_path='', name=''):
    if requested_type is None:
        uvm_report_fatal('REQ_TYPE_NONE', '')
    full_inst_path = self._get_inst_path(parent_inst_path, name)
    self.m_override_info.clear()
    requested_type = self.find_override_by_type(requested_type, full_inst_path)
    if requested_type is None:
        uvm_report_fatal('REQ_TYPE_NONE', '')
    return requested_type.create_object(name)


@contract('UVMDefaultFactory.find_override_by_name')
def find_override_by_name(self, requested_type_name, full_inst_path):
    rtype = None
    qc = UVMQueue()
    lindex = None
    override = None
    if self.m_type_names.exists(requested_type_name):
        rtype = self.m_type_names.get(requested_type_name)
    if full_inst_path != '':
        if rtype is None:
            if requested_type_name in self.m_inst_override_name_queues:
                qc = self.m_inst_override_name_queues[requested_type_name]
        elif rtype in self.m_inst_override_queues:
            qc = self.m_inst_override_queues[rtype]
        if qc is not None:
            for index in range(0, qc.size()):
                match_ok = uvm_is_match(qc[index].orig_type_name, requested_type_name)
                if match_ok and uvm_is_match(qc[index].full_inst_path, full_inst_path):
                    self.m_override_info.append(qc[index])
                    if UVMDefaultFactory.m_debug_pass:
                        if override is None:
                            override = qc[index].ovrd_type
                            qc[index].selected = 1
                            lindex = qc[index]
                    else:
                        qc[index].used += 1
                        if qc[index].ovrd_type.get_type_name() == requested_type_name:
                            return qc[index].ovrd_type
                        else:
                            return self.find_override_by_type(qc[index].ovrd_type, full_inst_path)
    ovrd_ok = rtype not in self.m_inst_override_queues and self.m_wildcard_inst_overrides.size() > 0
    if rtype is not None and ovrd_ok:
        self.m_inst_override_queues[rtype] = UVMQueue()
        for i in range(0, self.m_wildcard_inst_overrides.size()):
            if uvm_is_match(self.m_wildcard_inst_overrides.get(i).orig_type_name, requested_type_name):
                self.m_inst_override_queues[rtype].push_back(self.m_wildcard_inst_overrides.get(i))
    for index in range(0, len(self.m_type_overrides)):
        if self.m_type_overrides[index].orig_type_name == requested_type_name:
            self.m_override_info.append(self.m_type_overrides[index])
            if UVMDefaultFactory.m_debug_pass:
                if override is None:
                    override = self.m_type_overrides[index].ovrd_type
                    self.m_type_overrides[index].selected = 1
                    lindex = self.m_type_overrides[index]
            else:
                self.m_type_overrides[index].used += 1
                return self.find_override_by_type(self.m_type_overrides[index].ovrd_type, full_inst_path)
    if UVMDefaultFactory.m_debug_pass and override is not None:
        lindex.used += 1
        return self.find_override_by_type(override, full_inst_path)
    return None


@contract('UVMDefaultFactory.find_override_by_type')
def find_override_by_type(self, requested_type, full_inst_path):
    override = None
    lindex = None
    qc = None
    if requested_type in self.m_inst_override_queues:
        qc = self.m_inst_override_queues[requested_type]
    for index in range(0, len(self.m_override_info)):
        if self.m_override_info[index].orig_type == requested_type:
            uvm_report_error('OVRDLOOP', '', UVM_NONE)
            if UVMDefaultFactory.m_debug_pass is False:
                self.debug_create_by_type(requested_type, full_inst_path)
            self.m_override_info[index].used += 1
            return requested_type
    if full_inst_path != '' and qc is not None:
        for index in range(0, qc.size()):
            if self.are_args_ok(qc[index], requested_type, full_inst_path):
                self.m_override_info.append(qc[index])
                if UVMDefaultFactory.m_debug_pass:
                    if override is None:
                        override = qc[index].ovrd_type
                        qc[index].selected = 1
                        lindex = qc[index]
                else:
                    qc[index].used += 1
                    if qc[index].ovrd_type == requested_type:
                        return requested_type
                    else:
                        return self.find_override_by_type(qc[index].ovrd_type, full_inst_path)
    for index in range(0, len(self.m_type_overrides)):
        if self.args_are_ok_again(self.m_type_overrides[index], requested_type):
            self.m_override_info.append(self.m_type_overrides[index])
            if UVMDefaultFactory.m_debug_pass:
                if override is None:
                    override = self.m_type_overrides[index].ovrd_type
                    self.m_type_overrides[index].selected = 1
                    lindex = self.m_type_overrides[index]
            else:
                self.m_type_overrides[index].used += 1
                if self.m_type_overrides[index].ovrd_type == requested_type:
                    return requested_type
                else:
                    return self.find_override_by_type(self.m_type_overrides[index].ovrd_type, full_inst_path)
    if UVMDefaultFactory.m_debug_pass and override is not None:
        lindex.used += 1
        if override == requested_type:
            return requested_type
        else:
            return self.find_override_by_type(override, full_inst_path)
    return requested_type


@contract('UVMDefaultFactory.find_wrapper_by_name')
def find_wrapper_by_name(self, type_name):
    if self.m_type_names.exists(type_name):
        return self.m_type_names[type_name]
    uvm_report_warning('UnknownTypeName', '', UVM_NONE)


@contract('UVMDefaultFactory.register', ret=False)
def register(self, obj):
    if obj is None:
        uvm_report_fatal('NULLWR', '')
    if obj.get_type_name() != '' and obj.get_type_name() != '<unknown>':
        if self.m_type_names.exists(obj.get_type_name()):
            uvm_report_warning('TPRGED', '', UVM_NONE)
        else:
            self.m_type_names.add(obj.get_type_name(), obj)
    if self.m_types.exists(obj):
        if obj.get_type_name() != '' and obj.get_type_name() != '<unknown>':
            uvm_report_warning('TPRGED', '', UVM_NONE)
    else:
        self.m_types.add(obj, 1)
        tname = obj.get_type_name()
        if obj.get_type_name() in self.m_inst_override_name_queues:
            self.m_inst_override_queues[obj] = UVMQueue()
            self.m_inst_override_queues[obj] = self.m_inst_override_name_queues[tname]
            del self.m_inst_override_name_queues[tname]
        if self.m_wildcard_inst_overrides.size():
            if obj not in self.m_inst_override_queues:
                self.m_inst_override_queues[obj] = UVMQueue()
            for i in range(0, self.m_wildcard_inst_overrides.size()):
                wc_inst_override = self.m_wildcard_inst_overrides[i]
                if uvm_is_match(wc_inst_override.orig_type_name, tname):
                    self.m_inst_override_queues[obj].push_back(wc_inst_override)


@contract('UVMDefaultFactory.set_inst_override_by_type', ret=False)
def set_inst_override_by_type(self, original_type, override_type, full_inst_path):
    override = None
    if not self.m_types.exists(original_type):
        self.register(original_type)
    if not self.m_types.exists(override_type):
        self.register(override_type)
    if self.check_inst_override_exists(original_type, override_type, full_inst_path):
        return
    if original_type not in self.m_inst_override_queues:
        self.m_inst_override_queues[original_type] = UVMQueue()
    override = UVMFactoryOverride(full_inst_path=full_inst_path, orig_type=original_type, orig_type_name=original_type.get_type_name(), ovrd_type=override_type)
    self.m_inst_override_queues[original_type].push_back(override)


@contract('UVMDefaultFactory.set_type_override_by_name', ret=False)
def set_type_override_by_name(self, original_type_name, override_type_name, replace=True):
    replaced = False
    original_type = None
    override_type = None
    if self.m_type_names.exists(original_type_name):
        original_type = self.m_type_names.get(original_type_name)
    if self.m_type_names.exists(override_type_name):
        override_type = self.m_type_names.get(override_type_name)
    if override_type is None:
        uvm_report_error('TYPNTF', '', UVM_NONE)
        return
    if original_type_name == override_type_name:
        uvm_report_warning('TYPDUP', '', UVM_NONE)
        return
    for index in range(0, len(self.m_type_overrides)):
        ovrd_type_name = self.m_type_overrides[index].ovrd_type_name
        if self.m_type_overrides[index].orig_type_name == original_type_name:
            if not replace:
                return
            replaced = True
            self.m_type_overrides[index].ovrd_type = override_type
            self.m_type_overrides[index].ovrd_type_name = override_type_name
    if original_type is None:
        self.m_lookup_strs[original_type_name] = 1
    if not replaced:
        override = UVMFactoryOverride(orig_type=original_type, orig_type_name=original_type_name, full_inst_path='*', ovrd_type=override_type)
        self.m_type_overrides.append(override)
        if original_type is None:
            self.m_type_names.add(original_type_name, override.ovrd_type)


@contract('UVMDefaultFactory.set_type_override_by_type', ret=False)
def set_type_override_by_type(self, original_type, override_type, replace=True):
    replaced = False
    if original_type == override_type:
        if original_type.get_type_name() == '' or original_type.get_type_name() == '<unknown>':
            uvm_report_warning('TYPDUP', '', UVM_NONE)
        else:
            uvm_report_warning('TYPDUP', '', UVM_NONE)
    if not self.m_types.exists(original_type):
        self.register(original_type)
    if not self.m_types.exists(override_type):
        self.register(override_type)
    for index in range(len(self.m_type_overrides)):
        idx_orig_type = self.m_type_overrides[index].orig_type
        idx_type_name = self.m_type_overrides[index].orig_type_name
        if idx_orig_type == original_type or (idx_type_name != '<unknown>' and idx_type_name != '' and (idx_type_name == original_type.get_type_name())):
            msg = "Original object type '" + original_type.get_type_name() + "' already registered to produce '" + self.m_type_overrides[index].ovrd_type_name + "'"
            if replace is False:
                msg = msg + ".  Set 'replace' argument to replace the existing entry."
                return
            msg = msg + ".  Replacing with override to produce type '" + override_type.get_type_name() + "'."
            replaced = True
            self.m_type_overrides[index].orig_type = original_type
            self.m_type_overrides[index].orig_type_name = original_type.get_type_name()
            self.m_type_overrides[index].ovrd_type = override_type
            self.m_type_overrides[index].ovrd_type_name = override_type.get_type_name()
    if replaced is False:
        override = UVMFactoryOverride(orig_type=original_type, orig_type_name=original_type.get_type_name(), full_inst_path='*', ovrd_type=override_type)
        self.m_type_overrides.append(override)


@contract('UVMComponentRegistry.create_component')
def create_component(self, name, parent):
    return UVMComponentRegistry.comps[self.tname](name, parent)


@contract('UVMComponentRegistry.get_type_name')
def get_type_name(self):
    return self.tname


@contract('UVMComponentRegistry.create')
def create(self, name, parent, contxt=''):
    factory = get_factory()
    if contxt == '' and parent is not None:
        contxt = parent.get_full_name()
    obj = factory.create_component_by_type(self.get(), contxt, name, parent)
    if obj is not None:
        return obj
    msg = "Factory did not return a component of type '" + self.type_name + "'. A component of type '"
    if obj is None:
        msg += 'null'
    else:
        get_type_name_func = getattr(obj, 'get_type_name', None)
        if callable(get_type_name_func):
            msg += obj.get_type_name()
        else:
            klass_name = obj.__class__
            raise AttributeError('No get_type_name in {}. Did you use uvm_componen_utils({})'.format(klass_name, klass_name))
    msg += "' was returned instead. Name=" + name + ' Parent='
    if parent is None:
        msg += 'null'
    else:
        msg += parent.get_type_name()
    msg += ' contxt=' + contxt
    uvm_report_fatal('FCTTYP', '', UVM_NONE)


@contract('UVMComponentRegistry.set_type_override', ret=False)
def set_type_override(self, override_type, replace=True):
    factory = get_factory()
    factory.set_type_override_by_type(self.get(), override_type, replace)


@contract('UVMComponentRegistry.set_inst_override', ret=False)
def set_inst_override(self, override_type, inst_path, parent=None):
    if parent is not None:
        if inst_path == '':
            inst_path = parent.get_full_name()
        else:
            inst_path = parent.get_full_name() + '.' + inst_path
    factory = get_factory()
    factory.set_inst_override_by_type(self.get(), override_type, inst_path)


@contract('UVMObjectRegistry.create_object')
def create_object(self, name=''):
    return UVMObjectRegistry.objs[self.tname](name)


@contract('UVMObjectRegistry.get_type_name')
def get_type_name(self):
    return self.type_name


@contract('UVMObjectRegistry.create')
def create(self, name, parent=None, contxt=''):
    factory = get_factory()
    if contxt == '' and parent is not None:
        contxt = parent.get_full_name()
    obj = factory.create_object_by_type(self.get(), contxt, name)
    if obj is not None:
        return obj
    create = obj
    return create


@contract('UVMObjectRegistry.set_type_override', ret=False)
def set_type_override(self, override_type, replace=True):
    factory = get_factory()
    factory.set_type_override_by_type(self.get(), override_type, replace)


@contract('UVMObjectRegistry.set_inst_override', ret=False)
def set_inst_override(self, override_type, inst_path, parent=None):
    factory = get_factory()
    if parent is not None:
        if inst_path == '':
            inst_path = parent.get_full_name()
        else:
            inst_path = parent.get_full_name() + '.' + inst_path
    factory.set_inst_override_by_type(self.get(), override_type, inst_path)


@contract('UVMFactoryOverride.__init__', ret=False)
def __init__(self, full_inst_path='', orig_type_name='', orig_type=None, ovrd_type=None):
    if ovrd_type is None:
        uvm_report_fatal('NULLWR', '', UVM_NONE)
    self.full_inst_path = full_inst_path
    self.orig_type_name = orig_type_name
    if orig_type is not None:
        self.orig_type_name = orig_type.get_type_name()
    self.orig_type = orig_type
    self.ovrd_type_name = ovrd_type.get_type_name()
    self.ovrd_type = ovrd_type
    self.selected = False
    self.used = 0


@contract('UVMComponent.create_component')
def create_component(self, requested_type_name, name):
    factory = _get_factory()
    return factory.create_component_by_name(requested_type_name, self.get_full_name(), name, self)


@contract('UVMComponent.create_object')
def create_object(self, requested_type_name, name=''):
    factory = _get_factory()
    return factory.create_object_by_name(requested_type_name, self.get_full_name(), name)


@contract('UVMComponent.set_type_override_by_type', ret=False)
def set_type_override_by_type(cls, original_type, override_type, replace=1):
    factory = _get_factory()
    factory.set_type_override_by_type(original_type, override_type, replace)


@contract('UVMComponent.set_type_override', ret=False)
def set_type_override(cls, original_type_name, override_type_name, replace=1):
    factory = _get_factory()
    factory.set_type_override_by_name(original_type_name, override_type_name, replace)


@contract('UVMDefaultFactory.set_inst_override_by_name')
def set_inst_override_by_name(self, original_type_name, override_type_name, full_inst_path):
    original_type = None
    override_type = None
    if self.m_type_names.exists(original_type_name):
        original_type = self.m_type_names.get(original_type_name)
    if self.m_type_names.exists(override_type_name):
        override_type = self.m_type_names.get(override_type_name)
    if override_type is None:
        uvm_report_error('TYPNTF', '', UVM_NONE)
        return
    if original_type is None:
        self.m_lookup_strs[original_type_name] = 1
    override = UVMFactoryOverride(full_inst_path=full_inst_path, orig_type=original_type, orig_type_name=original_type_name, ovrd_type=override_type)
    if original_type is not None:
        if self.check_inst_override_exists(original_type, override_type, full_inst_path):
            return
        if original_type not in self.m_inst_override_queues:
            self.m_inst_override_queues[original_type] = UVMQueue()
        self.m_inst_override_queues[original_type].push_back(override)
    elif m_has_wildcard(original_type_name):
        for type_name in self.m_type_names.key_list():
            if uvm_is_match(original_type_name, type_name):
                self.set_inst_override_by_name(type_name, override_type_name, full_inst_path)
        self.m_wildcard_inst_overrides.push_back(override)
    else:
        if original_type_name not in self.m_inst_override_name_queues:
            self.m_inst_override_name_queues[original_type_name] = UVMQueue()
        self.m_inst_override_name_queues[original_type_name].push_back(override)


@contract('uvm.base.uvm_factory:m_has_wildcard')
def m_has_wildcard(nm):
    for char in nm:
        if char == '*' or char == '?':
            return True
    return False

