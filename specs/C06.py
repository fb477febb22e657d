
@contract('UVMReportHandler.__init__')
def __init__(self, name=''):
    UVMObject.__init__(self, name)
    self.m_max_verbosity_level = 0
    self.id_verbosities = UVMPool()
    self.severity_id_verbosities = {}
    self.id_actions = UVMPool()
    self.severity_actions = UVMPool()
    self.severity_id_actions = {}
    self.sev_overrides = UVMPool()
    self.sev_id_overrides = {}
    self.default_file_handle = 1
    self.id_file_handles = UVMPool()
    self.severity_file_handles = {}
    self.severity_id_file_handles = {}
    self.initialize()


@contract('UVMReportHandler.process_report_message')
def process_report_message(self, report_message):
    from .uvm_report_server import UVMReportServer
    srvr = UVMReportServer.get_server()
    id = report_message.get_id()
    severity = report_message.get_severity()
    if id in self.sev_id_overrides:
        if self.sev_id_overrides[id].exists(severity):
            severity = self.sev_id_overrides[id].get(severity)
            report_message.set_severity(severity)
    elif self.sev_overrides.exists(severity):
        severity = self.sev_overrides.get(severity)
        report_message.set_severity(severity)
    report_message.set_file(self.get_file_handle(severity, id))
    report_message.set_report_handler(self)
    report_message.set_action(self.get_action(severity, id))
    srvr.process_report_message(report_message)


@contract('UVMReportHandler.format_action')
def format_action(cls, action):
    s = ''
    if action == UVM_NO_ACTION:
        s = 'UVM_NO_ACTION'
    else:
        if action & UVM_DISPLAY:
            s = s + 'DISPLAY '
        if action & UVM_LOG:
            s = s + 'LOG '
        if action & UVM_RM_RECORD:
            s = s + 'RM_RECORD '
        if action & UVM_COUNT:
            s = s + 'COUNT '
        if action & UVM_CALL_HOOK:
            s = s + 'CALL_HOOK '
        if action & UVM_EXIT:
            s = s + 'EXIT '
        if action & UVM_STOP:
            s = s + 'STOP '
    return s


@contract('UVMReportHandler.initialize')
def initialize(self):
    self.set_default_file(0)
    self.m_max_verbosity_level = UVM_MEDIUM
    self.set_severity_action(UVM_INFO, UVM_DISPLAY)
    self.set_severity_action(UVM_WARNING, UVM_DISPLAY)
    self.set_severity_action(UVM_ERROR, UVM_DISPLAY | UVM_COUNT)
    self.set_severity_action(UVM_FATAL, UVM_DISPLAY | UVM_EXIT)
    self.set_severity_file(UVM_INFO, self.default_file_handle)
    self.set_severity_file(UVM_WARNING, self.default_file_handle)
    self.set_severity_file(UVM_ERROR, self.default_file_handle)
    self.set_severity_file(UVM_FATAL, self.default_file_handle)


@contract('UVMReportHandler.get_severity_id_file')
def get_severity_id_file(self, severity, id):
    if severity in self.severity_id_file_handles:
        array = self.severity_id_file_handles[severity]
        if array.exists(id):
            return array.get(id)
    if self.id_file_handles.exists(id):
        return self.id_file_handles.get(id)
    if severity in self.severity_file_handles:
        return self.severity_file_handles[severity]
    return self.default_file_handle


@contract('UVMReportHandler.get_verbosity_level')
def get_verbosity_level(self, severity=UVM_INFO, id=''):
    if severity in self.severity_id_verbosities:
        array = self.severity_id_verbosities[severity]
        if array.exists(id):
            return array.get(id)
    if self.id_verbosities.exists(id):
        return self.id_verbosities.get(id)
    return self.m_max_verbosity_level


@contract('UVMReportHandler.get_action')
def get_action(self, severity, id):
    if severity in self.severity_id_actions:
        array = self.severity_id_actions[severity]
        if array.exists(id):
            return array.get(id)
    if self.id_actions.exists(id):
        return self.id_actions.get(id)
    return self.severity_actions.get(severity)


@contract('UVMReportHandler.get_file_handle')
def get_file_handle(self, severity, id):
    _file = self.get_severity_id_file(severity, id)
    if _file != 0:
        return _file
    if self.id_file_handles.exists(id):
        _file = self.id_file_handles.get(id)
        if _file != 0:
            return _file
    if severity in self.severity_file_handles:
        _file = self.severity_file_handles[severity]
        if _file != 0:
            return _file
    return self.default_file_handle


@contract('UVMReportHandler.set_verbosity_level')
def set_verbosity_level(self, verbosity_level):
    self.m_max_verbosity_level = verbosity_level


@contract('UVMReportHandler.set_severity_action')
def set_severity_action(self, severity, action):
    self.severity_actions.add(severity, action)


@contract('UVMReportHandler.set_id_action')
def set_id_action(self, id, action):
    self.id_actions.add(id, action)


@contract('UVMReportHandler.set_severity_id_action')
def set_severity_id_action(self, severity, id, action):
    if severity not in self.severity_id_actions:
        self.severity_id_actions[severity] = UVMPool()
    self.severity_id_actions[severity].add(id, action)


@contract('UVMReportHandler.set_id_verbosity')
def set_id_verbosity(self, id, verbosity):
    self.id_verbosities.add(id, verbosity)


@contract('UVMReportHandler.set_severity_id_verbosity')
def set_severity_id_verbosity(self, severity, id, verbosity):
    if severity not in self.severity_id_verbosities:
        self.severity_id_verbosities[severity] = UVMPool()
    self.severity_id_verbosities[severity].add(id, verbosity)


@contract('UVMReportHandler.set_default_file')
def set_default_file(self, file):
    self.default_file_handle = file


@contract('UVMReportHandler.set_severity_file')
def set_severity_file(self, severity, file):
    self.severity_file_handles[severity] = file


@contract('UVMReportHandler.set_id_file')
def set_id_file(self, id, file):
    self.id_file_handles.add(id, file)


@contract('UVMReportHandler.set_severity_id_file')
def set_severity_id_file(self, severity, id, file):
    if severity not in self.severity_id_file_handles:
        self.severity_id_file_handles[severity] = UVMPool()
    self.severity_id_file_handles[severity].add(id, file)


@contract('UVMReportHandler.set_severity_override')
def set_severity_override(self, cur_severity, new_severity):
    self.sev_overrides.add(cur_severity, new_severity)


@contract('UVMReportHandler.set_severity_id_override')
def set_severity_id_override(self, cur_severity, id, new_severity):
    if id not in self.sev_id_overrides:
        self.sev_id_overrides[id] = UVMPool()
    self.sev_id_overrides[id].add(cur_severity, new_severity)


@contract('UVMReportHandler.report')
def report(self, severity, name, id, message, verbosity_level=UVM_MEDIUM, filename='', line=0, client=None):
    l_report_enabled = False
    l_report_message = None
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    if not uvm_report_enabled(verbosity_level, UVM_INFO, id):
        return
    if client is None:
        client = cs.get_root()
    from .uvm_report_message import UVMReportMessage
    l_report_message = UVMReportMessage.new_report_message()
    l_report_message.set_report_message(severity, id, message, verbosity_level, filename, line, name)
    l_report_message.set_report_object(client)
    l_report_message.set_action(self.get_action(severity, id))
    self.process_report_message(l_report_message)


@contract('UVMReportObject.__init__')
def __init__(self, name=''):
    UVMObject.__init__(self, name)
    from .uvm_report_handler import UVMReportHandler
    self.m_rh = UVMReportHandler(name)


@contract('UVMReportObject.uvm_get_report_object')
def uvm_get_report_object(self):
    return self


@contract('UVMReportObject.uvm_report_enabled', ret='bool')
def uvm_report_enabled(self, verbosity, severity=UVM_INFO, id=''):
    if self.get_report_verbosity_level(severity, id) >= verbosity:
        return True
    return False


@contract('UVMReportObject.uvm_report')
def uvm_report(self, severity, id, message, verbosity=-1, filename='', line=0, context_name='', report_enabled_checked=False):
    rng_state = random.getstate()
    if verbosity == -1:
        verbosity = get_verbosity(severity)
    l_report_message = None
    if report_enabled_checked is False:
        if not self.uvm_report_enabled(verbosity, severity, id):
            return
    l_report_message = UVMReportMessage.new_report_message()
    l_report_message.set_report_message(severity, id, message, verbosity, filename, line, context_name)
    self.uvm_process_report_message(l_report_message)
    random.setstate(rng_state)


@contract('UVMReportObject.uvm_report_info', report_calls=1)
def uvm_report_info(self, id, message, verbosity=UVM_MEDIUM, filename='', line=0, context_name='', report_enabled_checked=False):
    self.uvm_report(UVM_INFO, id, message, verbosity, filename, line, context_name, report_enabled_checked)


@contract('UVMReportObject.uvm_report_warning', report_calls=1)
def uvm_report_warning(self, id, message, verbosity=UVM_MEDIUM, filename='', line=0, context_name='', report_enabled_checked=False):
    self.uvm_report(UVM_WARNING, id, message, verbosity, filename, line, context_name, report_enabled_checked)


@contract('UVMReportObject.uvm_report_error', report_calls=1)
def uvm_report_error(self, id, message, verbosity=UVM_LOW, filename='', line=0, context_name='', report_enabled_checked=False):
    self.uvm_report(UVM_ERROR, id, message, verbosity, filename, line, context_name, report_enabled_checked)


@contract('UVMReportObject.uvm_report_fatal', report_calls=1)
def uvm_report_fatal(self, id, message, verbosity=UVM_NONE, filename='', line=0, context_name='', report_enabled_checked=False):
    self.uvm_report(UVM_FATAL, id, message, verbosity, filename, line, context_name, report_enabled_checked)


@contract('UVMReportObject.uvm_process_report_message')
def uvm_process_report_message(self, report_message):
    report_message.set_report_object(self)
    self.m_rh.process_report_message(report_message)


@contract('UVMReportObject.get_report_verbosity_level')
def get_report_verbosity_level(self, severity=UVM_INFO, id=''):
    return self.m_rh.get_verbosity_level(severity, id)


@contract('UVMReportObject.get_report_max_verbosity_level')
def get_report_max_verbosity_level(self):
    return self.m_rh.m_max_verbosity_level


@contract('UVMReportObject.set_report_verbosity_level')
def set_report_verbosity_level(self, verbosity_level):
    self.m_rh.set_verbosity_level(verbosity_level)


@contract('UVMReportObject.set_report_id_verbosity')
def set_report_id_verbosity(self, id, verbosity):
    self.m_rh.set_id_verbosity(id, verbosity)


@contract('UVMReportObject.set_report_severity_id_verbosity')
def set_report_severity_id_verbosity(self, severity, id, verbosity):
    self.m_rh.set_severity_id_verbosity(severity, id, verbosity)


@contract('UVMReportObject.get_report_action')
def get_report_action(self, severity, id):
    return self.m_rh.get_action(severity, id)


@contract('UVMReportObject.set_report_severity_action')
def set_report_severity_action(self, severity, action):
    self.m_rh.set_severity_action(severity, action)


@contract('UVMReportObject.set_report_id_action')
def set_report_id_action(self, id, action):
    self.m_rh.set_id_action(id, action)


@contract('UVMReportObject.set_report_severity_id_action')
def set_report_severity_id_action(self, severity, id, action):
    self.m_rh.set_severity_id_action(severity, id, action)


@contract('UVMReportObject.get_report_file_handle')
def get_report_file_handle(self, severity, id):
    return self.m_rh.get_file_handle(severity, id)


@contract('UVMReportObject.set_report_default_file')
def set_report_default_file(self, file):
    self.m_rh.set_default_file(file)


@contract('UVMReportObject.set_report_id_file')
def set_report_id_file(self, id, file):
    self.m_rh.set_id_file(id, file)


@contract('UVMReportObject.set_report_severity_file')
def set_report_severity_file(self, severity, file):
    self.m_rh.set_severity_file(severity, file)


@contract('UVMReportObject.set_report_severity_id_file')
def set_report_severity_id_file(self, severity, id, file):
    self.m_rh.set_severity_id_file(severity, id, file)


@contract('UVMReportObject.set_report_severity_override')
def set_report_severity_override(self, cur_severity, new_severity):
    self.m_rh.set_severity_override(cur_severity, new_severity)


@contract('UVMReportObject.set_report_severity_id_override')
def set_report_severity_id_override(self, cur_severity, id, new_severity):
    self.m_rh.set_severity_id_override(cur_severity, id, new_severity)


@contract('UVMReportObject.set_report_handler')
def set_report_handler(self, handler):
    self.m_rh = handler


@contract('UVMReportObject.get_report_handler')
def get_report_handler(self):
    return self.m_rh


@contract('UVMReportObject.reset_report_handler')
def reset_report_handler(self):
    self.m_rh.initialize()


@contract('uvm.macros.uvm_message_defines:_reporter_enabled', ret='bool')
def _reporter_enabled(f_locals, verbosity, severity, ID):
    parent_self = f_locals.get('self')
    if hasattr(parent_self, 'uvm_report_enabled'):
        return parent_self.uvm_report_enabled(verbosity, severity, ID)
    return uvm_report_enabled(verbosity, severity, ID)


@contract('uvm.macros.uvm_message_defines:uvm_info', report_calls=1)
def uvm_info(ID, MSG, VERBOSITY):
    f_locals = inspect.currentframe().f_back.f_locals
    if _reporter_enabled(f_locals, VERBOSITY, UVM_INFO, ID):
        caller = getframeinfo(stack()[1][0])
        fname = caller.filename
        lineno = caller.lineno
        if 'self' in f_locals:
            parent_self = f_locals['self']
            if hasattr(parent_self, 'uvm_report_info'):
                parent_self.uvm_report_info(ID, MSG, VERBOSITY, fname, lineno, '', 1)
            else:
                uvm_report_info(ID, MSG, VERBOSITY, fname, lineno, '', 1)
        else:
            uvm_report_info(ID, MSG, VERBOSITY, fname, lineno, '', 1)


@contract('uvm.macros.uvm_message_defines:uvm_warning', report_calls=1)
def uvm_warning(ID, MSG):
    f_locals = inspect.currentframe().f_back.f_locals
    if _reporter_enabled(f_locals, UVM_NONE, UVM_WARNING, ID):
        caller = getframeinfo(stack()[1][0])
        fname = caller.filename
        lineno = caller.lineno
        if 'self' in f_locals:
            parent_self = f_locals['self']
            if hasattr(parent_self, 'uvm_report_warning'):
                parent_self.uvm_report_warning(ID, MSG, UVM_NONE, fname, lineno, '', 1)
            else:
                uvm_report_warning(ID, MSG, UVM_NONE, fname, lineno, '', 1)
        else:
            uvm_report_warning(ID, MSG, UVM_NONE, fname, lineno, '', 1)


@contract('uvm.macros.uvm_message_defines:uvm_error', report_calls=1)
def uvm_error(ID, MSG):
    f_locals = inspect.currentframe().f_back.f_locals
    if _reporter_enabled(f_locals, UVM_NONE, UVM_ERROR, ID):
        caller = getframeinfo(stack()[1][0])
        fname = caller.filename
        lineno = caller.lineno
        if 'self' in f_locals:
            parent_self = f_locals['self']
            if hasattr(parent_self, 'uvm_report_error'):
                parent_self.uvm_report_error(ID, MSG, UVM_NONE, fname, lineno, '', 1)
            else:
                uvm_report_error(ID, MSG, UVM_NONE, fname, lineno, '', 1)
        else:
            uvm_report_error(ID, MSG, UVM_NONE, fname, lineno, '', 1)


@contract('uvm.macros.uvm_message_defines:uvm_fatal', report_calls=1)
def uvm_fatal(ID, MSG):
    f_locals = inspect.currentframe().f_back.f_locals
    if _reporter_enabled(f_locals, UVM_NONE, UVM_FATAL, ID):
        caller = getframeinfo(stack()[1][0])
        fname = caller.filename
        lineno = caller.lineno
        if 'self' in f_locals:
            parent_self = f_locals['self']
            if hasattr(parent_self, 'uvm_report_fatal'):
                parent_self.uvm_report_fatal(ID, MSG, UVM_NONE, fname, lineno, '', 1)
            else:
                uvm_report_fatal(ID, MSG, UVM_NONE, fname, lineno, '', True)
        else:
            uvm_report_fatal(ID, MSG, UVM_NONE, fname, lineno, '', True)


@contract('uvm.macros.uvm_message_defines:uvm_info_context', report_calls=1)
def uvm_info_context(ID, MSG, VERBOSITY, RO):
    if RO.uvm_report_enabled(VERBOSITY, UVM_INFO, ID):
        caller = getframeinfo(stack()[1][0])
        fname = caller.filename
        lineno = caller.lineno
        RO.uvm_report_info(ID, MSG, VERBOSITY, fname, lineno, '', 1)


@contract('uvm.macros.uvm_message_defines:uvm_error_context', report_calls=1)
def uvm_error_context(ID, MSG, RO):
    if RO.uvm_report_enabled(UVM_NONE, UVM_ERROR, ID):
        caller = getframeinfo(stack()[1][0])
        fname = caller.filename
        lineno = caller.lineno
        RO.uvm_report_error(ID, MSG, UVM_NONE, fname, lineno, '', 1)


@contract('uvm.base.uvm_globals:uvm_get_report_object')
def uvm_get_report_object():
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    top = cs.get_root()
    return top


@contract('uvm.base.uvm_globals:uvm_report_enabled', ret='bool')
def uvm_report_enabled(verbosity, severity=UVM_INFO, id=''):
    cs = get_cs()
    top = cs.get_root()
    return top.uvm_report_enabled(verbosity, severity, id)


@contract('uvm.base.uvm_globals:uvm_report_info', report_calls=1)
def uvm_report_info(id, message, verbosity=UVM_MEDIUM, filename='', line=0, context_name='', report_enabled_checked=False):
    if uvm_report_enabled(verbosity, UVM_INFO, id):
        cs = get_cs()
        top = cs.get_root()
        if filename == '':
            caller = getframeinfo(stack()[1][0])
            filename = caller.filename
        if line == 0:
            caller = getframeinfo(stack()[1][0])
            line = caller.lineno
        top.uvm_report_info(id, message, verbosity, filename, line, context_name, report_enabled_checked)


@contract('uvm.base.uvm_globals:uvm_report_warning', report_calls=1)
def uvm_report_warning(id, message, verbosity=UVM_LOW, filename='', line=0, context_name='', report_enabled_checked=False):
    if uvm_report_enabled(verbosity, UVM_WARNING, id):
        cs = get_cs()
        top = cs.get_root()
        if filename == '':
            caller = getframeinfo(stack()[1][0])
            filename = caller.filename
        if line == 0:
            caller = getframeinfo(stack()[1][0])
            line = caller.lineno
        top.uvm_report_warning(id, message, verbosity, filename, line, context_name, report_enabled_checked)


@contract('uvm.base.uvm_globals:uvm_report_error', report_calls=1)
def uvm_report_error(id, message, verbosity=UVM_LOW, filename='', line=0, context_name='', report_enabled_checked=False):
    if uvm_report_enabled(verbosity, UVM_ERROR, id):
        cs = get_cs()
        top = cs.get_root()
        if filename == '':
            caller = getframeinfo(stack()[1][0])
            filename = caller.filename
        if line == 0:
            caller = getframeinfo(stack()[1][0])
            line = caller.lineno
        top.uvm_report_error(id, message, verbosity, filename, line, context_name, report_enabled_checked)


@contract('uvm.base.uvm_globals:uvm_report_fatal', report_calls=1)
def uvm_report_fatal(id, message, verbosity=UVM_NONE, filename='', line=0, context_name='', report_enabled_checked=False):
    if uvm_report_enabled(verbosity, UVM_FATAL, id):
        cs = get_cs()
        top = cs.get_root()
        if filename == '':
            caller = getframeinfo(stack()[1][0])
            filename = caller.filename
        if line == 0:
            caller = getframeinfo(stack()[1][0])
            line = caller.lineno
        top.uvm_report_fatal(id, message, verbosity, filename, line, context_name, report_enabled_checked)


@contract('uvm.base.uvm_globals:uvm_process_report_message')
def uvm_process_report_message(report_message):
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    top = cs.get_root()
    top.uvm_process_report_message(report_message)


@contract('uvm.base.uvm_globals:uvm_string_to_severity')
def uvm_string_to_severity(sev_str, sev):
    if sev_str == 'UVM_INFO':
        return UVM_INFO
    if sev_str == 'UVM_WARNING':
        return UVM_WARNING
    if sev_str == 'UVM_ERROR':
        return UVM_ERROR
    if sev_str == 'UVM_FATAL':
        return UVM_FATAL
    return -1


@contract('uvm.base.uvm_globals:uvm_string_to_action')
def uvm_string_to_action(action_str, action):
    actions = action_str.split('|')
    action = 0
    for i in range(len(actions)):
        if actions[i] == 'UVM_NO_ACTION':
            action |= UVM_NO_ACTION
        if actions[i] == 'UVM_DISPLAY':
            action |= UVM_DISPLAY
        if actions[i] == 'UVM_LOG':
            action |= UVM_LOG
        if actions[i] == 'UVM_COUNT':
            action |= UVM_COUNT
        if actions[i] == 'UVM_EXIT':
            action |= UVM_EXIT
        if actions[i] == 'UVM_CALL_HOOK':
            action |= UVM_CALL_HOOK
        if actions[i] == 'UVM_STOP':
            action |= UVM_STOP
        if actions[i] == 'UVM_RM_RECORD':
            action |= UVM_RM_RECORD
    return action


@contract('UVMComponent.set_report_id_verbosity_hier')
def set_report_id_verbosity_hier(self, id, verbosity):
    self.set_report_id_verbosity(id, verbosity)
    for c in self.m_children:
        self.m_children[c].set_report_id_verbosity_hier(id, verbosity)


@contract('UVMComponent.set_report_severity_id_verbosity_hier')
def set_report_severity_id_verbosity_hier(self, severity, id, verbosity):
    self.set_report_severity_id_verbosity(severity, id, verbosity)
    for c in self.m_children:
        self.m_children[c].set_report_severity_id_verbosity_hier(severity, id, verbosity)


@contract('UVMComponent.set_report_severity_action_hier')
def set_report_severity_action_hier(self, severity, action):
    self.set_report_severity_action(severity, action)
    for c in self.m_children:
        self.m_children[c].set_report_severity_action_hier(severity, action)


@contract('UVMComponent.set_report_id_action_hier')
def set_report_id_action_hier(self, id, action):
    self.set_report_id_action(id, action)
    for c in self.m_children:
        self.m_children[c].set_report_id_action_hier(id, action)


@contract('UVMComponent.set_report_severity_id_action_hier')
def set_report_severity_id_action_hier(self, severity, id, action):
    self.set_report_severity_id_action(severity, id, action)
    for c in self.m_children:
        self.m_children[c].set_report_severity_id_action_hier(severity, id, action)


@contract('UVMComponent.set_report_default_file_hier')
def set_report_default_file_hier(self, file):
    self.set_report_default_file(file)
    for c in self.m_children:
        self.m_children[c].set_report_default_file_hier(file)


@contract('UVMComponent.set_report_severity_file_hier')
def set_report_severity_file_hier(self, severity, file):
    self.set_report_severity_file(severity, file)
    for c in self.m_children:
        self.m_children[c].set_report_severity_file_hier(severity, file)


@contract('UVMComponent.set_report_id_file_hier')
def set_report_id_file_hier(self, id, file):
    self.set_report_id_file(id, file)
    for c in self.m_children:
        self.m_children[c].set_report_id_file_hier(id, file)


@contract('UVMComponent.set_report_severity_id_file_hier')
def set_report_severity_id_file_hier(self, severity, id, file):
    self.set_report_severity_id_file(severity, id, file)
    for c in self.m_children:
        self.m_children[c].set_report_severity_id_file_hier(severity, id, file)


@contract('UVMComponent.set_report_verbosity_level_hier')
def set_report_verbosity_level_hier(self, verbosity):
    self.set_report_verbosity_level(verbosity)
    for c in self.m_children:
        self.m_children[c].set_report_verbosity_level_hier(verbosity)

