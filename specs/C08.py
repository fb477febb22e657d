
@contract('UVMReportCb.__init__')
def __init__(self, name='uvm_report_cb'):
    super().__init__(name, T=None, CB=UVMReportCatcher)


@contract('UVMReportCb.get_first')
def get_first(cls, itr, obj):
    return super().get_first(itr, obj, UVMReportCatcher)


@contract('UVMReportCatcher.__init__')
def __init__(self, name='uvm_report_catcher'):
    super().__init__(name)
    UVMReportCatcher.do_report = True


@contract('UVMReportCatcher.get_client')
def get_client(self):
    return UVMReportCatcher.m_modified_report_message.get_report_object()


@contract('UVMReportCatcher.get_severity')
def get_severity(self):
    return UVMReportCatcher.m_modified_report_message.get_severity()


@contract('UVMReportCatcher.get_context')
def get_context(self):
    context_str = self.m_modified_report_message.get_context()
    if context_str == '':
        rh = self.m_modified_report_message.get_report_handler()
        context_str = rh.get_full_name()
    return context_str


@contract('UVMReportCatcher.get_verbosity')
def get_verbosity(self):
    return self.m_modified_report_message.get_verbosity()


@contract('UVMReportCatcher.get_id')
def get_id(self):
    return self.m_modified_report_message.get_id()


@contract('UVMReportCatcher.get_message')
def get_message(self):
    return self.m_modified_report_message.get_message()


@contract('UVMReportCatcher.get_action')
def get_action(self):
    return self.m_modified_report_message.get_action()


@contract('UVMReportCatcher.get_fname')
def get_fname(self):
    return self.m_modified_report_message.get_filename()


@contract('UVMReportCatcher.get_line')
def get_line(self):
    return self.m_modified_report_message.get_line()


@contract('UVMReportCatcher.get_element_container')
def get_element_container(self):
    return self.m_modified_report_message.get_element_container()


@contract('UVMReportCatcher.set_severity')
def set_severity(self, severity):
    self.m_modified_report_message.set_severity(severity)


@contract('UVMReportCatcher.set_verbosity')
def set_verbosity(self, verbosity):
    self.m_modified_report_message.set_verbosity(verbosity)


@contract('UVMReportCatcher.set_id')
def set_id(self, id):
    self.m_modified_report_message.set_id(id)


@contract('UVMReportCatcher.set_message')
def set_message(self, message):
    self.m_modified_report_message.set_message(message)


@contract('UVMReportCatcher.set_action')
def set_action(self, action):
    self.m_modified_report_message.set_action(action)
    UVMReportCatcher.m_set_action_called = True


@contract('UVMReportCatcher.set_context')
def set_context(self, context_str):
    self.m_modified_report_message.set_context(context_str)


@contract('UVMReportCatcher.add_int')
def add_int(self, name, value, size, radix, action=UVM_LOG | UVM_RM_RECORD):
    self.m_modified_report_message.add_int(name, value, size, radix, action)


@contract('UVMReportCatcher.add_string')
def add_string(self, name, value, action=UVM_LOG | UVM_RM_RECORD):
    self.m_modified_report_message.add_string(name, value, action)


@contract('UVMReportCatcher.add_object')
def add_object(self, name, obj, action=UVM_LOG | UVM_RM_RECORD):
    self.m_modified_report_message.add_object(name, obj, action)


@contract('UVMReportCatcher.get_report_catcher')
def get_report_catcher(cls, name):
    cls.cb_iter = UVMReportCbIter(None)
    get_report_catcher = cls.cb_iter.first()
    while get_report_catcher is not None:
        if get_report_catcher.get_name() == name:
            return get_report_catcher
        get_report_catcher = cls.cb_iter.next()
    return None


@contract('UVMReportCatcher.print_catcher', report_calls=1)
def print_catcher(cls, file=0):
    enabled = ''
    catcher = None
    cls.cb_iter = UVMReportCbIter(None)
    q = []
    q.append('-------------UVM REPORT CATCHERS----------------------------\n')
    catcher = cls.cb_iter.first()
    while catcher is not None:
        if catcher.callback_mode():
            enabled = 'ON'
        else:
            enabled = 'OFF'
        q.append(sv.sformatf('%20s : %s\n', catcher.get_name(), enabled))
        catcher = cls.cb_iter.next()
    q.append('--------------------------------------------------------------\n')
    from .uvm_root import uvm_top
    uvm_info_context('UVM/REPORT/CATCHER', UVM_STRING_QUEUE_STREAMING_PACK(q), UVM_LOW, uvm_top)


@contract('UVMReportCatcher.debug_report_catcher')
def debug_report_catcher(cls, what=0):
    cls.m_debug_flags = what


@contract('UVMReportCatcher.catch')
def catch(self):
    raise NotImplementedError('catch() must be implemented in user-class')


@contract('UVMReportCatcher.uvm_report_fatal', report_calls=1)
def uvm_report_fatal(self, id, message, verbosity, fname='', line=0, context_name='', report_enabled_checked=0):
    self.uvm_report(UVM_FATAL, id, message, UVM_NONE, fname, line, context_name, report_enabled_checked)


@contract('UVMReportCatcher.uvm_report_error', report_calls=1)
def uvm_report_error(self, id, message, verbosity, fname='', line=0, context_name='', report_enabled_checked=0):
    self.uvm_report(UVM_ERROR, id, message, UVM_NONE, fname, line, context_name, report_enabled_checked)


@contract('UVMReportCatcher.uvm_report_warning', report_calls=1)
def uvm_report_warning(self, id, message, verbosity, fname='', line=0, context_name='', report_enabled_checked=0):
    self.uvm_report(UVM_WARNING, id, message, UVM_NONE, fname, line, context_name, report_enabled_checked)


@contract('UVMReportCatcher.uvm_report_info', report_calls=1)
def uvm_report_info(self, id, message, verbosity, fname='', line=0, context_name='', report_enabled_checked=0):
    self.uvm_report(UVM_INFO, id, message, verbosity, fname, line, context_name, report_enabled_checked)


@contract('UVMReportCatcher.uvm_report')
def uvm_report(self, severity, id, message, verbosity, fname='', line=0, context_name='', report_enabled_checked=0):
    l_report_message = None
    if report_enabled_checked == 0:
        if not uvm_report_enabled(verbosity, severity, id):
            return
    l_report_message = UVMReportMessage.new_report_message()
    l_report_message.set_report_message(severity, id, message, verbosity, fname, line, context_name)
    self.uvm_process_report_message(l_report_message)


@contract('UVMReportCatcher.uvm_process_report_message')
def uvm_process_report_message(self, msg):
    ro = UVMReportCatcher.m_modified_report_message.get_report_object()
    a = ro.get_report_action(msg.get_severity(), msg.get_id())
    if a:
        composed_message = ''
        rs = UVMReportCatcher.m_modified_report_message.get_report_server()
        msg.set_report_object(ro)
        msg.set_report_handler(UVMReportCatcher.m_modified_report_message.get_report_handler())
        msg.set_report_server(rs)
        msg.set_file(ro.get_report_file_handle(msg.get_severity(), msg.get_id()))
        msg.set_action(a)
        if a & (UVM_LOG | UVM_DISPLAY):
            composed_message = rs.compose_report_message(msg)
        rs.execute_report_message(msg, composed_message)


@contract('UVMReportCatcher.issue')
def issue(self):
    composed_message = ''
    modded_msg = UVMReportCatcher.m_modified_report_message
    rs = modded_msg.get_report_server()
    if modded_msg.get_action() != UVM_NO_ACTION:
        if modded_msg.get_action() & (UVM_LOG | UVM_DISPLAY):
            composed_message = rs.compose_report_message(modded_msg)
        rs.execute_report_message(modded_msg, composed_message)


@contract('UVMReportCatcher.process_all_report_catchers', yields=['process_report_catcher'], ignore=['UVMCallback'])
def process_all_report_catchers(cls, rm):
    _iter = UVMCallback('_iter')
    catcher = None
    thrown = 1
    orig_severity = 0
    l_report_object = rm.get_report_object()
    if cls.in_catcher == 1:
        return 1
    cls.in_catcher = 1
    UVMCallbacksBase.m_tracing = 0
    orig_severity = rm.get_severity()
    cls.m_modified_report_message = rm
    catcher = UVMReportCb.get_first(_iter, l_report_object)
    if catcher is not None:
        if cls.m_debug_flags & cls.DO_NOT_MODIFY:
            cls.m_orig_report_message = rm.clone()
    while catcher is not None:
        prev_sev = 0
        if catcher.callback_mode() is False:
            catcher = UVMReportCb.get_next(_iter, l_report_object)
            continue
        prev_sev = cls.m_modified_report_message.get_severity()
        cls.m_set_action_called = False
        thrown = catcher.process_report_catcher()
        if not cls.m_set_action_called and cls.m_modified_report_message.get_severity() != prev_sev and (cls.m_modified_report_message.get_action() == l_report_object.get_report_action(prev_sev, '*@&*^*^*#')):
            cls.m_modified_report_message.set_action(l_report_object.get_report_action(cls.m_modified_report_message.get_severity(), '*@&*^*^*#'))
        if thrown == 0:
            if orig_severity == UVM_FATAL:
                cls.m_caught_fatal += 1
            elif orig_severity == UVM_ERROR:
                cls.m_caught_error += 1
            elif orig_severity == UVM_WARNING:
                cls.m_caught_warning += 1
            break
        catcher = UVMReportCb.get_next(_iter, l_report_object)
    if orig_severity == UVM_FATAL:
        if cls.m_modified_report_message.get_severity() < orig_severity:
            cls.m_demoted_fatal += 1
    elif orig_severity == UVM_ERROR:
        if cls.m_modified_report_message.get_severity() < orig_severity:
            cls.m_demoted_error += 1
    elif orig_severity == UVM_WARNING:
        if cls.m_modified_report_message.get_severity() < orig_severity:
            cls.m_demoted_warning += 1
    cls.in_catcher = 0
    UVMCallbacksBase.m_tracing = 1
    return thrown


@contract('UVMReportCatcher.process_report_catcher')
def process_report_catcher(self):
    act = self.catch()
    if act == UNKNOWN_ACTION:
        self.uvm_report_error('RPTCTHR', '', UVM_NONE)
    cls = UVMReportCatcher
    if cls.m_debug_flags & cls.DO_NOT_MODIFY:
        cls.m_modified_report_message.copy(cls.m_orig_report_message)
    if act == CAUGHT and (not cls.m_debug_flags & cls.DO_NOT_CATCH):
        return 0
    return 1


@contract('UVMReportCatcher.summarize', report_calls=1)
def summarize(cls):
    q = []
    if UVMReportCatcher.do_report:
        q.append('\n--- UVM Report catcher Summary ---\n\n\n')
        q.append('Number of demoted UVM_FATAL reports  :{}\n'.format(cls.m_demoted_fatal))
        q.append('Number of demoted UVM_ERROR reports  :{}\n'.format(cls.m_demoted_error))
        q.append('Number of demoted UVM_WARNING reports:{}\n'.format(cls.m_demoted_warning))
        q.append('Number of caught UVM_FATAL reports   :{}\n'.format(cls.m_caught_fatal))
        q.append('Number of caught UVM_ERROR reports   :{}\n'.format(cls.m_caught_error))
        q.append('Number of caught UVM_WARNING reports :{}\n'.format(cls.m_caught_warning))
        from .uvm_root import uvm_top
        uvm_info_context('UVM/REPORT/CATCHER', UVM_STRING_QUEUE_STREAMING_PACK(q), UVM_LOW, uvm_top)


@contract('UVMReportMessageElementBase.__init__')
def __init__(self, name=''):
    UVMObject.__init__(self, name)
    self._action = UVM_DISPLAY
    self._name = ''
    self._val = None


@contract('UVMReportMessageElementBase.set_name')
def set_name(self, name):
    self._name = name


@contract('UVMReportMessageElementBase.get_name')
def get_name(self):
    return self._name


@contract('UVMReportMessageElementBase.set_action')
def set_action(self, action):
    self._action = action


@contract('UVMReportMessageElementBase.get_action')
def get_action(self):
    return self._action


@contract('UVMReportMessageElementBase.set_val')
def set_val(self, val):
    self._val = val


@contract('UVMReportMessageElementBase.get_val')
def get_val(self):
    return self._val


@contract('UVMReportMessageElementBase.pprint')
def pprint(self, printer):
    if self._action & (UVM_LOG | UVM_DISPLAY):
        self.do_print(printer)


@contract('UVMReportMessageElementBase.record')
def record(self, recorder):
    if self._action & UVM_RM_RECORD:
        self.do_record(recorder)


@contract('UVMReportMessageElementBase.copy')
def copy(self, rhs):
    self.do_copy(rhs)


@contract('UVMReportMessageElementBase.clone')
def clone(self):
    return self.do_clone()


@contract('UVMReportMessageElementBase.do_record')
def do_record(self, recorder):
    pass


@contract('UVMReportMessageElementBase.do_copy')
def do_copy(self, rhs):
    pass


@contract('UVMReportMessageElementBase.do_clone')
def do_clone(self):
    pass


@contract('UVMReportMessageElementContainer.__init__')
def __init__(self, name='element_container'):
    UVMObject.__init__(self, name)
    self.elements = []


@contract('UVMReportMessageElementContainer.size')
def size(self):
    return len(self.elements)


@contract('UVMReportMessageElementContainer.delete')
def delete(self, index):
    elements = []
    for i in range(0, self.size()):
        if i != index:
            elements.append(self.elements[i])
    self.elements = elements


@contract('UVMReportMessageElementContainer.delete_elements')
def delete_elements(self):
    self.elements = []


@contract('UVMReportMessageElementContainer.get_elements')
def get_elements(self):
    return self.elements


@contract('UVMReportMessageElementContainer.add')
def add(self, name, val, action=UVM_LOG | UVM_RM_RECORD):
    elem = UVMReportMessageElementBase()
    elem.set_name(name)
    elem.set_val(val)
    elem.set_action(action)
    self.elements.append(elem)


@contract('UVMReportMessageElementContainer.do_record')
def do_record(self, recorder):
    UVMObject.do_record(self, recorder)
    for i in range(0, self.size()):
        self.elements[i].record(recorder)


@contract('UVMReportMessageElementContainer.do_copy')
def do_copy(self, rhs):
    super().do_copy(rhs)
    urme_container = rhs
    if rhs is None:
        return
    self.delete_elements()
    for i in range(len(urme_container.elements)):
        self.elements.append(urme_container.elements[i].clone())


@contract('UVMReportMessage.__init__')
def __init__(self, name=''):
    UVMObject.__init__(self, name)
    self._report_object = None
    self._report_handler = None
    self._report_server = None
    self._severity = UVM_INFO
    self._id = ''
    self._message = ''
    self._verbosity = 0
    self._filename = ''
    self._line = ''
    self._context_name = ''
    self._action = UVM_LOG | UVM_DISPLAY
    self._file = 0
    self._report_message_element_container = UVMReportMessageElementContainer()


@contract('UVMReportMessage.new_report_message')
def new_report_message(cls, name='uvm_report_message'):
    p = None
    if p is not None:
        pass
    new_report_message = UVMReportMessage(name)
    return new_report_message


@contract('UVMReportMessage.do_copy')
def do_copy(self, rhs):
    report_message = rhs
    UVMObject.do_copy(self, rhs)
    if rhs is None:
        return
    self._report_object = report_message.get_report_object()
    self._report_handler = report_message.get_report_handler()
    self._report_server = report_message.get_report_server()
    self._context_name = report_message.get_context()
    self._file = report_message.get_file()
    self._filename = report_message.get_filename()
    self._line = report_message.get_line()
    self._action = report_message.get_action()
    self._severity = report_message.get_severity()
    self._id = report_message.get_id()
    self._message = report_message.get_message()
    self._verbosity = report_message.get_verbosity()
    self._report_message_element_container.copy(report_message._report_message_element_container)


@contract('UVMReportMessage.create')
def create(self, name=''):
    return UVMReportMessage(name)


@contract('UVMReportMessage.get_report_object')
def get_report_object(self):
    return self._report_object


@contract('UVMReportMessage.set_report_object')
def set_report_object(self, ro):
    self._report_object = ro


@contract('UVMReportMessage.get_report_handler')
def get_report_handler(self):
    return self._report_handler


@contract('UVMReportMessage.set_report_handler')
def set_report_handler(self, rh):
    self._report_handler = rh


@contract('UVMReportMessage.get_report_server')
def get_report_server(self):
    return self._report_server


@contract('UVMReportMessage.set_report_server')
def set_report_server(self, rs):
    self._report_server = rs


@contract('UVMReportMessage.get_severity')
def get_severity(self):
    return self._severity


@contract('UVMReportMessage.set_severity')
def set_severity(self, sev):
    self._severity = sev


@contract('UVMReportMessage.get_id')
def get_id(self):
    return self._id


@contract('UVMReportMessage.set_id')
def set_id(self, id):
    self._id = id


@contract('UVMReportMessage.get_message')
def get_message(self):
    return self._message


@contract('UVMReportMessage.set_message')
def set_message(self, msg):
    self._message = msg


@contract('UVMReportMessage.get_verbosity')
def get_verbosity(self):
    return self._verbosity


@contract('UVMReportMessage.set_verbosity')
def set_verbosity(self, ver):
    self._verbosity = ver


@contract('UVMReportMessage.get_filename')
def get_filename(self):
    return self._filename


@contract('UVMReportMessage.set_filename')
def set_filename(self, fname):
    self._filename = fname


@contract('UVMReportMessage.get_line')
def get_line(self):
    return self._line


@contract('UVMReportMessage.set_line')
def set_line(self, ln):
    self._line = ln


@contract('UVMReportMessage.get_context')
def get_context(self):
    return self._context_name


@contract('UVMReportMessage.set_context')
def set_context(self, cn):
    self._context_name = cn


@contract('UVMReportMessage.get_action')
def get_action(self):
    return self._action


@contract('UVMReportMessage.set_action')
def set_action(self, act):
    self._action = act


@contract('UVMReportMessage.get_file')
def get_file(self):
    return self._file


@contract('UVMReportMessage.set_file')
def set_file(self, fl):
    self._file = fl


@contract('UVMReportMessage.get_element_container')
def get_element_container(self):
    return self._report_message_element_container


@contract('UVMReportMessage.set_report_message')
def set_report_message(self, severity, id, message, verbosity, filename, line, context_name):
    self._context_name = context_name
    self._filename = filename
    self._line = line
    self._severity = severity
    self._id = id
    self._message = message
    self._verbosity = verbosity


@contract('UVMReportMessage.add')
def add(self, name, value, action=UVM_LOG | UVM_RM_RECORD):
    self._report_message_element_container.add(name, value, action)


@contract('UVMReportCb.get_next')
def get_next(cls, itr, obj):
    return super().get_next(itr, obj, UVMReportCatcher)

