
@contract('UVMReportServer.__init__')
def __init__(self, name='base'):
    UVMObject.__init__(self, name)
    self.m_quit_count = 0
    self.m_max_quit_count = 0
    self.max_quit_overridable = True
    self.m_severity_count = UVMPool()
    self.m_id_count = UVMPool()
    self.enable_report_id_count_summary = True
    self.record_all_messages = False
    self.show_verbosity = False
    self.show_terminator = False
    self.m_message_db = UVMTextTrDatabase()
    self.m_streams = {}
    self.reset_quit_count()
    self.reset_severity_counts()
    self.set_max_quit_count(0)
    self.print_on_closed_file = True
    self.logger = print


@contract('UVMReportServer.set_server')
def set_server(cls, server):
    cs = get_cs()
    cs.set_report_server(server)


@contract('UVMReportServer.get_server')
def get_server(cls):
    cs = get_cs()
    return cs.get_report_server()


@contract('UVMReportServer.get_max_quit_count')
def get_max_quit_count(self):
    return self.m_max_quit_count


@contract('UVMReportServer.set_max_quit_count')
def set_max_quit_count(self, count, overridable=True):
    if self.max_quit_overridable is False:
        return
    self.max_quit_overridable = overridable
    if count < 0:
        self.m_max_quit_count = 0
    else:
        self.m_max_quit_count = count


@contract('UVMReportServer.get_quit_count')
def get_quit_count(self):
    return self.m_quit_count


@contract('UVMReportServer.set_quit_count')
def set_quit_count(self, quit_count):
    if quit_count < 0:
        self.m_quit_count = 0
    else:
        self.m_quit_count = quit_count


@contract('UVMReportServer.incr_quit_count')
def incr_quit_count(self):
    self.m_quit_count += 1


@contract('UVMReportServer.reset_quit_count')
def reset_quit_count(self):
    self.m_quit_count = 0


@contract('UVMReportServer.is_quit_count_reached', ret='bool')
def is_quit_count_reached(self):
    return self.m_quit_count >= self.m_max_quit_count


@contract('UVMReportServer.get_severity_count')
def get_severity_count(self, severity):
    if self.m_severity_count.exists(severity):
        return self.m_severity_count.get(severity)
    return 0


@contract('UVMReportServer.set_severity_count')
def set_severity_count(self, severity, count):
    val = count
    if count < 0:
        val = 0
    self.m_severity_count.add(severity, val)


@contract('UVMReportServer.incr_severity_count')
def incr_severity_count(self, severity):
    if self.m_severity_count.exists(severity):
        new_count = self.m_severity_count.get(severity) + 1
        self.m_severity_count.add(severity, new_count)
    else:
        self.m_severity_count.add(severity, 1)


@contract('UVMReportServer.reset_severity_counts')
def reset_severity_counts(self):
    for s in UVM_SEVERITY_LEVELS:
        self.m_severity_count.add(s, 0)


@contract('UVMReportServer.get_id_count')
def get_id_count(self, id):
    if self.m_id_count.exists(id):
        return self.m_id_count.get(id)
    return 0


@contract('UVMReportServer.set_id_count')
def set_id_count(self, id, count):
    val = count
    if count < 0:
        val = 0
    self.m_id_count.add(id, val)


@contract('UVMReportServer.incr_id_count')
def incr_id_count(self, id):
    if self.m_id_count.exists(id):
        val = self.m_id_count.get(id)
        self.m_id_count.add(id, val + 1)
    else:
        self.m_id_count.add(id, 1)


@contract('UVMReportServer.set_message_database')
def set_message_database(self, database):
    self.m_message_db = database


@contract('UVMReportServer.get_message_database')
def get_message_database(self):
    return self.m_message_db


@contract('UVMReportServer.get_severity_set')
def get_severity_set(self, q):
    q.extend(self.m_severity_count.key_list())


@contract('UVMReportServer.get_id_set')
def get_id_set(self, q):
    q.extend(self.m_id_count.key_list())


@contract('UVMReportServer.f_display', report_calls=1)
def f_display(self, file, _str):
    if file == 0:
        self.logger(_str)
    elif not file.closed:
        file.write(_str + '\n')
    elif self.print_on_closed_file:
        self.logger('UVM_WARNING. File already closed for msg ' + _str)


@contract('UVMReportServer.process_report_message')
def process_report_message(self, report_message):
    l_report_handler = report_message.get_report_handler()
    report_ok = True
    report_message.set_report_server(self)
    if report_ok is True:
        from .uvm_report_catcher import UVMReportCatcher
        report_ok = UVMReportCatcher.process_all_report_catchers(report_message)
    if report_message.get_action() == UVM_NO_ACTION:
        report_ok = False
    if report_ok:
        m = ''
        cs = get_cs()
        svr = cs.get_report_server()
        if report_message.get_action() & (UVM_LOG | UVM_DISPLAY):
            m = svr.compose_report_message(report_message)
        svr.execute_report_message(report_message, m)


@contract('UVMReportServer.execute_report_message', report_calls=1)
def execute_report_message(self, report_message, composed_message):
    self.incr_severity_count(report_message.get_severity())
    self.incr_id_count(report_message.get_id())
    if self.record_all_messages is True:
        report_message.set_action(report_message.get_action() | UVM_RM_RECORD)
    if report_message.get_action() & UVM_RM_RECORD:
        ro = report_message.get_report_object()
        rh = report_message.get_report_handler()
        stream = self.m_streams.get(ro.get_name(), {}).get(rh.get_name())
        if stream is None:
            db = self.get_message_database()
            if db is None:
                cs = get_cs()
                db = cs.get_default_tr_database()
            if db is not None:
                stream = db.open_stream(ro.get_name(), rh.get_name(), 'MESSAGES')
                self.m_streams.setdefault(ro.get_name(), {})[rh.get_name()] = stream
        if stream is not None:
            recorder = stream.open_recorder(report_message.get_name(), None, report_message.get_type_name())
            if recorder is not None:
                report_message.record(recorder)
                recorder.free()
    if report_message.get_action() & UVM_DISPLAY:
        self.logger(composed_message)
    if report_message.get_action() & UVM_LOG:
        if report_message.get_file() == 0 or report_message.get_file() != 2147483649:
            tmp_file = report_message.get_file()
            self.f_display(tmp_file, composed_message)
    if report_message.get_action() & UVM_COUNT:
        if self.get_max_quit_count() != 0:
            self.incr_quit_count()
            if self.is_quit_count_reached():
                report_message.set_action(report_message.get_action() | UVM_EXIT)
    if report_message.get_action() & UVM_EXIT:
        cs = get_cs()
        l_root = cs.get_root()
        l_root.die()
    if report_message.get_action() & UVM_STOP:
        raise Exception('$stop from uvm_report_server, msg: ' + report_message.sprint())


@contract('UVMReportServer.compose_report_message', report_calls=1)
def compose_report_message(self, report_message, report_object_name=''):
    sev_string = ''
    l_severity = UVM_INFO
    l_verbosity = UVM_MEDIUM
    filename_line_string = ''
    time_str = ''
    line_str = ''
    context_str = ''
    verbosity_str = ''
    terminator_str = ''
    msg_body_str = ''
    el_container = None
    prefix = ''
    l_report_handler = None
    l_severity = report_message.get_severity()
    sev_string = ename(l_severity)
    if report_message.get_filename() != '':
        line_str = str(report_message.get_line())
        filename_line_string = report_message.get_filename() + '(' + line_str + ') '
    time_str = str(uvm_sim_time('NS')) + 'NS'
    if report_message.get_context() != '':
        context_str = '@@' + report_message.get_context()
    if self.show_verbosity is True:
        verb = report_message.get_verbosity()
        verbosity_str = '(' + str(verb) + ')'
    if self.show_terminator is True:
        terminator_str = ' -' + sev_string
    el_container = report_message.get_element_container()
    if el_container.size() == 0:
        msg_body_str = report_message.get_message()
    else:
        prefix = uvm_default_printer.knobs.prefix
        uvm_default_printer.knobs.prefix = ' +'
        msg_body_str = report_message.get_message() + '\n' + el_container.sprint()
        uvm_default_printer.knobs.prefix = prefix
    if report_object_name == '':
        l_report_handler = report_message.get_report_handler()
        if l_report_handler is not None:
            report_object_name = l_report_handler.get_full_name()
        else:
            report_object_name = 'NO_REPORT_OBJECT'
    result = sev_string + verbosity_str + ' ' + filename_line_string + '@ ' + time_str + ': ' + report_object_name + context_str + ' [' + report_message.get_id() + '] ' + msg_body_str + terminator_str
    return result


@contract('UVMReportServer.report_summarize', report_calls=1)
def report_summarize(self, file=0):
    rpt = self.get_summary_string()
    uvm_info('UVM/REPORT/SERVER', rpt, UVM_LOW)


@contract('UVMReportServer.get_summary_string')
def get_summary_string(self):
    id = ''
    q = []
    from .uvm_report_catcher import UVMReportCatcher
    UVMReportCatcher.summarize()
    q.append('\n--- UVM Report Summary ---\n\n')
    if self.m_max_quit_count != 0:
        if self.m_quit_count >= self.m_max_quit_count:
            q.append('Quit count reached!\n')
        q.append('Quit count : {} of {}\n'.format(self.m_quit_count, self.m_max_quit_count))
    q.append('** Report counts by severity\n')
    for s in self.m_severity_count.keys():
        q.append('{} : {}\n'.format(ename(s), self.m_severity_count.get(s)))
    if self.enable_report_id_count_summary is True:
        q.append('** Report counts by id\n')
        for id in self.m_id_count.keys():
            q.append('[{}] {}\n'.format(id, self.m_id_count.get(id)))
    return ''.join(q)


@contract('UVMRoot.die')
def die(self):
    l_rs = get_report_server()
    self.m_do_pre_abort()
    l_rs.report_summarize()
    if UVMRoot.raise_exception_on_die:
        raise UVMFinishError('die(): $finish from UVMRoot')


@contract('UVMComponent.pre_abort')
def pre_abort(self):
    pass


@contract('UVMComponent.m_do_pre_abort')
def m_do_pre_abort(self):
    for child in self.m_children:
        self.m_children[child].m_do_pre_abort()
    self.pre_abort()

