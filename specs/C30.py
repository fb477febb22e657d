
@contract('UVMTransaction.__init__', ret=False)
def __init__(self, name='', initiator=None):
    UVMObject.__init__(self, name)
    self.initiator = initiator
    self.m_transaction_id = -1
    self.events = UVMEventPool()
    self.begin_event = self.events.get('begin')
    self.end_event = self.events.get('end')
    self.stream_handle = None
    self.tr_recorder = None
    self.begin_time = -1
    self.end_time = -1
    self.accept_time = -1


@contract('UVMTransaction.accept_tr')
def accept_tr(self, accept_time=0):
    e = None
    if accept_time != 0:
        self.accept_time = accept_time
    else:
        self.accept_time = sv.realtime()
    self.do_accept_tr()
    e = self.events.get('accept')
    if e is not None:
        e.trigger()


@contract('UVMTransaction.begin_tr')
def begin_tr(self, begin_time=0):
    return self.m_begin_tr(begin_time)


@contract('UVMTransaction.begin_child_tr')
def begin_child_tr(self, begin_time=0, parent_handle=0):
    return self.m_begin_tr(begin_time, parent_handle)


@contract('UVMTransaction.end_tr')
def end_tr(self, end_time=0, free_handle=1):
    self.end_time = end_time
    if end_time == 0:
        self.end_time = sv.realtime()
    self.do_end_tr()
    if self.is_recording_enabled() and self.tr_recorder is not None:
        self.record(self.tr_recorder)
        self.tr_recorder.close(self.end_time)
        if free_handle:
            self.tr_recorder.free()
    self.tr_recorder = None
    self.end_event.trigger()


@contract('UVMTransaction.get_tr_handle')
def get_tr_handle(self):
    if self.tr_recorder is not None:
        return self.tr_recorder.get_handle()
    else:
        return 0


@contract('UVMTransaction.disable_recording')
def disable_recording(self):
    self.stream_handle = None


@contract('UVMTransaction.enable_recording')
def enable_recording(self, stream):
    self.stream_handle = stream


@contract('UVMTransaction.is_recording_enabled')
def is_recording_enabled(self):
    return self.stream_handle is not None


@contract('UVMTransaction.is_active')
def is_active(self):
    return self.end_time == -1


@contract('UVMTransaction.get_accept_time')
def get_accept_time(self):
    return self.accept_time


@contract('UVMTransaction.get_begin_time')
def get_begin_time(self):
    return self.begin_time


@contract('UVMTransaction.get_end_time')
def get_end_time(self):
    return self.end_time


@contract('UVMTransaction.set_transaction_id')
def set_transaction_id(self, id):
    self.m_transaction_id = id


@contract('UVMTransaction.get_transaction_id')
def get_transaction_id(self):
    return self.m_transaction_id


@contract('UVMTransaction.set_initiator')
def set_initiator(self, initiator):
    self.initiator = initiator


@contract('UVMTransaction.m_begin_tr')
def m_begin_tr(self, begin_time=0, parent_handle=0):
    m_begin_tr = 0
    tmp_time = begin_time
    if begin_time == 0:
        tmp_time = sv.realtime()
    parent_recorder = None
    if parent_handle != 0:
        parent_recorder = UVMRecorder.get_recorder_from_handle(parent_handle)
    if self.tr_recorder is not None:
        self.end_tr(tmp_time)
    if self.is_recording_enabled():
        db = self.stream_handle.get_db()
        self.end_time = -1
        self.begin_time = tmp_time
        if parent_recorder is None:
            self.tr_recorder = self.stream_handle.open_recorder(self.get_type_name(), self.begin_time, 'Begin_No_Parent, Link')
        else:
            self.tr_recorder = self.stream_handle.open_recorder(self.get_type_name(), self.begin_time, 'Begin_End, Link')
            if self.tr_recorder is not None:
                link = UVMParentChildLink.get_link(parent_recorder, self.tr_recorder)
                db.establish_link(link)
        if self.tr_recorder is not None:
            m_begin_tr = self.tr_recorder.get_handle()
        else:
            m_begin_tr = 0
    else:
        self.tr_recorder = None
        self.end_time = -1
        self.begin_time = tmp_time
        m_begin_tr = 0
    self.do_begin_tr()
    self.begin_event.trigger()
    return m_begin_tr


@contract('UVMRecorder.__init__', ret=False)
def __init__(self, name='uvm_recorder'):
    UVMObject.__init__(self, name)
    self.m_stream_dap = uvm_set_before_get_dap('stream_dap')
    self.m_warn_null_stream = True
    self.m_is_opened = False
    self.m_is_closed = False
    self.m_open_time = 0
    self.m_close_time = 0
    self.recording_depth = 0
    self.default_radix = UVM_HEX
    self.physical = True
    self.abstract = True
    self.identifier = 1
    self.policy = UVM_DEFAULT_POLICY


@contract('UVMRecorder.get_stream')
def get_stream(self):
    astr = []
    if not self.m_stream_dap.try_get(astr):
        if self.m_warn_null_stream == 1:
            uvm_warning('UVM/REC/NO_CFG', '')
        self.m_warn_null_stream = 0
    if len(astr):
        return astr[0]


@contract('UVMRecorder.close')
def close(self, close_time=0):
    if close_time == 0:
        close_time = sv.realtime()
    if self.is_open() is False:
        return
    self.do_close(close_time)
    self.m_is_opened = False
    self.m_is_closed = True
    self.m_close_time = close_time


@contract('UVMRecorder.free')
def free(self, close_time=0):
    p = None
    s = ''
    stream = None
    if not self.is_open() and (not self.is_closed()):
        return
    if self.is_open():
        self.close(close_time)
    self.do_free()
    stream = self.get_stream()
    self.m_is_closed = False
    if p is not None:
        s = p.get_randstate()
    self.m_stream_dap = uvm_set_before_get_dap('stream_dap')
    if p is not None:
        p.set_randstate(s)
    self.m_warn_null_stream = 1
    if self in UVMRecorder.m_ids_by_recorder:
        UVMRecorder.m_free_id(UVMRecorder.m_ids_by_recorder[self])
    if stream is not None:
        stream.m_free_recorder(self)


@contract('UVMRecorder.is_open', ret='bool')
def is_open(self):
    return self.m_is_opened


@contract('UVMRecorder.is_closed', ret='bool')
def is_closed(self):
    return self.m_is_closed


@contract('UVMRecorder.get_open_time')
def get_open_time(self):
    return self.m_open_time


@contract('UVMRecorder.get_close_time')
def get_close_time(self):
    return self.m_close_time


@contract('UVMRecorder.m_do_open')
def m_do_open(self, stream, open_time, type_name):
    m_stream = []
    if stream is None:
        uvm_error('UVM/REC/NULL_STREAM', '')
        return
    if self.m_stream_dap.try_get(m_stream):
        uvm_error('UVM/REC/RE_INIT', '')
        return
    self.m_stream_dap.set(stream)
    self.m_open_time = open_time
    self.m_is_opened = True
    self.do_open(stream, open_time, type_name)


@contract('UVMRecorder.m_free_id')
def m_free_id(cls, id):
    recorder = None
    if not sv.isunknown(id) and id in cls.m_recorders_by_id:
        recorder = cls.m_recorders_by_id[id]
    if recorder is not None:
        del cls.m_recorders_by_id[id]
        del cls.m_ids_by_recorder[recorder]


@contract('UVMRecorder.get_handle')
def get_handle(self):
    if self.is_open() is False and self.is_closed() is False:
        return 0
    else:
        handle = self.get_inst_id()
        m_ids_by_rec = UVMRecorder.m_ids_by_recorder
        if self in m_ids_by_rec and m_ids_by_rec[self] != handle:
            this_id = UVMRecorder.m_ids_by_recorder[self]
            del UVMRecorder.m_recorders_by_id[this_id]
        UVMRecorder.m_recorders_by_id[handle] = self
        UVMRecorder.m_ids_by_recorder[self] = handle
        return handle


@contract('UVMRecorder.get_recorder_from_handle')
def get_recorder_from_handle(cls, id):
    if id == 0:
        return None
    if sv.isunknown(id) or id not in cls.m_recorders_by_id:
        return None
    return cls.m_recorders_by_id[id]


@contract('UVMRecorder.record_field')
def record_field(self, name, value, size, radix=UVM_NORADIX):
    if self.get_stream() is None:
        return
    self.do_record_field(name, value, size, radix)


@contract('UVMRecorder.record_field_int')
def record_field_int(self, name, value, size, radix=UVM_NORADIX):
    if self.get_stream() is None:
        return
    self.do_record_field_int(name, value, size, radix)


@contract('UVMRecorder.record_object')
def record_object(self, name, value):
    if self.get_stream() is None:
        return
    self.do_record_object(name, value)


@contract('UVMRecorder.record_string')
def record_string(self, name, value):
    if self.get_stream() is None:
        return
    self.do_record_string(name, value)


@contract('UVMTextRecorder.do_open')
def do_open(self, stream, open_time, type_name):
    self.m_text_db = stream.get_db()
    if self.m_text_db.open_db():
        sv.fdisplay(self.m_text_db.m_file, '    OPEN_RECORDER @%0t {{TXH:%0d STREAM:%0d NAME:%s TIME:%0t TYPE="%0s"}}', sv.realtime(), self.get_handle(), stream.get_handle(), self.get_name(), open_time, type_name)


@contract('UVMTextRecorder.do_close')
def do_close(self, close_time):
    if self.m_text_db.open_db():
        sv.fdisplay(self.m_text_db.m_file, '    CLOSE_RECORDER @%0t {{TXH:%0d TIME=%0t}}', sv.realtime(), self.get_handle(), close_time)


@contract('UVMTextRecorder.do_free')
def do_free(self):
    if self.m_text_db.open_db():
        sv.fdisplay(self.m_text_db.m_file, '    FREE_RECORDER @%0t {{TXH:%0d}}', sv.realtime(), self.get_handle())
    self.m_text_db = None


@contract('UVMTextRecorder.do_record_field')
def do_record_field(self, name, value, size, radix):
    self.scope.set_arg(name)
    if not radix:
        radix = self.default_radix
    self.write_attribute(self.scope.get(), value, radix, size)


@contract('UVMTextRecorder.do_record_field_int')
def do_record_field_int(self, name, value, size, radix):
    self.scope.set_arg(name)
    if not radix:
        radix = self.default_radix
    self.write_attribute_int(self.scope.get(), value, radix, size)


@contract('UVMTextRecorder.do_record_object')
def do_record_object(self, name, value):
    v = 0
    _str = ''
    if self.identifier:
        if value is not None:
            _str = str(value.get_inst_id())
            v = int(_str)
        self.scope.set_arg(name)
        self.write_attribute_int(self.scope.get(), v, UVM_DEC, 32)
    if self.policy != UVM_REFERENCE:
        if value is not None:
            if value in value._m_uvm_status_container.cycle_check:
                return
            value._m_uvm_status_container.cycle_check[value] = 1
            self.scope.down(name)
            value.record(self)
            self.scope.up()
            del value._m_uvm_status_container.cycle_check[value]


@contract('UVMTextRecorder.do_record_string')
def do_record_string(self, name, value):
    self.scope.set_arg(name)
    if self.m_text_db.open_db():
        sv.fdisplay(self.m_text_db.m_file, '      SET_ATTR @%0t {{TXH:%0d NAME:%s VALUE:%s   RADIX:%s BITS=%0d}}', sv.realtime(), self.get_handle(), self.scope.get(), value, 'UVM_STRING', 8 + len(value))


@contract('UVMTextRecorder.do_record_time')
def do_record_time(self, name, value):
    self.scope.set_arg(name)
    self.write_attribute_int(self.scope.get(), value, UVM_TIME, 64)


@contract('UVMTextRecorder.do_record_generic')
def do_record_generic(self, name, value, type_name):
    self.scope.set_arg(name)
    self.write_attribute(self.scope.get(), uvm_string_to_bits(value), UVM_STRING, 8 + len(value))


@contract('UVMTextRecorder.write_attribute')
def write_attribute(self, nm, value, radix, numbits=32):
    if self.m_text_db.open_db():
        sv.fdisplay(self.m_text_db.m_file, '      SET_ATTR @%0t {{TXH:%0d NAME:%s VALUE:%s   RADIX:%s BITS=%0d}}', sv.realtime(), self.get_handle(), nm, uvm_bitstream_to_string(value, numbits, radix), UVM_RADIX_TO_STRING_DICT[radix], numbits)


@contract('UVMTextRecorder.write_attribute_int')
def write_attribute_int(self, nm, value, radix, numbits=32):
    if self.m_text_db.open_db():
        sv.fdisplay(self.m_text_db.m_file, '      SET_ATTR @%0t {{TXH:%0d NAME:%s VALUE:%s   RADIX:%s BITS=%0d}}', sv.realtime(), self.get_handle(), nm, uvm_integral_to_string(value, numbits, radix), UVM_RADIX_TO_STRING_DICT[radix], numbits)


@contract('UVMTrStream.__init__', ret=False)
def __init__(self, name='unnamed-UVMTrStream'):
    UVMObject.__init__(self, name)
    self.m_cfg_dap = uvm_set_before_get_dap('cfg_dap')
    self.m_records = {}
    self.m_warn_null_cfg = 0
    self.m_is_opened = False
    self.m_is_closed = False


@contract('UVMTrStream.get_db')
def get_db(self):
    m_cfg = []
    if not self.m_cfg_dap.try_get(m_cfg):
        if self.m_warn_null_cfg == 1:
            uvm_warning('UVM/REC_STR/NO_CFG', '')
        self.m_warn_null_cfg = 0
        return None
    return m_cfg[0].db


@contract('UVMTrStream.get_scope')
def get_scope(self):
    m_cfg = []
    if not self.m_cfg_dap.try_get(m_cfg):
        if self.m_warn_null_cfg == 1:
            uvm_warning('UVM/REC_STR/NO_CFG', '')
        self.m_warn_null_cfg = 0
        return ''
    return m_cfg[0].scope


@contract('UVMTrStream.get_stream_type_name')
def get_stream_type_name(self):
    m_cfg = []
    if not self.m_cfg_dap.try_get(m_cfg):
        if self.m_warn_null_cfg == 1:
            uvm_warning('UVM/REC_STR/NO_CFG', '')
        self.m_warn_null_cfg = 0
        return ''
    return m_cfg[0].stream_type_name


@contract('UVMTrStream.close')
def close(self):
    if not self.is_open():
        return
    self.do_close()
    for recorder in self.m_records:
        if recorder.is_open():
            recorder.close()
    self.m_is_opened = False
    self.m_is_closed = True


@contract('UVMTrStream.free')
def free(self):
    if not self.is_open() and (not self.is_closed()):
        return
    if self.is_open():
        self.close()
    self.do_free()
    for recorder in list(self.m_records):
        recorder.free()
    db = self.get_db()
    self.m_is_closed = False
    self.m_cfg_dap = uvm_set_before_get_dap('cfg_dap')
    self.m_warn_null_cfg = 1
    if self in UVMTrStream.m_ids_by_stream:
        UVMTrStream.m_free_id(UVMTrStream.m_ids_by_stream[self])
    if db is not None:
        db.m_free_stream(self)


@contract('UVMTrStream.m_do_open')
def m_do_open(self, db, scope='', stream_type_name=''):
    m_cfg = []
    m_db = None
    if db is None:
        uvm_error('UVM/REC_STR/NULL_DB', '')
        return
    if self.m_cfg_dap.try_get(m_cfg):
        uvm_error('UVM/REC_STR/RE_CFG', '')
    else:
        m_cfg = m_uvm_tr_stream_cfg()
        m_cfg.db = db
        m_cfg.scope = scope
        m_cfg.stream_type_name = stream_type_name
        self.m_cfg_dap.set(m_cfg)
        self.m_is_opened = True
        self.do_open(db, scope, stream_type_name)


@contract('UVMTrStream.is_open', ret='bool')
def is_open(self):
    return self.m_is_opened


@contract('UVMTrStream.is_closed', ret='bool')
def is_closed(self):
    return self.m_is_closed


@contract('UVMTrStream.open_recorder')
def open_recorder(self, name, open_time=0, type_name=''):
    m_time = open_time
    if open_time == 0:
        m_time = sv.time()
    if not self.is_open():
        return None
    else:
        p = None
        s = ''
        if p is not None:
            s = p.get_randstate()
        open_recorder = self.do_open_recorder(name, m_time, type_name)
        if open_recorder is not None:
            self.m_records[open_recorder] = 1
            open_recorder.m_do_open(self, m_time, type_name)
        if p is not None:
            p.set_randstate(s)
        return open_recorder


@contract('UVMTrStream.m_free_recorder')
def m_free_recorder(self, recorder):
    if recorder in self.m_records:
        del self.m_records[recorder]


@contract('UVMTrStream.get_handle')
def get_handle(self):
    m_streams_by_id = UVMTrStream.m_streams_by_id
    m_ids_by_stream = UVMTrStream.m_ids_by_stream
    if self.is_open() is False and self.is_closed() is False:
        return 0
    else:
        handle = self.get_inst_id()
        if self in m_ids_by_stream and m_ids_by_stream[self] != handle:
            key = m_ids_by_stream[self]
            del m_streams_by_id[key]
        m_streams_by_id[handle] = self
        m_ids_by_stream[self] = handle
        return handle


@contract('UVMTrStream.m_free_id')
def m_free_id(cls, id):
    stream = None
    if not sv.isunknown(id) and id in UVMTrStream.m_streams_by_id:
        stream = UVMTrStream.m_streams_by_id[id]
    if stream is not None:
        del UVMTrStream.m_streams_by_id[id]
        del UVMTrStream.m_ids_by_stream[stream]


@contract('UVMTextTrStream.do_open')
def do_open(self, db, scope, stream_type_name):
    self.m_text_db = db
    if self.m_text_db.open_db():
        sv.fdisplay(self.m_text_db.m_file, '  CREATE_STREAM @%0t [NAME:%s T:%s SCOPE:%s STREAM:%0d]', uvm_sim_time(), self.get_name(), stream_type_name, scope, self.get_handle())


@contract('UVMTextTrStream.do_close')
def do_close(self):
    if self.m_text_db.open_db():
        sv.fdisplay(self.m_text_db.m_file, '  CLOSE_STREAM @%0t [NAME:%s T:%s SCOPE:%s STREAM:%0d]', uvm_sim_time(), self.get_name(), self.get_stream_type_name(), self.get_scope(), self.get_handle())


@contract('UVMTextTrStream.do_free')
def do_free(self):
    if self.m_text_db.open_db():
        sv.fdisplay(self.m_text_db.m_file, '  FREE_STREAM @%0t [NAME:%s T:%s SCOPE:%s STREAM:%0d]', uvm_sim_time(), self.get_name(), self.get_stream_type_name(), self.get_scope(), self.get_handle())
    self.m_text_db = None


@contract('UVMTextTrStream.do_open_recorder')
def do_open_recorder(self, name, open_time, type_name):
    if self.m_text_db.open_db():
        return UVMTextRecorder.type_id.create(name)
    return None


@contract('UVMTrDatabase.__init__', ret=False)
def __init__(self, name='unnamed-UVMTrDatabase'):
    UVMObject.__init__(self, name)
    self.m_is_opened = False
    self.m_streams = {}


@contract('UVMTrDatabase.open_db')
def open_db(self):
    if self.m_is_opened is False:
        self.m_is_opened = self.do_open_db()
    return self.m_is_opened


@contract('UVMTrDatabase.close_db')
def close_db(self):
    if self.m_is_opened:
        if self.do_close_db():
            self.m_is_opened = False
    return self.m_is_opened is False


@contract('UVMTrDatabase.is_open', ret='bool')
def is_open(self):
    return self.m_is_opened


@contract('UVMTrDatabase.open_stream')
def open_stream(self, name, scope='', type_name=''):
    if not self.open_db():
        return None
    else:
        p = None
        s = ''
        if p is not None:
            s = p.get_randstate()
        open_stream = self.do_open_stream(name, scope, type_name)
        if open_stream is not None:
            self.m_streams[open_stream] = 1
            open_stream.m_do_open(self, scope, type_name)
        if p is not None:
            p.set_randstate(s)
        return open_stream


@contract('UVMTrDatabase.m_free_stream')
def m_free_stream(self, stream):
    if stream in self.m_streams:
        del self.m_streams[stream]


@contract('UVMTrDatabase.establish_link')
def establish_link(self, link):
    s_lhs = []
    s_rhs = []
    r_lhs = []
    r_rhs = []
    lhs = link.get_lhs()
    rhs = link.get_rhs()
    db = None
    if lhs is None:
        uvm_warning('UVM/TR_DB/BAD_LINK', '')
        return
    if rhs is None:
        uvm_warning('UVM/TR_DB/BAD_LINK', '')
        return
    if not sv.cast(s_lhs, lhs, UVMTrStream) and (not sv.cast(r_lhs, lhs, UVMRecorder)):
        uvm_warning('UVM/TR_DB/BAD_LINK', '')
        return
    else:
        s_lhs = s_lhs[0] if s_lhs else None
        r_lhs = r_lhs[0] if r_lhs else None
    if not sv.cast(s_rhs, rhs, UVMTrStream) and (not sv.cast(r_rhs, rhs, UVMRecorder)):
        uvm_warning('UVM/TR_DB/BAD_LINK', '')
        return
    else:
        s_rhs = s_rhs[0] if s_rhs else None
        r_rhs = r_rhs[0] if r_rhs else None
    if r_lhs is not None:
        s_lhs = r_lhs.get_stream()
    if r_rhs is not None:
        s_rhs = r_rhs.get_stream()
    if s_lhs is not None and s_lhs.get_db() != self:
        db = s_lhs.get_db()
        uvm_warning('UVM/TR_DB/BAD_LINK', '')
        return
    if s_rhs is not None and s_rhs.get_db() != self:
        db = s_rhs.get_db()
        uvm_warning('UVM/TR_DB/BAD_LINK', '')
        return
    self.do_establish_link(link)


@contract('UVMTextTrDatabase.__init__', ret=False)
def __init__(self, name='unnamed-UVMTextTrDatabase'):
    UVMTrDatabase.__init__(self, name)
    self.m_filename_dap = uvm_simple_lock_dap('filename_dap')
    self.m_filename_dap.set('tr_db.log')
    self.m_file = NO_FILE_OPEN


@contract('UVMTextTrDatabase.do_open_db')
def do_open_db(self):
    if self.m_file == NO_FILE_OPEN:
        self.m_file = sv.fopen(self.m_filename_dap.get(), 'a')
        if self.m_file != NO_FILE_OPEN:
            self.m_filename_dap.lock()
    return self.m_file != NO_FILE_OPEN


@contract('UVMTextTrDatabase.do_close_db')
def do_close_db(self):
    if self.m_file != NO_FILE_OPEN:
        sv.fclose(self.m_file)
        self.m_file = NO_FILE_OPEN
        self.m_filename_dap.unlock()
    return 1


@contract('UVMTextTrDatabase.do_open_stream')
def do_open_stream(self, name, scope, typename):
    m_stream = UVMTextTrStream.type_id.create(name)
    return m_stream


@contract('UVMTextTrDatabase.do_establish_link')
def do_establish_link(self, link):
    cast_r_lhs = []
    cast_r_rhs = []
    lhs = link.get_lhs()
    rhs = link.get_rhs()
    sv.cast(cast_r_lhs, lhs, UVMRecorder)
    sv.cast(cast_r_rhs, rhs, UVMRecorder)
    r_lhs = cast_r_lhs[0] if cast_r_lhs else None
    r_rhs = cast_r_rhs[0] if cast_r_rhs else None
    if r_lhs is None or r_rhs is None:
        return
    else:
        pc_link = []
        re_link = []
        if sv.cast(pc_link, link, UVMParentChildLink):
            sv.fdisplay(self.m_file, '  LINK @%0t {{TXH1:%0d TXH2:%0d RELATION=%0s}}', sv.time(), r_lhs.get_handle(), r_rhs.get_handle(), 'child')
        elif sv.cast(re_link, link, UVMRelatedLink):
            sv.fdisplay(self.m_file, '  LINK @%0t {{TXH1:%0d TXH2:%0d RELATION=%0s}}', sv.time(), r_lhs.get_handle(), r_rhs.get_handle(), '')


@contract('UVMTextTrDatabase.set_file_name')
def set_file_name(self, filename):
    if filename == '':
        uvm_warning('UVM/TXT_DB/EMPTY_NAME', '')
        return
    if not self.m_filename_dap.try_set(filename):
        uvm_warning('UVM/TXT_DB/SET_AFTER_OPEN', '')
    return


@contract('UVMComponent.accept_tr')
def accept_tr(self, tr, accept_time=0):
    e = None
    tr.accept_tr(accept_time)
    self.do_accept_tr(tr)
    e = self.event_pool.get('accept_tr')
    if e is not None:
        e.trigger()


@contract('UVMComponent.begin_tr')
def begin_tr(self, tr, stream_name='main', label='', desc='', begin_time=0, parent_handle=0):
    return self.m_begin_tr(tr, parent_handle, stream_name, label, desc, begin_time)


@contract('UVMComponent.begin_child_tr')
def begin_child_tr(self, tr, parent_handle=0, stream_name='main', label='', desc='', begin_time=0):
    return self.m_begin_tr(tr, parent_handle, stream_name, label, desc, begin_time)


@contract('UVMComponent.end_tr')
def end_tr(self, tr, end_time=0, free_handle=1):
    e = None
    recorder = None
    if tr is None:
        return
    tr.end_tr(end_time, free_handle)
    if self.recording_detail != UVM_NONE:
        if tr in self.m_tr_h:
            recorder = self.m_tr_h[tr]
            self.do_end_tr(tr, recorder.get_handle())
            del self.m_tr_h[tr]
            tr.record(recorder)
            recorder.close(end_time)
            if free_handle:
                recorder.free()
        else:
            self.do_end_tr(tr, 0)
    e = self.event_pool.get('end_tr')
    if e is not None:
        e.trigger()


@contract('UVMComponent.record_error_tr')
def record_error_tr(self, stream_name='main', info=None, label='error_tr', desc='', error_time=0, keep_active=0):
    recorder = None
    etype = ''
    handle = 0
    stream = None
    db = self.m_get_tr_database()
    if keep_active:
        etype = 'Event, Link'
    else:
        etype = 'Event'
    if error_time == 0:
        error_time = sv.realtime()
    if stream_name == '' or stream_name == 'main':
        if self.m_main_stream is None:
            self.m_main_stream = self.tr_database.open_stream('main', self.get_full_name(), 'TVM')
        stream = self.m_main_stream
    else:
        stream = self.get_tr_stream(stream_name)
    handle = 0
    if stream is not None:
        recorder = stream.open_recorder(label, error_time, etype)
        if recorder is not None:
            if label != '':
                recorder.record_string('label', label)
            if desc != '':
                recorder.record_string('desc', desc)
            if info is not None:
                info.record(recorder)
            recorder.close(error_time)
            if keep_active == 0:
                recorder.free()
            else:
                handle = recorder.get_handle()
    return handle


@contract('UVMComponent.record_event_tr')
def record_event_tr(self, stream_name='main', info=None, label='event_tr', desc='', event_time=0, keep_active=0):
    recorder = None
    etype = ''
    handle = 0
    stream = None
    db = self.m_get_tr_database()
    if keep_active:
        etype = 'Event, Link'
    else:
        etype = 'Event'
    if event_time == 0:
        event_time = sv.realtime()
    if stream_name == '' or stream_name == 'main':
        if self.m_main_stream is None:
            self.m_main_stream = self.tr_database.open_stream('main', self.get_full_name(), 'TVM')
        stream = self.m_main_stream
    else:
        stream = self.get_tr_stream(stream_name)
    handle = 0
    if stream is not None:
        recorder = stream.open_recorder(label, event_time, etype)
        if recorder is not None:
            if label != '':
                recorder.record_string('label', label)
            if desc != '':
                recorder.record_string('desc', desc)
            if info is not None:
                info.record(recorder)
            recorder.close(event_time)
            if keep_active == 0:
                recorder.free()
            else:
                handle = recorder.get_handle()
    return handle


@contract('UVMComponent.get_tr_stream')
def get_tr_stream(self, name, stream_type_name=''):
    db = self.m_get_tr_database()
    if name not in self.m_streams:
        self.m_streams[name] = {}
    if stream_type_name not in self.m_streams[name]:
        self.m_streams[name][stream_type_name] = db.open_stream(name, self.get_full_name(), stream_type_name)
    return self.m_streams[name][stream_type_name]


@contract('UVMComponent.free_tr_stream')
def free_tr_stream(self, stream):
    if stream is None:
        return
    str_name = stream.get_name()
    str_type_name = stream.get_stream_type_name()
    if str_name not in self.m_streams or str_type_name not in self.m_streams[str_name]:
        return
    if self.m_streams[str_name][str_type_name] != stream:
        return
    del self.m_streams[str_name][str_type_name]
    if len(self.m_streams[str_name]) == 0:
        del self.m_streams[str_name]
    if stream.is_open() or stream.is_closed():
        stream.free()


@contract('UVMComponent.m_get_tr_database')
def m_get_tr_database(self):
    if self.tr_database is None:
        from .uvm_coreservice import UVMCoreService
        cs = UVMCoreService.get()
        self.tr_database = cs.get_default_tr_database()
    return self.tr_database


@contract('UVMComponent.m_begin_tr')
def m_begin_tr(self, tr, parent_handle=0, stream_name='main', label='', desc='', begin_time=0):
    e = None
    name = ''
    kind = ''
    db = None
    handle = 0
    link_handle = 0
    stream = None
    recorder = None
    parent_recorder = None
    link_recorder = None
    if tr is None:
        return 0
    db = self.m_get_tr_database()
    if parent_handle != 0:
        parent_recorder = UVMRecorder.get_recorder_from_handle(parent_handle)
    if parent_recorder is None:
        seq = []
        from ..seq.uvm_sequence_item import UVMSequenceItem
        if sv.cast(seq, tr, UVMSequenceItem):
            seq = seq[0]
            parent_seq = seq.get_parent_sequence()
            if parent_seq is not None:
                parent_recorder = parent_seq.m_tr_recorder
    if parent_recorder is not None:
        link_handle = tr.begin_child_tr(begin_time, parent_recorder.get_handle())
    else:
        link_handle = tr.begin_tr(begin_time)
    if link_handle != 0:
        link_recorder = UVMRecorder.get_recorder_from_handle(link_handle)
    if tr.get_name() != '':
        name = tr.get_name()
    else:
        name = tr.get_type_name()
    if self.recording_detail != UVM_NONE:
        if stream_name == '' or stream_name == 'main':
            if self.m_main_stream is None:
                self.m_main_stream = db.open_stream('main', self.get_full_name(), 'TVM')
            stream = self.m_main_stream
        else:
            stream = self.get_tr_stream(stream_name)
        if stream is not None:
            kind = 'Begin_End, Link'
            if parent_recorder is None:
                kind = 'Begin_No_Parent, Link'
            recorder = stream.open_recorder(name, begin_time, kind)
            if recorder is not None:
                if label != '':
                    recorder.record_string('label', label)
                if desc != '':
                    recorder.record_string('desc', desc)
                if parent_recorder is not None:
                    self.tr_database.establish_link(UVMParentChildLink.get_link(parent_recorder, recorder))
                if link_recorder is not None:
                    self.tr_database.establish_link(UVMRelatedLink.get_link(recorder, link_recorder))
                self.m_tr_h[tr] = recorder
        handle = 0
        if recorder is not None:
            handle = recorder.get_handle()
        self.do_begin_tr(tr, stream_name, handle)
    e = self.event_pool.get('begin_tr')
    if e is not None:
        e.trigger(tr)
    return handle


@contract('UVMLinkBase.set')
def set(self, lhs, rhs):
    self.do_set_lhs(lhs)
    self.do_set_rhs(rhs)


@contract('UVMParentChildLink.get_link')
def get_link(cls, lhs, rhs, name='pc_link'):
    pc_link = UVMParentChildLink(name)
    pc_link.set(lhs, rhs)
    return pc_link


@contract('UVMParentChildLink.do_set_lhs')
def do_set_lhs(self, lhs):
    self.m_lhs = lhs


@contract('UVMParentChildLink.do_get_lhs')
def do_get_lhs(self):
    return self.m_lhs


@contract('UVMParentChildLink.do_set_rhs')
def do_set_rhs(self, rhs):
    self.m_rhs = rhs


@contract('UVMParentChildLink.do_get_rhs')
def do_get_rhs(self):
    return self.m_rhs


@contract('UVMRelatedLink.get_link')
def get_link(cls, lhs, rhs, name='ce_link'):
    ce_link = UVMRelatedLink(name)
    ce_link.set(lhs, rhs)
    return ce_link


@contract('UVMRelatedLink.do_set_lhs')
def do_set_lhs(self, lhs):
    self.m_lhs = lhs


@contract('UVMRelatedLink.do_get_lhs')
def do_get_lhs(self):
    return self.m_lhs


@contract('UVMRelatedLink.do_set_rhs')
def do_set_rhs(self, rhs):
    self.m_rhs = rhs


@contract('UVMRelatedLink.do_get_rhs')
def do_get_rhs(self):
    return self.m_rhs


@contract('UVMCauseEffectLink.get_link')
def get_link(cls, lhs, rhs, name='ce_link'):
    ce_link = UVMCauseEffectLink(name)
    ce_link.set(lhs, rhs)
    return ce_link


@contract('UVMLinkBase.set_lhs')
def set_lhs(self, lhs):
    self.do_set_lhs(lhs)


@contract('UVMLinkBase.get_lhs')
def get_lhs(self):
    return self.do_get_lhs()


@contract('UVMLinkBase.set_rhs')
def set_rhs(self, rhs):
    self.do_set_rhs(rhs)


@contract('UVMLinkBase.get_rhs')
def get_rhs(self):
    return self.do_get_rhs()

