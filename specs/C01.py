"""Objection accounting: reference contracts."""

@contract('UVMObjection.raise_objection', ret=False, title='raise starts at the raising object')
def raise_objection(self, obj=None, description='', count=1):
    if obj is None:
        obj = self.m_top
    self.m_cleared = 0
    self.m_top_all_dropped = 0
    self.m_raise(obj, obj, description, count)


@contract('UVMObjection.drop_objection', ret=False, title='drop starts at the dropping object')
def drop_objection(self, obj=None, description='', count=1):
    if obj is None:
        obj = self.m_top
    self.m_drop(obj, obj, description, count, 0)


@contract('UVMObjection.m_raise', ret=False, extra=['m_drop'],  title='raise adds to own, total and every ancestor exactly once')
def m_raise(self, obj, source_obj, description='', count=1):
    if count == 0:
        return
    if obj in self.m_total_count:
        self.m_total_count[obj] += count
    else:
        self.m_total_count[obj] = count
    if source_obj == obj:
        if obj in self.m_source_count:
            self.m_source_count[obj] += count
        else:
            self.m_source_count[obj] = count
    self.raised(obj, source_obj, description, count)
    ctxt = None
    for i in range(len(UVMObjection.m_scheduled_list)):
        e = UVMObjection.m_scheduled_list[i]
        if e.obj == obj and e.objection == self:
            ctxt = e
            del UVMObjection.m_scheduled_list[i]
            break
    if ctxt is None:
        for i in range(len(self.m_forked_list)):
            if self.m_forked_list[i].obj == obj:
                ctxt = self.m_forked_list[i]
                del self.m_forked_list[i]
                break
    if ctxt is None:
        if obj in self.m_forked_contexts:
            ctxt = self.m_forked_contexts[obj]
            del self.m_forked_contexts[obj]
    if ctxt is None:
        if not self.m_prop_mode and obj != self.m_top:
            self.m_raise(self.m_top, source_obj, description, count)
        elif obj != self.m_top:
            self.m_propagate(obj, source_obj, description, count, 1, 0)
    else:
        # the pending drop of ctxt.count never reached the parent: propagate the difference
        diff = count - ctxt.count
        if obj != self.m_top:
            if diff > 0:
                if not self.m_prop_mode:
                    self.m_raise(self.m_top, source_obj, description, diff)
                else:
                    self.m_propagate(obj, source_obj, description, diff, 1, 0)
            elif diff != 0:
                if not self.m_prop_mode:
                    self.m_drop(self.m_top, source_obj, description, -diff)
                else:
                    self.m_propagate(obj, source_obj, description, -diff, 0, 0)


@contract('UVMObjection.m_drop', ret=False, title='drop subtracts once, refuses underflow, defers the parent while draining')
def m_drop(self, obj, source_obj, description='', count=1, in_top_thread=0):
    if count == 0:
        return
    if obj not in self.m_total_count or count > self.m_total_count[obj]:
        if not self.m_cleared:
            uvm_report_fatal('OBJTN_ZERO', '')
        return
    if obj == source_obj:
        if obj not in self.m_source_count or count > self.m_source_count[obj]:
            if not self.m_cleared:
                uvm_report_fatal('OBJTN_ZERO', '')
            return
        self.m_source_count[obj] -= count
    self.m_total_count[obj] -= count
    self.dropped(obj, source_obj, description, count)
    if self.m_total_count[obj] != 0:
        if obj != self.m_top:
            if not self.m_prop_mode:
                self.m_drop(self.m_top, source_obj, description, count, in_top_thread)
            else:
                self.m_propagate(obj, source_obj, description, count, 0, in_top_thread)
    else:
        if len(UVMObjection.m_context_pool) > 0:
            ctxt = UVMObjection.m_context_pool.pop(0)
        else:
            ctxt = UVMObjectionContextObject()
        ctxt.obj = obj
        ctxt.source_obj = source_obj
        ctxt.description = description
        ctxt.count = count
        ctxt.objection = self
        UVMObjection.m_scheduled_list.append(ctxt)
        UVMObjection.m_scheduled_list_not_empty_event.set()


@contract('UVMObjection.m_propagate', ret=False, title='propagation goes to the parent, never past the top')
def m_propagate(self, obj, source_obj, description, count, raise_, in_top_thread):
    if obj is not None and obj != self.m_top:
        p = self.m_get_parent(obj)
        if raise_:
            self.m_raise(p, source_obj, description, count)
        else:
            self.m_drop(p, source_obj, description, count, in_top_thread)


@contract('UVMObjection.m_get_parent', title='parent of a component, sequencer of a sequence, else the top')
def m_get_parent(self, obj):
    if hasattr(obj, 'get_parent'):
        p = obj.get_parent()
    elif hasattr(obj, 'get_sequencer'):
        p = obj.get_sequencer()
    else:
        p = self.m_top
    if p is None:
        p = self.m_top
    return p


@contract('UVMObjection.get_objection_count', title='own count, 0 when never raised')
def get_objection_count(self, obj=None):
    if obj is None:
        obj = self.m_top
    if obj not in self.m_source_count:
        return 0
    return self.m_source_count[obj]


@contract('UVMObjection.get_objection_total', title='total count, 0 when never raised')
def get_objection_total(self, obj=None):
    if obj is None:
        obj = self.m_top
    if obj not in self.m_total_count:
        return 0
    return self.m_total_count[obj]
