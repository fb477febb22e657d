"""Drains and notifications of objections: reference contracts."""

@contract('UVMObjection.m_execute_scheduled_forks', ret=False, title='every scheduled drop gets its own drain process')
async def m_execute_scheduled_forks(cls):
    while True:
        await UVMObjection.m_scheduled_list_not_empty_event.wait()
        UVMObjection.m_scheduled_list_not_empty_event.clear()
        while len(UVMObjection.m_scheduled_list) != 0:
            c = UVMObjection.m_scheduled_list.pop(0)
            objection = c.objection
            objection.m_scheduled_contexts[c.obj] = c
            objection.m_forked_list.append(c)
            pproc = cocotb.start_soon(cls.m_execute_scheduled_forks_fork_join_none(c))


@contract('UVMObjection.m_execute_scheduled_forks_fork_join_none', ret=False, title='one drain per scheduled drop; a cancelled drain leaves nothing behind')
async def m_execute_scheduled_forks_fork_join_none(cls, c):
    objection = c.objection
    if len(objection.m_forked_list) > 0:
        ctxt = objection.m_forked_list.pop(0)
        del objection.m_scheduled_contexts[ctxt.obj]
        objection.m_forked_contexts[ctxt.obj] = ctxt
        obj = ctxt.obj
        drain = object()
        objection.m_drain_proc[obj] = drain
        await objection.m_forked_drain(ctxt.obj, ctxt.source_obj, ctxt.description, ctxt.count, 1)
        if objection.m_drain_proc.get(obj) is not drain:
            return
        del objection.m_drain_proc[obj]
        del objection.m_forked_contexts[obj]
        ctxt.clear()
        UVMObjection.m_context_pool.append(ctxt)


@contract('UVMObjection.m_forked_drain', ret=False, title='drain time, all-dropped, then drop from the parent unless cancelled')
async def m_forked_drain(self, obj, source_obj, description='', count=1, in_top_thread=0):
    drain = self.m_drain_proc.get(obj)
    if obj in self.m_drain_time:
        await Timer(self.m_drain_time[obj])
        if self.m_drain_proc.get(obj) is not drain:
            return
    await self.all_dropped(obj, source_obj, description, count)
    await uvm_zero_delay()
    if self.m_drain_proc.get(obj) is not drain:
        return
    if obj in self.m_source_count and self.m_source_count[obj] == 0:
        del self.m_source_count[obj]
    if obj in self.m_total_count and self.m_total_count[obj] == 0:
        del self.m_total_count[obj]
    if not self.m_prop_mode and obj != self.m_top:
        self.m_drop(self.m_top, source_obj, description, count, 1)
    elif obj != self.m_top:
        self.m_propagate(obj, source_obj, description, count, 0, 1)


@contract('UVMObjection.set_drain_time', ret=False, title='drain time belongs to the given object')
def set_drain_time(self, obj=None, drain=0):
    if obj is None:
        obj = self.m_top
    self.m_drain_time[obj] = drain


@contract('UVMObjection.raised', ret=False, title='raised notifies the object, callbacks and waiters')
def raised(self, obj, source_obj, description, count):
    if hasattr(obj, 'raised'):
        obj.raised(self, source_obj, description, count)
    uvm_do_callbacks(self, UVMObjectionCallback, 'raised', self, obj, source_obj, description, count)
    if obj in self.m_events:
        self.m_events[obj].raised.set()


@contract('UVMObjection.dropped', ret=False, title='dropped notifies the object, callbacks and waiters')
def dropped(self, obj, source_obj, description, count):
    comp = obj
    if hasattr(comp, 'dropped'):
        comp.dropped(self, source_obj, description, count)
    uvm_do_callbacks(self, UVMObjectionCallback, 'dropped', self, obj, source_obj, description, count)
    if obj in self.m_events:
        self.m_events[obj].dropped.set()


@contract('UVMObjection.all_dropped', ret=False, title='all-dropped notifies the object, callbacks and waiters')
async def all_dropped(self, obj, source_obj, description, count):
    comp = obj
    if hasattr(comp, 'all_dropped'):
        await comp.all_dropped(self, source_obj, description, count)
    await uvm_do_callbacks_async(self, UVMObjectionCallback, 'all_dropped', self, obj, source_obj, description, count)
    if obj in self.m_events:
        self.m_events[obj].all_dropped.set()
    if obj == self.m_top:
        self.m_top_all_dropped = 1


@contract('UVMObjection.clear', ret=False, title='clear forgets counts, scheduled and running drains and releases the waiters on the top')
def clear(self, obj=None):
    self.m_source_count = {}
    self.m_total_count = {}
    idx = 0
    while idx < len(UVMObjection.m_scheduled_list):
        if UVMObjection.m_scheduled_list[idx].objection == self:
            UVMObjection.m_scheduled_list[idx].clear()
            UVMObjection.m_context_pool.append(UVMObjection.m_scheduled_list[idx])
            del UVMObjection.m_scheduled_list[idx]
        else:
            idx += 1
    self.m_scheduled_contexts = {}
    while len(self.m_forked_list) > 0:
        self.m_forked_list[0].clear()
        UVMObjection.m_context_pool.append(self.m_forked_list[0])
        self.m_forked_list.pop(0)
    for o in list(self.m_forked_contexts):
        self.m_drain_proc.pop(o, None)
        self.m_forked_contexts[o].clear()
        UVMObjection.m_context_pool.append(self.m_forked_contexts[o])
        del self.m_forked_contexts[o]
    self.m_top_all_dropped = False
    self.m_cleared = 1
    if self.m_top in self.m_events:
        self.m_events[self.m_top].all_dropped.set()


@contract('UVMObjection.wait_for', ret=False, title='waits for the next occurrence of the requested event')
async def wait_for(self, objt_event, obj=None):
    if obj is None:
        obj = self.m_top
    if (obj in self.m_events) is False:
        self.m_events[obj] = UVMObjectionEvents()
    self.m_events[obj].waiters += 1
    if objt_event == UVM_RAISED:
        self.m_events[obj].raised.clear()
        await self.m_events[obj].raised.wait()
    elif objt_event == UVM_DROPPED:
        self.m_events[obj].dropped.clear()
        await self.m_events[obj].dropped.wait()
    elif objt_event == UVM_ALL_DROPPED:
        self.m_events[obj].all_dropped.clear()
        await self.m_events[obj].all_dropped.wait()
    self.m_events[obj].waiters -= 1
    if self.m_events[obj].waiters == 0:
        del self.m_events[obj]


@contract('UVMObjection.m_init_objections', ret=False, title='the background process is started')
async def m_init_objections(cls):
    pproc = cocotb.start_soon(cls.m_execute_scheduled_forks())


@contract('UVMObjection.do_copy', ret=False, title='a copy has its own counts')
def do_copy(self, rhs):
    _rhs = rhs
    self.m_source_count = dict(_rhs.m_source_count)
    self.m_total_count = dict(_rhs.m_total_count)
    self.m_drain_time = dict(_rhs.m_drain_time)
    self.m_prop_mode = _rhs.m_prop_mode


@contract('UVMObjectionContextObject.clear', ret=False, title='clear forgets counts, scheduled and running drains and releases the waiters on the top')
def clear(self):
    self.obj = None
    self.source_obj = None
    self.description = ''
    self.count = 0
    self.objection = UVMObjection()


@contract('UVMObjection.m_raise', ret=False, title='a raise cancels the pending drain of the object')
def m_raise(self, obj, source_obj, description='', count=1):
    idx = 0
    ctxt = None
    if count == 0:
        return
    if obj in self.m_total_count:
        self.m_total_count[obj] += count
    else:
        self.m_total_count[obj] = count
    if source_obj == obj:
        if obj in self.m_source_count:
            self.m_source_count[obj] += count
        else:
            self.m_source_count[obj] = count
    self.raised(obj, source_obj, description, count)
    idx = 0
    m_scheduled_list = UVMObjection.m_scheduled_list
    for entry in m_scheduled_list:
        if entry.obj == obj and entry.objection == self:
            ctxt = entry
            del m_scheduled_list[idx]
            break
        idx += 1
    if ctxt is None:
        idx = 0
        while idx < len(self.m_forked_list):
            if self.m_forked_list[idx].obj == obj:
                ctxt = self.m_forked_list[idx]
                del self.m_forked_list[idx]
                del self.m_scheduled_contexts[ctxt.obj]
                break
            idx += 1
    if ctxt is None:
        if obj in self.m_forked_contexts:
            ctxt = self.m_forked_contexts[obj]
            del self.m_forked_contexts[obj]
            self.m_drain_proc.pop(obj, None)
    if ctxt is None:
        if not self.m_prop_mode and obj != self.m_top:
            self.m_raise(self.m_top, source_obj, description, count)
        elif obj != self.m_top:
            self.m_propagate(obj, source_obj, description, count, 1, 0)
    else:
        diff_count = count - ctxt.count
        if diff_count != 0:
            if diff_count > 0:
                if not self.m_prop_mode and obj != self.m_top:
                    self.m_raise(self.m_top, source_obj, description, diff_count)
                elif obj != self.m_top:
                    self.m_propagate(obj, source_obj, description, diff_count, 1, 0)
            else:
                diff_count = -diff_count
                if not self.m_prop_mode and obj != self.m_top:
                    self.m_drop(self.m_top, source_obj, description, diff_count)
                elif obj != self.m_top:
                    self.m_propagate(obj, source_obj, description, diff_count, 0, 0)
        ctxt.clear()
        UVMObjection.m_context_pool.append(ctxt)


