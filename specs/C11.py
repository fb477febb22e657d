
@contract('UVMPhase.add', ret=False, fatal_stops=1, ignore=['!info'], parts={
    'null': ['phase is None'],
    'append': ['phase is not None', 'with_phase is None', 'after_phase is None', 'before_phase is None'],
    'with': ['phase is not None', 'with_phase is not None', 'after_phase is None', 'before_phase is None'],
    'with-and': ['phase is not None', 'with_phase is not None', 'after_phase is not None or before_phase is not None'],
    'after': ['phase is not None', 'with_phase is None', 'after_phase is not None', 'before_phase is None'],
    'before': ['phase is not None', 'with_phase is None', 'after_phase is None', 'before_phase is not None'],
    'between': ['phase is not None', 'with_phase is None', 'after_phase is not None', 'before_phase is not None']})
def add(self, phase, with_phase=None, after_phase=None, before_phase=None):
    new_node = None
    begin_node = None
    end_node = None
    tmp_node = None
    state_chg = None
    if phase is None:
        uvm_fatal('PH/NULL', 'add: phase argument is null')
    if with_phase is not None and with_phase.get_phase_type() == UVM_PHASE_IMP:
        nm = with_phase.get_name()
        with_phase = self.find(with_phase)
        if with_phase is None:
            uvm_fatal('PH_BAD_ADD', "cannot find with_phase '" + nm + "' within node '" + self.get_name() + "'")
    if before_phase is not None and before_phase.get_phase_type() == UVM_PHASE_IMP:
        nm = before_phase.get_name()
        before_phase = self.find(before_phase)
        if before_phase is None:
            uvm_fatal('PH_BAD_ADD', "cannot find before_phase '" + nm + "' within node '" + self.get_name() + "'")
    if after_phase is not None and after_phase.get_phase_type() == UVM_PHASE_IMP:
        nm = after_phase.get_name()
        after_phase = self.find(after_phase)
        if after_phase is None:
            uvm_fatal('PH_BAD_ADD', "cannot find after_phase '" + nm + "' within node '" + self.get_name() + "'")
    if with_phase is not None and (after_phase is not None or before_phase is not None):
        uvm_fatal('PH_BAD_ADD', "cannot specify both 'with' and 'before/after' phase relationships")
    if before_phase == self or after_phase == self.m_end_node or with_phase == self.m_end_node:
        uvm_fatal('PH_BAD_ADD', 'cannot add before begin node, after end node, or with end nodes')
    if phase.get_phase_type() == UVM_PHASE_IMP:
        new_node = UVMPhase(phase.get_name(), UVM_PHASE_NODE, self)
        new_node.m_imp = phase
        begin_node = new_node
        end_node = new_node
        if phase.is_task_phase():
            new_node.phase_done = UVMObjection(phase.get_name() + '_objection')
    else:
        begin_node = phase
        end_node = phase.m_end_node
        phase.m_parent = self
    if with_phase is None and after_phase is None and (before_phase is None):
        before_phase = self.m_end_node
    if with_phase is not None:
        begin_node.m_predecessors = dict(with_phase.m_predecessors)
        end_node.m_successors = dict(with_phase.m_successors)
        for pred in with_phase.m_predecessors:
            pred.m_successors[begin_node] = 1
        for succ in with_phase.m_successors:
            succ.m_predecessors[end_node] = 1
    elif before_phase is not None and after_phase is None:
        begin_node.m_predecessors = before_phase.m_predecessors
        end_node.m_successors[before_phase] = 1
        for pred in before_phase.m_predecessors:
            del pred.m_successors[before_phase]
            pred.m_successors[begin_node] = 1
        before_phase.m_predecessors = {}
        before_phase.m_predecessors[end_node] = 1
    elif before_phase is None and after_phase is not None:
        end_node.m_successors = after_phase.m_successors
        begin_node.m_predecessors[after_phase] = 1
        for succ in after_phase.m_successors:
            del succ.m_predecessors[after_phase]
            succ.m_predecessors[end_node] = 1
        after_phase.m_successors = {}
        after_phase.m_successors[begin_node] = 1
    elif before_phase is not None and after_phase is not None:
        if not after_phase.is_before(before_phase):
            uvm_fatal('PH_ADD_PHASE', "Phase '" + before_phase.get_name() + "' is not before phase '" + after_phase.get_name() + "'")
        begin_node.m_predecessors[after_phase] = 1
        end_node.m_successors[before_phase] = 1
        after_phase.m_successors[begin_node] = 1
        before_phase.m_predecessors[end_node] = 1
        if before_phase in after_phase.m_successors:
            del after_phase.m_successors[before_phase]
            del before_phase.m_predecessors[after_phase]
    if new_node is None:
        tmp_node = phase
    else:
        tmp_node = new_node
    state_chg = UVMPhaseStateChange.type_id.create(tmp_node.get_name())
    state_chg.m_phase = tmp_node
    state_chg.m_jump_to = None
    state_chg.m_prev_state = tmp_node.m_state
    tmp_node.m_state = UVM_PHASE_DORMANT
    uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', tmp_node, state_chg)


@contract('UVMPhase.find')
def find(self, phase, stay_in_scope=True):
    if phase is None:
        raise Exception('UVMPhase.find(): Phase is None')
    found = None
    if phase == self.m_imp or phase == self:
        return phase
    found = self.m_find_predecessor(phase, stay_in_scope, self)
    if found is None:
        found = self.m_find_successor(phase, stay_in_scope, self)
    return found


@contract('UVMPhase.find_by_name')
def find_by_name(self, name, stay_in_scope=1):
    if self.get_name() == name:
        return self
    find_by_name = self.m_find_predecessor_by_name(name, stay_in_scope, self)
    if find_by_name is None:
        find_by_name = self.m_find_successor_by_name(name, stay_in_scope, self)
    return find_by_name


@contract('UVMPhase.m_find_predecessor')
def m_find_predecessor(self, phase, stay_in_scope=True, orig_phase=None):
    if phase is None:
        return None
    if phase == self.m_imp or phase == self:
        return self
    for key in self.m_predecessors.keys():
        pred = key
        if orig_phase is None:
            orig = self
        else:
            orig = orig_phase
        if not stay_in_scope or pred.get_schedule() == orig.get_schedule() or pred.get_domain() == orig.get_domain():
            found = pred.m_find_predecessor(phase, stay_in_scope, orig)
            if found is not None:
                return found
    return None


@contract('UVMPhase.m_find_successor')
def m_find_successor(self, phase, stay_in_scope=True, orig_phase=None):
    found = None
    if phase is None:
        return None
    if phase == self.m_imp or phase == self:
        return self
    for succ in self.m_successors.keys():
        orig = None
        if orig_phase is None:
            orig = self
        else:
            orig = orig_phase
        if not stay_in_scope or succ.get_schedule() == orig.get_schedule() or succ.get_domain() == orig.get_domain():
            found = succ.m_find_successor(phase, stay_in_scope, orig)
            if found is not None:
                return found
    return None


@contract('UVMPhase.m_find_predecessor_by_name')
def m_find_predecessor_by_name(self, name, stay_in_scope=1, orig_phase=None):
    found = None
    if self.get_name() == name:
        return self
    for pred in self.m_predecessors:
        orig = self if orig_phase is None else orig_phase
        if not stay_in_scope or pred.get_schedule() == orig.get_schedule() or pred.get_domain() == orig.get_domain():
            found = pred.m_find_predecessor_by_name(name, stay_in_scope, orig)
            if found is not None:
                return found
    return None


@contract('UVMPhase.m_find_successor_by_name')
def m_find_successor_by_name(self, name, stay_in_scope=1, orig_phase=None):
    found = None
    if self.get_name() == name:
        return self
    for succ in self.m_successors:
        orig = self if orig_phase is None else orig_phase
        if not stay_in_scope or succ.get_schedule() == orig.get_schedule() or succ.get_domain() == orig.get_domain():
            found = succ.m_find_successor_by_name(name, stay_in_scope, orig)
            if found is not None:
                return found
    return None


@contract('UVMPhase._is', ret='bool')
def _is(self, phase):
    return self.m_imp == phase or self == phase


@contract('UVMPhase.is_before', ret='bool')
def is_before(self, phase):
    return not self._is(phase) and self.m_find_successor(phase, 0, self) is not None


@contract('UVMPhase.is_after', ret='bool')
def is_after(self, phase):
    return not self._is(phase) and self.m_find_predecessor(phase, 0, self) is not None


@contract('UVMPhase.get_parent')
def get_parent(self):
    return self.m_parent


@contract('UVMPhase.get_schedule')
def get_schedule(self, hier=False):
    sched = self
    if hier is True:
        while sched.m_parent is not None and sched.m_parent.get_phase_type() == UVM_PHASE_SCHEDULE:
            sched = sched.m_parent
    if sched.m_phase_type == UVM_PHASE_SCHEDULE:
        return sched
    if sched.m_phase_type == UVM_PHASE_NODE:
        if self.m_parent is not None and self.m_parent.m_phase_type != UVM_PHASE_DOMAIN:
            return self.m_parent
    return None


@contract('UVMPhase.get_schedule_name')
def get_schedule_name(self, hier=False):
    s = ''
    sched = self.get_schedule(hier)
    if sched is None:
        return ''
    s = sched.get_name()
    while sched.m_parent is not None and sched.m_parent != sched and (sched.m_parent.get_phase_type() == UVM_PHASE_SCHEDULE):
        sched = sched.m_parent
        sep = ''
        if len(s) > 0:
            sep = '.'
        s = sched.get_name() + sep + s
    return s


@contract('UVMPhase.get_full_name')
def get_full_name(self):
    if self.m_phase_type == UVM_PHASE_IMP:
        return self.get_name()
    get_full_name = self.get_domain_name()
    sch = self.get_schedule_name()
    if sch != '':
        get_full_name = get_full_name + '.' + sch
    if self.m_phase_type != UVM_PHASE_DOMAIN and self.m_phase_type != UVM_PHASE_SCHEDULE:
        get_full_name = get_full_name + '.' + self.get_name()
    return get_full_name


@contract('UVMPhase.get_domain')
def get_domain(self):
    phase = self
    while phase is not None and phase.m_phase_type != UVM_PHASE_DOMAIN:
        phase = phase.m_parent
    if phase is None:
        return None
    return phase


@contract('UVMPhase.get_domain_name')
def get_domain_name(self):
    domain = self.get_domain()
    if domain is None:
        return 'unknown'
    return domain.get_name()


@contract('UVMPhase.get_adjacent_successor_nodes')
def get_adjacent_successor_nodes(self):
    done = False
    successors = {}
    idx = 0
    for s in self.m_successors:
        successors[s] = 1
    done = False
    while True:
        done = True
        keys = list(successors.keys())
        for s in keys:
            if s.get_phase_type() != UVM_PHASE_NODE:
                del successors[s]
                for next_s in s.m_successors:
                    successors[next_s] = 1
                done = False
        if done:
            break
    succ = []
    for s in successors:
        succ.append(s)
    return succ


@contract('UVMPhase.get_predecessors_for_successors', ret=False)
def get_predecessors_for_successors(self, pred_of_succ):
    done = False
    successors = []
    successors = self.get_adjacent_successor_nodes()
    for s in range(len(successors)):
        for pred in successors[s].m_predecessors:
            if pred == self:
                pass
            pred_of_succ[pred] = 1
    done = False
    while not done:
        done = True
        items = list(pred_of_succ.keys())
        for pred in items:
            if pred.get_phase_type() != UVM_PHASE_NODE:
                del pred_of_succ[pred]
                for next_pred in pred.m_predecessors:
                    pred_of_succ[next_pred] = 1
                done = False
    pred_of_succ.pop(self, None)

