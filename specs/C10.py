
@contract('UVMPhase.__init__', ret=False)
def __init__(self, name='uvm_phase', phase_type=UVM_PHASE_SCHEDULE, parent=None):
    UVMObject.__init__(self, name)
    self.m_phase_type = phase_type
    self.m_state = UVM_PHASE_UNINITIALIZED
    self.m_ready_to_end_count = 0
    self.max_ready_to_end_iter = 20
    self.m_successors = {}
    self.m_predecessors = {}
    self.m_end_node = None
    self.m_sync = []
    self.m_imp = None
    self.m_phase_done_event = Event(name + '_phase_done_event')
    self.m_phase_synced_event = Event(name + '_phase_synced')
    self.m_phase_set_state_event = Event(name + '_set_state_event')
    self.phase_done = None
    self.m_phase_proc = None
    self.m_num_procs_not_yet_returned = 0
    self.m_is_task_phase = False
    self.m_jump_bkwd = False
    self.m_jump_fwd = False
    self.m_jump_phase = None
    self.m_premature_end = False
    if name == 'common' and phase_type == UVM_PHASE_DOMAIN:
        self.set_state(UVM_PHASE_DORMANT)
    self.m_run_count = 0
    self.m_parent = parent
    clp = UVMCmdlineProcessor.get_inst()
    val = []
    if clp.get_arg_value('+UVM_PHASE_TRACE', val):
        UVMPhase.m_phase_trace = 1
    else:
        UVMPhase.m_phase_trace = 0
    val = []
    if clp.get_arg_value('+UVM_USE_OVM_RUN_SEMANTIC', val):
        UVMPhase.m_use_ovm_run_semantic = 1
    else:
        UVMPhase.m_use_ovm_run_semantic = 0
    if parent is None and (phase_type == UVM_PHASE_SCHEDULE or phase_type == UVM_PHASE_DOMAIN):
        self.m_end_node = UVMPhase(name + ' end', UVM_PHASE_TERMINAL, self)
        self.m_successors[self.m_end_node] = True
        self.m_end_node.m_predecessors[self] = True


@contract('UVMPhase.set_state', ret=False)
def set_state(self, state):
    if state is None:
        raise Exception('Proper state not given. Must be ' + str(UVM_PHASE2STR))
    self.m_state = state
    self.m_phase_set_state_event.set()
    if self.m_state == UVM_PHASE_DONE:
        self.m_phase_done_event.set()
    if self.m_state >= UVM_PHASE_SYNCING:
        self.m_phase_synced_event.set()


@contract('UVMPhase.get_state')
def get_state(self):
    return self.m_state


@contract('UVMPhase.get_run_count')
def get_run_count(self):
    return self.m_run_count


@contract('UVMPhase.get_phase_done_event')
def get_phase_done_event(self):
    return self.m_phase_done_event


@contract('UVMPhase.get_phase_synced_event')
def get_phase_synced_event(self):
    return self.m_phase_synced_event


@contract('UVMPhase.get_phase_type')
def get_phase_type(self):
    return self.m_phase_type


@contract('UVMPhase.is_task_phase', ret='bool')
def is_task_phase(self):
    return self.m_is_task_phase


@contract('UVMPhase.execute_phase', ret=False, stable=['m_imp', 'phase_done', 'm_jump_fwd', 'm_jump_bkwd'], ignore=['UVM_PH_TRACE', '!info'], parts={
    'graph': ['self.m_phase_type != UVM_PHASE_NODE'],
    'function': ['self.m_phase_type == UVM_PHASE_NODE', 'self.m_imp is not None', 'not self.m_imp.is_task_phase()'],
    'task': ['self.m_phase_type == UVM_PHASE_NODE', 'self.m_imp is not None', 'self.m_imp.is_task_phase()']})
async def execute_phase(self):
    task_phase = None
    state_chg = None
    cs = get_cs()
    top = cs.get_root()
    await self._wait_all_predecessors_done()
    if self.m_state == UVM_PHASE_DONE:
        return
    state_chg = UVMPhaseStateChange(self.get_name())
    state_chg.m_phase = self
    state_chg.m_jump_to = None
    state_chg.m_prev_state = self.m_state
    self.set_state(UVM_PHASE_SYNCING)
    uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
    await uvm_zero_delay()
    if len(self.m_sync) > 0:
        await self._wait_phases_synced()
    self.m_run_count += 1
    if self.m_phase_type != UVM_PHASE_NODE:
        state_chg.m_prev_state = self.m_state
        self.set_state(UVM_PHASE_STARTED)
        uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
        await uvm_zero_delay()
        state_chg.m_prev_state = self.m_state
        self.set_state(UVM_PHASE_EXECUTING)
        uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
        await uvm_zero_delay()
    else:
        state_chg.m_prev_state = self.m_state
        self.set_state(UVM_PHASE_STARTED)
        uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
        if not self.m_imp.is_task_phase():
            self.m_imp.traverse(top, self, UVM_PHASE_STARTED)
        else:
            await self.m_imp.traverse(top, self, UVM_PHASE_STARTED)
        self.m_ready_to_end_count = 0
        await uvm_zero_delay()
        if not self.m_imp.is_task_phase():
            state_chg.m_prev_state = self.m_state
            self.set_state(UVM_PHASE_EXECUTING)
            uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
            await uvm_zero_delay()
            self.m_imp.traverse(top, self, UVM_PHASE_EXECUTING)
        else:
            task_phase = self.m_imp
            UVMPhase.m_executing_phases[self] = 1
            state_chg.m_prev_state = self.m_state
            self.set_state(UVM_PHASE_EXECUTING)
            uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
            task_proc = cocotb.start_soon(task_phase.traverse(top, self, UVM_PHASE_EXECUTING))
            await uvm_wait_for_nba_region()
            await self.wait_for_criterion_for_end_phase(state_chg)
    if self in UVMPhase.m_executing_phases:
        del UVMPhase.m_executing_phases[self]
    if self.m_phase_type == UVM_PHASE_NODE:
        if self.m_premature_end:
            if self.m_jump_phase is not None:
                state_chg.m_jump_to = self.m_jump_phase
            await uvm_zero_delay()
        elif task_phase is None:
            await self.m_wait_for_pred()
        state_chg.m_prev_state = self.m_state
        self.set_state(UVM_PHASE_ENDED)
        uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
        if self.m_imp is not None:
            if self.m_imp.is_task_phase():
                await self.m_imp.traverse(top, self, UVM_PHASE_ENDED)
            else:
                self.m_imp.traverse(top, self, UVM_PHASE_ENDED)
        await uvm_zero_delay()
        state_chg.m_prev_state = self.m_state
        if self.m_premature_end:
            self.set_state(UVM_PHASE_JUMPING)
        else:
            self.set_state(UVM_PHASE_CLEANUP)
        uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
        if self.m_phase_proc is not None:
            self.m_phase_proc.kill()
            self.m_phase_proc = None
        await uvm_zero_delay()
        if self.phase_done is not None:
            nn = self.get_name()
            self.phase_done.clear()
    self.m_premature_end = False
    if self.m_jump_fwd or self.m_jump_bkwd:
        if self.m_jump_fwd:
            self.clear_successors(UVM_PHASE_DONE, self.m_jump_phase)
        self.m_jump_phase.clear_successors()
    else:
        state_chg.m_prev_state = self.m_state
        self.set_state(UVM_PHASE_DONE)
        uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
        self.m_phase_proc = None
        await uvm_zero_delay()
    await uvm_zero_delay()
    if self.phase_done is not None:
        self.phase_done.clear()
    if self.m_jump_fwd or self.m_jump_bkwd:
        UVMPhase.m_phase_hopper.try_put(self.m_jump_phase)
        self.m_jump_phase = None
        self.m_jump_fwd = False
        self.m_jump_bkwd = False
    elif len(self.m_successors) == 0:
        top.m_phase_all_done_event.set()
    else:
        for key in self.m_successors.keys():
            succ = key
            if succ.m_state < UVM_PHASE_SCHEDULED:
                state_chg.m_prev_state = succ.m_state
                state_chg.m_phase = succ
                succ.set_state(UVM_PHASE_SCHEDULED)
                uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', succ, state_chg)
                await uvm_zero_delay()
                if not UVMPhase.m_phase_hopper.try_put(succ):
                    raise Exception('Failed try_put(succ). Should not ever fail')


@contract('UVMPhase._wait_all_predecessors_done', ret=False)
async def _wait_all_predecessors_done(self):
    nn = self.get_name()
    if self.has_predecessors():
        events = []
        for pred in self.m_predecessors:
            events.append(pred.get_phase_done_event().wait())
        await Combine(*events)
    else:
        await uvm_zero_delay()


@contract('UVMPhase._wait_phases_synced', ret=False)
async def _wait_phases_synced(self):
    events = []
    for phase in self.m_sync:
        if phase.m_state < UVM_PHASE_SYNCING:
            events.append(phase.get_phase_synced_event().wait())
    if len(events) > 0:
        await Combine(*events)


@contract('UVMPhase.has_predecessors', ret='bool')
def has_predecessors(self):
    return len(self.m_predecessors) > 0


@contract('UVMPhase.wait_for_state', ret=False)
async def wait_for_state(self, state, op=UVM_EQ):
    func = None
    if op == UVM_EQ:
        def func():
            return state & self.m_state != 0
    elif op == UVM_NE:
        def func():
            return state & self.m_state == 0
    elif op == UVM_GTE:
        def func():
            return self.m_state >= state
    elif op == UVM_LT:
        def func():
            return self.m_state < state
    elif op == UVM_LTE:
        def func():
            return self.m_state <= state
    elif op == UVM_GT:
        def func():
            return self.m_state > state
    else:
        raise Exception('IMPL for wait_for_state not finished yet')
    await self._wait_state_change_func(func)


@contract('UVMPhase._wait_state_change_func', ret=False)
async def _wait_state_change_func(self, func):
    while not func():
        self.m_phase_set_state_event.clear()
        await self.m_phase_set_state_event.wait()


@contract('UVMPhase.m_wait_for_pred', ret=False)
async def m_wait_for_pred(self):
    pred_of_succ = {}
    self.get_predecessors_for_successors(pred_of_succ)
    await uvm_zero_delay()
    for sibling in pred_of_succ:
        if UVMPhase.m_phase_trace:
            s = sv.sformatf("Waiting for phase '%s' (%0d) to be READY_TO_END. Current state is %s", sibling.get_name(), sibling.get_inst_id(), ph2str(sibling.m_state))
            UVM_PH_TRACE('PH/TRC/WAIT_PRED_OF_SUCC', s, self, UVM_HIGH)
        await sibling.wait_for_state(UVM_PHASE_READY_TO_END, UVM_GTE)
        if UVMPhase.m_phase_trace:
            s = sv.sformatf("Phase '%s' (%0d) is now READY_TO_END. Releasing phase", sibling.get_name(), sibling.get_inst_id())
            UVM_PH_TRACE('PH/TRC/WAIT_PRED_OF_SUCC', s, self, UVM_HIGH)
    if UVMPhase.m_phase_trace:
        if len(pred_of_succ) > 0:
            s = '( '
            for key in pred_of_succ:
                pred = key
                s = s + pred.get_full_name() + ' '
            s = s + ')'
            UVM_PH_TRACE('PH/TRC/WAIT_PRED_OF_SUCC', '*** All pred to succ ' + s + ' in READY_TO_END state, so ending phase ***', self, UVM_HIGH)
        else:
            UVM_PH_TRACE('PH/TRC/WAIT_PRED_OF_SUCC', '*** No pred to succ other than myself, so ending phase ***', self, UVM_HIGH)
    await uvm_zero_delay()


@contract('UVMPhase.wait_for_self_and_siblings_to_drop', ret=False)
async def wait_for_self_and_siblings_to_drop(self):
    need_to_check_all = True
    top = None
    cs = None
    siblings = {}
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    top = cs.get_root()
    self.get_predecessors_for_successors(siblings)
    for ss in self.m_sync:
        siblings[ss] = 1
    await uvm_zero_delay()
    while need_to_check_all is True:
        need_to_check_all = False
        if self.phase_done is not None and self.phase_done.get_objection_total(top) != 0:
            self.set_state(UVM_PHASE_EXECUTING)
            await self.phase_done.wait_for(UVM_ALL_DROPPED, top)
            need_to_check_all = True
        for sib in siblings:
            await sib.wait_for_state(UVM_PHASE_EXECUTING, UVM_GTE)
            if sib.phase_done is not None and sib.phase_done.get_objection_total(top) != 0:
                self.set_state(UVM_PHASE_EXECUTING)
                await sib.phase_done.wait_for(UVM_ALL_DROPPED, top)
                need_to_check_all = True


@contract('UVMPhase._wait_for_all_dropped', ret=False)
async def _wait_for_all_dropped(self, state_chg):
    cs = get_cs()
    top = cs.get_root()
    do_ready_to_end = False
    if self.phase_done.get_objection_total(top) or (UVMPhase.m_use_ovm_run_semantic and self.m_imp.get_name() == 'run'):
        if not self.phase_done.m_top_all_dropped:
            await self.phase_done.wait_for(UVM_ALL_DROPPED, top)
        UVM_PH_TRACE('PH/TRC/EXE/ALLDROP', 'PHASE EXIT ALL_DROPPED', self, UVM_MEDIUM)
    elif UVMPhase.m_phase_trace:
        UVM_PH_TRACE('PH/TRC/SKIP', 'No objections raised, skipping phase', self, UVM_LOW)
    await self.wait_for_self_and_siblings_to_drop()
    do_ready_to_end = True
    while do_ready_to_end:
        await uvm_wait_for_nba_region()
        UVM_PH_TRACE('PH_READY_TO_END', 'PHASE READY TO END', self, UVM_MEDIUM)
        self.m_ready_to_end_count += 1
        if UVMPhase.m_phase_trace:
            UVM_PH_TRACE('PH_READY_TO_END_CB', 'CALLING READY_TO_END CB', self, UVM_MEDIUM)
        state_chg.m_prev_state = self.m_state
        self.set_state(UVM_PHASE_READY_TO_END)
        uvm_do_callbacks(self, UVMPhaseCb, 'phase_state_change', self, state_chg)
        if self.m_imp is not None:
            if self.m_imp.is_task_phase():
                await self.m_imp.traverse(top, self, UVM_PHASE_READY_TO_END)
            else:
                self.m_imp.traverse(top, self, UVM_PHASE_READY_TO_END)
        await uvm_wait_for_nba_region()
        await self.wait_for_self_and_siblings_to_drop()
        do_ready_to_end = self.m_state == UVM_PHASE_EXECUTING and self.m_ready_to_end_count < self.max_ready_to_end_iter


@contract('UVMPhase.wait_for_criterion_for_end_phase', ret=False)
async def wait_for_criterion_for_end_phase(self, state_chg):
    await self._wait_for_all_dropped(state_chg)


@contract('UVMPhase.m_run_phases', ret=False)
async def m_run_phases(cls):
    cs = get_cs()
    top = cs.get_root()
    from .uvm_domain import UVMDomain
    ph = UVMDomain.get_common_domain()
    if not UVMPhase.m_phase_hopper.try_put(ph):
        raise Exception('Could not add phase to phase_hopper mailbox')
    while True:
        qphase = []
        await UVMPhase.m_phase_hopper.get(qphase)
        cocotb.start_soon(qphase[0].execute_phase())
        await uvm_zero_delay()


@contract('UVMPhase.raise_objection', ret=False)
def raise_objection(self, obj, description='', count=1):
    if self.phase_done is not None:
        if obj is not None:
            pass
        self.phase_done.raise_objection(obj, description, count)
    else:
        self.m_report_null_objection(obj, description, count, 'raise')


@contract('UVMPhase.drop_objection', ret=False)
def drop_objection(self, obj, description='', count=1):
    if self.phase_done is not None:
        self.phase_done.drop_objection(obj, description, count)
    else:
        self.m_report_null_objection(obj, description, count, 'drop')


@contract('UVMPhase.m_report_null_objection', report_calls=1, ret=False)
def m_report_null_objection(self, obj, description, count, action):
    m_action = ''
    m_addon = ''
    m_obj_name = 'uvm_top'
    if obj is not None:
        m_obj_name = obj.get_full_name()
    if action == 'raise' or action == 'drop':
        if count != 1:
            m_action = '{} {} objections'.format(action, count)
        else:
            m_action = '{} an objection'.format(action)
    elif action == 'get_objection_count':
        m_action = 'call get_objection_count'
    if self.get_phase_type() == UVM_PHASE_IMP:
        m_addon = ' (This is a UVM_PHASE_IMP, you have to query the ' + 'schedule to find the UVM_PHASE_NODE)'
    uvm_report_error('UVM/PH/NULL_OBJECTION', "'{}' attempted to {} on '{}', however '{}' is not a task-based phase node! {}".format(m_obj_name, m_action, self.get_name(), self.get_name(), m_addon))


@contract('UVMPhase.get_objection')
def get_objection(self):
    return self.phase_done


@contract('UVMPhase.clear', ret=False)
def clear(self, state=UVM_PHASE_DORMANT):
    self.set_state(state)
    self.m_phase_proc = None
    if self.phase_done is not None:
        self.phase_done.clear(self)


@contract('UVMPhase.clear_successors', ret=False)
def clear_successors(self, state=UVM_PHASE_DORMANT, end_state=None):
    if self == end_state:
        return
    self.clear(state)
    for succ in self.m_successors:
        succ.clear_successors(state, end_state)


@contract('UVMPhase.end_prematurely', ret=False)
def end_prematurely(self):
    self.m_premature_end = 1


@contract('UVMPhase.get_jump_target')
def get_jump_target(self):
    return self.m_jump_phase


@contract('UVMPhase.get_ready_to_end_count')
def get_ready_to_end_count(self):
    return self.m_ready_to_end_count


@contract('UVMPhaseStateChange.__init__', ret=False)
def __init__(self, name='uvm_phase_state_change'):
    UVMObject.__init__(self, name)
    self.m_phase = None
    self.m_prev_state = None
    self.m_jump_to = None


@contract('UVMPhaseStateChange.get_state')
def get_state(self):
    return self.m_phase.get_state()


@contract('UVMPhaseStateChange.get_prev_state')
def get_prev_state(self):
    return self.m_prev_state


@contract('UVMPhaseStateChange.jump_to')
def jump_to(self):
    return self.m_jump_to

