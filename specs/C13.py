
@contract('UVMTopdownPhase.traverse', ret=False)
def traverse(self, comp, phase, state):
    phase_domain = phase.get_domain()
    comp_domain = comp.get_domain()
    from .uvm_domain import UVMDomain
    if phase_domain == UVMDomain.get_common_domain() or phase_domain == comp_domain:
        if state == UVM_PHASE_STARTED:
            comp.m_current_phase = phase
            comp.m_apply_verbosity_settings(phase)
            comp.phase_started(phase)
        elif state == UVM_PHASE_EXECUTING:
            if not (phase.get_name() == 'build' and comp.m_build_done):
                ph = self
                comp.m_phasing_active += 1
                if self in comp.m_phase_imps:
                    ph = comp.m_phase_imps[self]
                ph.execute(comp, phase)
                comp.m_phasing_active -= 1
        elif state == UVM_PHASE_READY_TO_END:
            comp.phase_ready_to_end(phase)
        elif state == UVM_PHASE_ENDED:
            comp.phase_ended(phase)
            comp.m_current_phase = None
        else:
            uvm_report_fatal('PH_BADEXEC', '')
    for child in comp.m_children_ordered:
        self.traverse(child, phase, state)


@contract('UVMTopdownPhase.execute', ret=False)
def execute(self, comp, phase):
    comp.m_current_phase = phase
    self.exec_func(comp, phase)


@contract('UVMBottomupPhase.traverse', ret=False)
def traverse(self, comp, phase, state):
    phase_domain = phase.get_domain()
    comp_domain = comp.get_domain()
    for child in comp.m_children_ordered:
        self.traverse(child, phase, state)
    if phase_domain == UVMDomain.get_common_domain() or phase_domain == comp_domain:
        if state == UVM_PHASE_STARTED:
            comp.m_current_phase = phase
            comp.m_apply_verbosity_settings(phase)
            comp.phase_started(phase)
        elif state == UVM_PHASE_EXECUTING:
            ph = self
            if self in comp.m_phase_imps:
                ph = comp.m_phase_imps[self]
            ph.execute(comp, phase)
        elif state == UVM_PHASE_READY_TO_END:
            comp.phase_ready_to_end(phase)
        elif state == UVM_PHASE_ENDED:
            comp.phase_ended(phase)
            comp.m_current_phase = None
        else:
            uvm_report_fatal('PH_BADEXEC', '')


@contract('UVMBottomupPhase.execute', ret=False)
def execute(self, comp, phase):
    comp.m_current_phase = phase
    self.exec_func(comp, phase)


@contract('UVMTaskPhase.traverse', ret=False)
async def traverse(self, comp, phase, state):
    phase.m_num_procs_not_yet_returned = 0
    await self.m_traverse(comp, phase, state)


@contract('UVMTaskPhase.m_traverse', ret=False)
async def m_traverse(self, comp, phase, state):
    phase_domain = phase.get_domain()
    comp_domain = comp.get_domain()
    children = []
    comp.get_children(children)
    for child in children:
        await self.m_traverse(child, phase, state)
    from .uvm_domain import UVMDomain
    if phase_domain == UVMDomain.get_common_domain() or phase_domain == comp_domain:
        if state == UVM_PHASE_STARTED:
            comp.m_current_phase = phase
            comp.m_apply_verbosity_settings(phase)
            comp.phase_started(phase)
            if hasattr(comp, 'm_sequencer_id'):
                seqr = comp
                await seqr.start_phase_sequence(phase)
        elif state == UVM_PHASE_EXECUTING:
            ph = self
            if self in comp.m_phase_imps:
                ph = comp.m_phase_imps[self]
            await ph.execute(comp, phase)
        elif state == UVM_PHASE_READY_TO_END:
            comp.phase_ready_to_end(phase)
        elif state == UVM_PHASE_ENDED:
            if hasattr(comp, 'm_sequencer_id'):
                seqr = comp
                seqr.stop_phase_sequence(phase)
            comp.phase_ended(phase)
            comp.m_current_phase = None
        else:
            uvm_report_fatal('PH_BADEXEC', '')


@contract('UVMTaskPhase.execute', ret=False)
async def execute(self, comp, phase):
    proc = cocotb.start_soon(self._execute_fork_join_none(comp, phase))
    await uvm_zero_delay()


@contract('UVMTaskPhase._execute_fork_join_none', ret=False)
async def _execute_fork_join_none(self, comp, phase):
    phase.m_num_procs_not_yet_returned += 1
    await self.exec_task(comp, phase)
    phase.m_num_procs_not_yet_returned -= 1


@contract('UVMComponent.set_phase_imp', ret=False)
def set_phase_imp(self, phase, imp, hier=1):
    self.m_phase_imps[phase] = imp
    if hier:
        for c in self.m_children:
            self.m_children[c].set_phase_imp(phase, imp, hier)


@contract('UVMComponent.get_first_child')
def get_first_child(self):
    self.child_ptr = 0
    if len(self.m_children_ordered) > 0:
        return self.m_children_ordered[0]
    return None


@contract('UVMComponent.get_next_child')
def get_next_child(self):
    self.child_ptr += 1
    if self.child_ptr < len(self.m_children_ordered):
        return self.m_children_ordered[self.child_ptr]
    return None


@contract('UVMComponent.has_first_child', ret='bool')
def has_first_child(self):
    return len(self.m_children_ordered) > 0


@contract('UVMComponent.get_children', ret=False)
def get_children(self, children):
    for name in self.m_children:
        children.append(self.m_children[name])


@contract('UVMComponent.get_num_children')
def get_num_children(self):
    return len(self.m_children_ordered)


@contract('UVMComponent.has_child', ret='bool')
def has_child(self, name):
    return name in self.m_children


@contract('UVMComponent.get_child')
def get_child(self, name):
    if name in self.m_children:
        return self.m_children[name]


@contract('UVMComponent.build_phase', ret=False)
def build_phase(self, phase):
    self.m_build_done = True
    self.build()


@contract('UVMComponent.build', ret=False)
def build(self):
    self.m_build_done = True
    self.apply_config_settings(UVMComponent.print_config_matches)
    if self.m_phasing_active == 0:
        uvm_warning('UVM_DEPRECATED', '')

