
@contract('UVMBuildPhase.__init__', ret=False)
def __init__(self, name='build'):
    UVMTopdownPhase.__init__(self, name)


@contract('UVMBuildPhase.exec_func', ret=False)
def exec_func(self, comp, phase):
    comp.build_phase(phase)


@contract('UVMBuildPhase.get')
def get(cls):
    if UVMBuildPhase.m_inst is None:
        UVMBuildPhase.m_inst = UVMBuildPhase()
    return UVMBuildPhase.m_inst


@contract('UVMBuildPhase.get_type_name')
def get_type_name(self):
    return UVMBuildPhase.type_name


@contract('UVMConnectPhase.__init__', ret=False)
def __init__(self, name='connect'):
    UVMBottomupPhase.__init__(self, name)


@contract('UVMConnectPhase.exec_func', ret=False)
def exec_func(self, comp, phase):
    comp.connect_phase(phase)


@contract('UVMConnectPhase.get')
def get(cls):
    if UVMConnectPhase.m_inst is None:
        UVMConnectPhase.m_inst = UVMConnectPhase()
    return UVMConnectPhase.m_inst


@contract('UVMConnectPhase.get_type_name')
def get_type_name(self):
    return UVMConnectPhase.type_name


@contract('UVMEndOfElaborationPhase.__init__', ret=False)
def __init__(self, name='end_of_elaboration'):
    UVMBottomupPhase.__init__(self, name)


@contract('UVMEndOfElaborationPhase.exec_func', ret=False)
def exec_func(self, comp, phase):
    comp.end_of_elaboration_phase(phase)


@contract('UVMEndOfElaborationPhase.get')
def get(cls):
    if UVMEndOfElaborationPhase.m_inst is None:
        UVMEndOfElaborationPhase.m_inst = UVMEndOfElaborationPhase()
    return UVMEndOfElaborationPhase.m_inst


@contract('UVMEndOfElaborationPhase.get_type_name')
def get_type_name(self):
    return UVMEndOfElaborationPhase.type_name


@contract('UVMStartofSimulationPhase.__init__', ret=False)
def __init__(self, name='start_of_simulation'):
    UVMBottomupPhase.__init__(self, name)


@contract('UVMStartofSimulationPhase.exec_func', ret=False)
def exec_func(self, comp, phase):
    comp.start_of_simulation_phase(phase)


@contract('UVMStartofSimulationPhase.get')
def get(cls):
    if UVMStartofSimulationPhase.m_inst is None:
        UVMStartofSimulationPhase.m_inst = UVMStartofSimulationPhase()
    return UVMStartofSimulationPhase.m_inst


@contract('UVMStartofSimulationPhase.get_type_name')
def get_type_name(self):
    return UVMStartofSimulationPhase.type_name


@contract('UVMExtractPhase.__init__', ret=False)
def __init__(self, name='extract'):
    UVMBottomupPhase.__init__(self, name)


@contract('UVMExtractPhase.exec_func', ret=False)
def exec_func(self, comp, phase):
    comp.extract_phase(phase)


@contract('UVMExtractPhase.get')
def get(cls):
    if UVMExtractPhase.m_inst is None:
        UVMExtractPhase.m_inst = UVMExtractPhase()
    return UVMExtractPhase.m_inst


@contract('UVMExtractPhase.get_type_name')
def get_type_name(self):
    return UVMExtractPhase.type_name


@contract('UVMCheckPhase.__init__', ret=False)
def __init__(self, name='check'):
    UVMBottomupPhase.__init__(self, name)


@contract('UVMCheckPhase.exec_func', ret=False)
def exec_func(self, comp, phase):
    comp.check_phase(phase)


@contract('UVMCheckPhase.get')
def get(cls):
    if UVMCheckPhase.m_inst is None:
        UVMCheckPhase.m_inst = UVMCheckPhase()
    return UVMCheckPhase.m_inst


@contract('UVMCheckPhase.get_type_name')
def get_type_name(self):
    return UVMCheckPhase.type_name


@contract('UVMReportPhase.__init__', ret=False)
def __init__(self, name='report'):
    UVMBottomupPhase.__init__(self, name)


@contract('UVMReportPhase.exec_func', ret=False)
def exec_func(self, comp, phase):
    comp.report_phase(phase)


@contract('UVMReportPhase.get')
def get(cls):
    if UVMReportPhase.m_inst is None:
        UVMReportPhase.m_inst = UVMReportPhase()
    return UVMReportPhase.m_inst


@contract('UVMReportPhase.get_type_name')
def get_type_name(self):
    return UVMReportPhase.type_name


@contract('UVMFinalPhase.__init__', ret=False)
def __init__(self, name='final'):
    UVMTopdownPhase.__init__(self, name)


@contract('UVMFinalPhase.exec_func', ret=False)
def exec_func(self, comp, phase):
    comp.final_phase(phase)


@contract('UVMFinalPhase.get')
def get(cls):
    if UVMFinalPhase.m_inst is None:
        UVMFinalPhase.m_inst = UVMFinalPhase()
    return UVMFinalPhase.m_inst


@contract('UVMFinalPhase.get_type_name')
def get_type_name(self):
    return UVMFinalPhase.type_name


@contract('UVMRunPhase.__init__', ret=False)
def __init__(self, name='run'):
    UVMTaskPhase.__init__(self, name)


@contract('UVMRunPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    comp.m_run_process = cocotb.start_soon(comp.run_phase(phase))
    await comp.m_run_process


@contract('UVMRunPhase.get')
def get(cls):
    if UVMRunPhase.m_inst is None:
        UVMRunPhase.m_inst = UVMRunPhase()
    return UVMRunPhase.m_inst


@contract('UVMRunPhase.get_type_name')
def get_type_name(self):
    return UVMRunPhase.type_name


@contract('UVMPreResetPhase.__init__', ret=False)
def __init__(self, name='pre_reset'):
    super().__init__(name)


@contract('UVMPreResetPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.pre_reset_phase(phase)


@contract('UVMPreResetPhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMPreResetPhase()
    return cls.m_inst


@contract('UVMPreResetPhase.get_type_name')
def get_type_name(self):
    return UVMPreResetPhase.type_name


@contract('UVMResetPhase.__init__', ret=False)
def __init__(self, name='reset'):
    super().__init__(name)


@contract('UVMResetPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.reset_phase(phase)


@contract('UVMResetPhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMResetPhase()
    return cls.m_inst


@contract('UVMResetPhase.get_type_name')
def get_type_name(self):
    return UVMResetPhase.type_name


@contract('UVMPostResetPhase.__init__', ret=False)
def __init__(self, name='post_reset'):
    super().__init__(name)


@contract('UVMPostResetPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.post_reset_phase(phase)


@contract('UVMPostResetPhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMPostResetPhase()
    return cls.m_inst


@contract('UVMPostResetPhase.get_type_name')
def get_type_name(self):
    return UVMPostResetPhase.type_name


@contract('UVMPreConfigurePhase.__init__', ret=False)
def __init__(self, name='pre_configure'):
    super().__init__(name)


@contract('UVMPreConfigurePhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.pre_configure_phase(phase)


@contract('UVMPreConfigurePhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMPreConfigurePhase()
    return cls.m_inst


@contract('UVMPreConfigurePhase.get_type_name')
def get_type_name(self):
    return UVMPreConfigurePhase.type_name


@contract('UVMConfigurePhase.__init__', ret=False)
def __init__(self, name='configure'):
    super().__init__(name)


@contract('UVMConfigurePhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.configure_phase(phase)


@contract('UVMConfigurePhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMConfigurePhase()
    return cls.m_inst


@contract('UVMConfigurePhase.get_type_name')
def get_type_name(self):
    return UVMConfigurePhase.type_name


@contract('UVMPostConfigurePhase.__init__', ret=False)
def __init__(self, name='post_configure'):
    super().__init__(name)


@contract('UVMPostConfigurePhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.post_configure_phase(phase)


@contract('UVMPostConfigurePhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMPostConfigurePhase()
    return cls.m_inst


@contract('UVMPostConfigurePhase.get_type_name')
def get_type_name(self):
    return UVMPostConfigurePhase.type_name


@contract('UVMPreMainPhase.__init__', ret=False)
def __init__(self, name='pre_main'):
    super().__init__(name)


@contract('UVMPreMainPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.pre_main_phase(phase)


@contract('UVMPreMainPhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMPreMainPhase()
    return cls.m_inst


@contract('UVMPreMainPhase.get_type_name')
def get_type_name(self):
    return UVMPreMainPhase.type_name


@contract('UVMMainPhase.__init__', ret=False)
def __init__(self, name='main'):
    super().__init__(name)


@contract('UVMMainPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.main_phase(phase)


@contract('UVMMainPhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMMainPhase()
    return cls.m_inst


@contract('UVMMainPhase.get_type_name')
def get_type_name(self):
    return UVMMainPhase.type_name


@contract('UVMPostMainPhase.__init__', ret=False)
def __init__(self, name='post_main'):
    super().__init__(name)


@contract('UVMPostMainPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.post_main_phase(phase)


@contract('UVMPostMainPhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMPostMainPhase()
    return cls.m_inst


@contract('UVMPostMainPhase.get_type_name')
def get_type_name(self):
    return UVMPostMainPhase.type_name


@contract('UVMPreShutdownPhase.__init__', ret=False)
def __init__(self, name='pre_shutdown'):
    super().__init__(name)


@contract('UVMPreShutdownPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.pre_shutdown_phase(phase)


@contract('UVMPreShutdownPhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMPreShutdownPhase()
    return cls.m_inst


@contract('UVMPreShutdownPhase.get_type_name')
def get_type_name(self):
    return UVMPreShutdownPhase.type_name


@contract('UVMShutdownPhase.__init__', ret=False)
def __init__(self, name='shutdown'):
    super().__init__(name)


@contract('UVMShutdownPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.shutdown_phase(phase)


@contract('UVMShutdownPhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMShutdownPhase()
    return cls.m_inst


@contract('UVMShutdownPhase.get_type_name')
def get_type_name(self):
    return UVMShutdownPhase.type_name


@contract('UVMPostShutdownPhase.__init__', ret=False)
def __init__(self, name='post_shutdown'):
    super().__init__(name)


@contract('UVMPostShutdownPhase.exec_task', ret=False)
async def exec_task(self, comp, phase):
    await comp.post_shutdown_phase(phase)


@contract('UVMPostShutdownPhase.get')
def get(cls):
    if cls.m_inst is None:
        cls.m_inst = UVMPostShutdownPhase()
    return cls.m_inst


@contract('UVMPostShutdownPhase.get_type_name')
def get_type_name(self):
    return UVMPostShutdownPhase.type_name


@contract('UVMDomain.get_common_domain')
def get_common_domain(cls):
    domain = None
    schedule = None
    if UVMDomain.m_common_domain is not None:
        return UVMDomain.m_common_domain
    domain = UVMDomain('common')
    from .uvm_common_phases import UVMBuildPhase, UVMConnectPhase, UVMEndOfElaborationPhase, UVMStartofSimulationPhase, UVMRunPhase, UVMExtractPhase, UVMCheckPhase, UVMReportPhase, UVMFinalPhase
    domain.add(UVMBuildPhase.get())
    domain.add(UVMConnectPhase.get())
    domain.add(UVMEndOfElaborationPhase.get())
    domain.add(UVMStartofSimulationPhase.get())
    domain.add(UVMRunPhase.get())
    domain.add(UVMExtractPhase.get())
    domain.add(UVMCheckPhase.get())
    domain.add(UVMReportPhase.get())
    domain.add(UVMFinalPhase.get())
    UVMDomain.m_domains['common'] = domain
    build = UVMBuildPhase.get()
    build_ph = domain.find(build)
    check_phase_exists('build', build_ph)
    connect_ph = domain.find(UVMConnectPhase.get())
    check_phase_exists('connect', connect_ph)
    end_of_elaboration_ph = domain.find(UVMEndOfElaborationPhase.get())
    check_phase_exists('end_of_elaboration', end_of_elaboration_ph)
    start_of_simulation_ph = domain.find(UVMStartofSimulationPhase.get())
    check_phase_exists('start_of_simulation', start_of_simulation_ph)
    run_ph = domain.find(UVMRunPhase.get())
    check_phase_exists('run', run_ph)
    extract_ph = domain.find(UVMExtractPhase.get())
    check_phase_exists('extract', extract_ph)
    check_ph = domain.find(UVMCheckPhase.get())
    check_phase_exists('check', check_ph)
    report_ph = domain.find(UVMReportPhase.get())
    check_phase_exists('report', report_ph)
    UVMDomain.m_common_domain = domain
    domain = UVMDomain.get_uvm_domain()
    UVMDomain.m_common_domain.add(domain, with_phase=UVMDomain.m_common_domain.find(UVMRunPhase.get()))
    return UVMDomain.m_common_domain


@contract('UVMDomain.add_uvm_phases', ret=False)
def add_uvm_phases(cls, schedule):
    schedule.add(UVMPreResetPhase.get())
    schedule.add(UVMResetPhase.get())
    schedule.add(UVMPostResetPhase.get())
    schedule.add(UVMPreConfigurePhase.get())
    schedule.add(UVMConfigurePhase.get())
    schedule.add(UVMPostConfigurePhase.get())
    schedule.add(UVMPreMainPhase.get())
    schedule.add(UVMMainPhase.get())
    schedule.add(UVMPostMainPhase.get())
    schedule.add(UVMPreShutdownPhase.get())
    schedule.add(UVMShutdownPhase.get())
    schedule.add(UVMPostShutdownPhase.get())


@contract('UVMDomain.get_uvm_domain')
def get_uvm_domain(cls):
    if UVMDomain.m_uvm_domain is None:
        UVMDomain.m_uvm_domain = UVMDomain('uvm')
        UVMDomain.m_uvm_schedule = UVMPhase('uvm_sched', UVM_PHASE_SCHEDULE)
        UVMDomain.add_uvm_phases(UVMDomain.m_uvm_schedule)
        UVMDomain.m_uvm_domain.add(UVMDomain.m_uvm_schedule)
    return UVMDomain.m_uvm_domain


@contract('UVMDomain.get_uvm_schedule')
def get_uvm_schedule(cls):
    cls.get_uvm_domain()
    return cls.m_uvm_schedule


@contract('UVMDomain.get_domains')
def get_domains(cls, domains=None):
    if domains is not None:
        raise Exception('get_domains() you must capture the retval')
    return cls.m_domains


@contract('UVMDomain.__init__', report_calls=1, ret=False)
def __init__(self, name):
    super().__init__(name, UVM_PHASE_DOMAIN)
    if name in UVMDomain.m_domains:
        uvm_error('UNIQDOMNAM', "Domain created with non-unique name '{}'".format(name))
    UVMDomain.m_domains[name] = self


@contract('UVMComponent.set_domain', ret=False)
def set_domain(self, domain, hier=True):
    self.m_domain = domain
    self.define_domain(domain)
    if hier is True:
        for c in self.m_children:
            self.m_children[c].set_domain(domain)


@contract('UVMComponent.get_domain')
def get_domain(self):
    return self.m_domain


@contract('UVMComponent.define_domain', ret=False)
def define_domain(self, domain):
    from .uvm_phase import UVMPhase
    from .uvm_common_phases import UVMRunPhase
    schedule = None
    schedule = domain.find_by_name('uvm_sched')
    if schedule is None:
        schedule = UVMPhase('uvm_sched', UVM_PHASE_SCHEDULE)
        UVMDomain.add_uvm_phases(schedule)
        domain.add(schedule)
        common = UVMDomain.get_common_domain()
        if common.find(domain, 0) is None:
            common.add(domain, with_phase=UVMRunPhase.get())


@contract('UVMTopdownPhase.__init__', ret=False)
def __init__(self, name):
    UVMPhase.__init__(self, name, UVM_PHASE_IMP)


@contract('UVMBottomupPhase.__init__', ret=False)
def __init__(self, name):
    UVMPhase.__init__(self, name, UVM_PHASE_IMP)


@contract('UVMTaskPhase.__init__', ret=False)
def __init__(self, name):
    UVMPhase.__init__(self, name, UVM_PHASE_IMP)
    self.m_is_task_phase = True

