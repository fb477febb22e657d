
@contract('UVMComponent.__init__')
def __init__(self, name, parent):
    super().__init__(name)
    self.m_children = {}
    self.print_enabled = True
    self.m_current_phase = None
    self.m_parent = None
    self.m_children_by_handle = {}
    self.m_children_ordered = []
    self.m_build_done = False
    self.m_phasing_active = 0
    self.recording_detail = UVM_NONE
    self.m_name = ''
    self.m_verbosity_settings = []
    self.m_main_stream = None
    self.m_phase_imps = {}
    self.child_ptr = -1
    self.m_tr_h = {}
    self.m_run_process = None
    self.tr_database = None
    self.m_domain = None
    self.m_phase_process = None
    self.event_pool = UVMEventPool('evt_pool')
    self.m_streams = {}
    if parent is None and name == '__top__':
        self.set_name('')
        return
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    top = cs.get_root()
    common = UVMDomain.get_common_domain()
    bld = common.find(UVMBuildPhase.get())
    if bld is None:
        uvm_fatal('COMP/INTERNAL', '')
    if bld.get_state() == UVM_PHASE_DONE:
        parent_name = top.get_full_name()
        if parent is not None:
            parent_name = parent.get_full_name()
        uvm_fatal('ILLCRT', '')
    if name == '':
        name = 'COMP_' + str(UVMObject.m_inst_count)
    if parent == self:
        uvm_fatal('THISPARENT', '')
    if parent is None:
        parent = top
    if self.uvm_report_enabled(UVM_MEDIUM + 1, UVM_INFO, 'NEWCOMP'):
        nname = parent.get_full_name()
        if parent == top:
            nname = 'uvm_top'
    if parent.has_child(name) and self != parent.get_child(name):
        if parent == top:
            error_str = "Name '" + name + "' is not unique to other top-level " + 'instances. If parent is a module, build a unique name by combining the ' + "the module name and component name: $sformatf('%m.%s','" + name + "')."
            uvm_fatal('CLDEXT', '')
        else:
            uvm_fatal('CLDEXT', '')
        return
    self.m_parent = parent
    self.set_name(name)
    if self.m_parent.m_add_child(self) is False:
        self.m_parent = None
    self.m_domain = parent.m_domain
    self.reseed()
    arr = []
    from .uvm_config_db import UVMConfigDb
    if UVMConfigDb.get(self, '', 'recording_detail', arr):
        self.recording_detail = arr[0]
    self.m_rh.set_name(self.get_full_name())
    self.set_report_verbosity_level(parent.get_report_verbosity_level())
    self.m_set_cl_msg_args()


@contract('UVMComponent.get_parent')
def get_parent(self):
    return self.m_parent


@contract('UVMComponent.get_full_name')
def get_full_name(self):
    if self.m_name == '':
        return self.get_name()
    else:
        return self.m_name


@contract('UVMComponent.get_children')
def get_children(self, children):
    for name in self.m_children:
        children.append(self.m_children[name])


@contract('UVMComponent.get_child')
def get_child(self, name):
    if name in self.m_children:
        return self.m_children[name]


@contract('UVMComponent.get_next_child')
def get_next_child(self):
    self.child_ptr += 1
    if self.child_ptr < len(self.m_children_ordered):
        return self.m_children_ordered[self.child_ptr]
    return None


@contract('UVMComponent.get_first_child')
def get_first_child(self):
    self.child_ptr = 0
    if len(self.m_children_ordered) > 0:
        return self.m_children_ordered[0]
    return None


@contract('UVMComponent.get_num_children')
def get_num_children(self):
    return len(self.m_children_ordered)


@contract('UVMComponent.has_child')
def has_child(self, name):
    return name in self.m_children


@contract('UVMComponent.has_first_child')
def has_first_child(self):
    return len(self.m_children_ordered) > 0


@contract('UVMComponent.has_next_child')
def has_next_child(self):
    return len(self.m_children_ordered) > self.child_ptr + 1


@contract('UVMComponent.set_name')
def set_name(self, name):
    if self.m_name != '':
        uvm_error('INVSTNM', '')
        return
    super().set_name(name)
    self.m_set_full_name()


@contract('UVMComponent.lookup')
def lookup(self, name):
    leaf = ''
    remainder = ''
    comp = None
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    top = cs.get_root()
    comp = self
    [leaf, remainder] = self.m_extract_name(name, leaf, remainder)
    if leaf == '':
        comp = top
        [leaf, remainder] = self.m_extract_name(remainder, leaf, remainder)
    if comp.has_child(leaf) is False:
        uvm_warning('Lookup Error', '')
        return None
    if remainder != '':
        return comp.m_children[leaf].lookup(remainder)
    return comp.m_children[leaf]


@contract('UVMComponent.get_depth')
def get_depth(self):
    if self.m_name == '':
        return 0
    get_depth = 1
    for i in range(len(self.m_name)):
        if self.m_name[i] == '.':
            get_depth += 1
    return get_depth


@contract('UVMComponent.m_add_child')
def m_add_child(self, child):
    if child.get_name() in self.m_children:
        old_child = self.m_children[child.get_name()]
        uvm_warning('BDCLD', '')
        return False
    self.m_children[child.get_name()] = child
    self.m_children_ordered.append(child)
    self.m_children_by_handle[child] = child
    return True


@contract('UVMComponent.m_set_full_name')
def m_set_full_name(self):
    from .uvm_root import UVMRoot
    top = []
    if sv.cast(top, self.m_parent, UVMRoot) or self.m_parent is None:
        self.m_name = self.get_name()
    else:
        self.m_name = self.m_parent.get_full_name() + '.' + self.get_name()
    for c in self.m_children:
        tmp = self.m_children[c]
        tmp.m_set_full_name()


@contract('UVMComponent.m_extract_name')
def m_extract_name(self, name, leaf, remainder):
    _len = len(name)
    i = 0
    for i in range(len(name)):
        if name[i] == '.':
            break
    if i == _len - 1:
        leaf = name
        remainder = ''
        return [leaf, remainder]
    leaf = name[0:i]
    remainder = name[i + 1:_len]
    return [leaf, remainder]


@contract('UVMComponent.do_resolve_bindings')
def do_resolve_bindings(self):
    for s in self.m_children:
        self.m_children[s].do_resolve_bindings()
    self.resolve_bindings()


@contract('UVMComponent.do_flush')
def do_flush(self):
    for c in self.m_children:
        self.m_children[c].do_flush()
    self.flush()


@contract('UVMComponent.set_domain')
def set_domain(self, domain, hier=True):
    self.m_domain = domain
    self.define_domain(domain)
    if hier is True:
        for c in self.m_children:
            self.m_children[c].set_domain(domain)


@contract('UVMComponent.get_domain')
def get_domain(self):
    return self.m_domain


@contract('UVMComponent.define_domain')
def define_domain(self, domain):
    from .uvm_phase import UVMPhase
    from .uvm_common_phases import UVMRunPhase
    schedule = None
    schedule = domain.find_by_name('uvm_sched')
    if schedule is None:
        schedule = UVMPhase('uvm_sched', UVM_PHASE_SCHEDULE)
        UVMDomain.add_uvm_phases(schedule)
        domain.add(schedule)
        common = UVMDomain.get_common_domain()
        if common.find(domain, 0) is None:
            common.add(domain, with_phase=UVMRunPhase.get())


@contract('UVMComponent.set_phase_imp')
def set_phase_imp(self, phase, imp, hier=1):
    self.m_phase_imps[phase] = imp
    if hier:
        for c in self.m_children:
            self.m_children[c].set_phase_imp(phase, imp, hier)


@contract('UVMComponent.create_component')
def create_component(self, requested_type_name, name):
    factory = _get_factory()
    return factory.create_component_by_name(requested_type_name, self.get_full_name(), name, self)


@contract('UVMComponent.create_object')
def create_object(self, requested_type_name, name=''):
    factory = _get_factory()
    return factory.create_object_by_name(requested_type_name, self.get_full_name(), name)


@contract('UVMRoot.__init__')
def __init__(self):
    UVMComponent.__init__(self, '__top__', None)
    self.clp = UVMCmdlineProcessor.get_inst()
    self.finish_on_completion = True
    self.m_phase_all_done = False
    self.m_phase_all_done_event = Event('phase_all_done_event')
    self.enable_print_topology = False
    self.m_rh.set_name('reporter')
    self.report_header()
    self.m_check_verbosity()
    self.top_levels = []
    self.phase_timeout = UVM_DEFAULT_TIMEOUT
    self._dut = None


@contract('UVMRoot.get')
def get(cls):
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    return cs.get_root()


@contract('UVMRoot.m_uvm_get_root', impure=['get_common_domain'])
def m_uvm_get_root(cls):
    from .uvm_domain import UVMDomain
    if UVMRoot.m_inst is None:
        UVMRoot.m_inst = UVMRoot()
    if cls.m_called_get_common_domain is False:
        cls.m_called_get_common_domain = True
        UVMDomain.get_common_domain()
        UVMRoot.m_inst.m_domain = UVMDomain.get_uvm_domain()
        cls.m_called_get_common_domain = False
    return UVMRoot.m_inst


@contract('UVMRoot.get_uvm_testname')
def get_uvm_testname(self):
    test_names = []
    test_name_count = self.clp.get_arg_values('+UVM_TESTNAME=', test_names)
    if len(test_names) > 0:
        return test_names[0]
    return ''


@contract('UVMRoot.run_test', report_calls=1)
async def run_test(self, test_name='', dut=None):
    uvm_debug(self, 'run_test', 'Called with testname |' + test_name + '|')
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    factory = cs.get_factory()
    testname_plusarg = False
    test_names = []
    msg = ''
    uvm_test_top = None
    self._dut = dut
    uvm_debug(self, 'run_test', 'Calling m_init_objections')
    await UVMObjection.m_init_objections()
    test_name_count = self.clp.get_arg_values('+UVM_TESTNAME=', test_names)
    uvm_debug(self, 'run_test', 'Found testnames from cmdline: ' + str(test_names))
    if test_name_count > 0:
        test_name = test_names[0]
        uvm_debug(self, 'run_test', 'Found test name %s' % test_name)
        testname_plusarg = True
    if test_name_count > 1:
        test_list = ''
        sep = ''
        for i in range(0, len(test_names)):
            if i != 0:
                sep = ', '
            test_list = test_list + sep + test_names[i]
        self.uvm_report_warning('MULTTST', MULTI_TESTS.format(test_name_count, test_name, test_list), UVM_NONE)
    uvm_debug(self, 'run_test', 'Running now test ' + test_name)
    if test_name != '':
        if 'uvm_test_top' in self.m_children:
            uvm_fatal('TTINST', 'An uvm_test_top already exists via a previous call to run_test')
        await uvm_zero_delay()
        uvm_debug(self, 'run_test', 'factory.create in UVMRoot testname ' + test_name)
        uvm_test_top = factory.create_component_by_name(test_name, '', 'uvm_test_top', None)
        if uvm_test_top is None:
            if testname_plusarg:
                msg = 'command line +UVM_TESTNAME=' + test_name
            else:
                msg = 'call to run_test(' + test_name + ')'
            uvm_fatal('INVTST', 'Requested test from ' + msg + ' not found.')
    await uvm_zero_delay()
    if len(self.m_children) == 0:
        uvm_fatal('NOCOMP', 'No components instantiated. You must either instantiate' + ' at least one component before calling run_test or use' + ' run_test to do so. To run a test using run_test,' + ' use +UVM_TESTNAME or supply the test name in' + ' the argument to run_test(). Exiting simulation.')
        return
    self.running_test_msg(test_name, uvm_test_top)
    uvm_debug(self, 'run_test', 'Forking now all phases using m_run_phases')
    cocotb.start_soon(UVMPhase.m_run_phases())
    uvm_debug(self, 'run_test', 'After phase-fork executing')
    await uvm_zero_delay()
    uvm_debug(self, 'run_test', 'Awaiting all phases to complete')
    await self.wait_all_phases_done()
    uvm_debug(self, 'run_test', 'All phases are done now')
    l_rs = get_report_server()
    l_rs.report_summarize()
    if self.finish_on_completion:
        self.uvm_report_info('FINISH', '$finish was reached in run_test()', UVM_NONE)


@contract('UVMRoot.find', report_calls=1)
def find(self, comp_match):
    comp_list = []
    self.find_all(comp_match, comp_list)
    if len(comp_list) > 1:
        uvm_report_warning('MMATCH', sv.sformatf("Found %0d components matching '%s'. Returning first match, %0s.", len(comp_list), comp_match, comp_list[0].get_full_name()), UVM_NONE)
    if len(comp_list) == 0:
        uvm_report_warning('CMPNFD', "Component matching '" + comp_match + "' was not found in the list of uvm_components", UVM_NONE)
        return None
    return comp_list[0]


@contract('UVMRoot.find_all', impure=['m_find_all_recurse'])
def find_all(self, comp_match, comps, comp=None):
    if comp is None:
        comp = self
    self.m_find_all_recurse(comp_match, comps, comp)


@contract('UVMRoot.m_find_all_recurse', impure=['m_find_all_recurse'])
def m_find_all_recurse(self, comp_match, comps, comp=None):
    child_comp = None
    if comp.has_first_child():
        child_comp = comp.get_first_child()
        while True:
            self.m_find_all_recurse(comp_match, comps, child_comp)
            if not comp.has_next_child():
                break
            else:
                child_comp = comp.get_next_child()
    if uvm_is_match(comp_match, comp.get_full_name()) and comp.get_name() != '':
        comps.append(comp)


@contract('UVMRoot.m_add_child')
def m_add_child(self, child):
    if super().m_add_child(child):
        if child.get_name() == 'uvm_test_top':
            self.top_levels.insert(0, child)
        else:
            self.top_levels.append(child)
        return True
    else:
        return False


@contract('UVMRoot.build_phase')
def build_phase(self, phase):
    UVMComponent.build_phase(self, phase)
    self.m_set_cl_msg_args()
    self.m_do_verbosity_settings()
    self.m_do_timeout_settings()
    self.m_do_factory_settings()
    self.m_do_config_settings()
    self.m_do_max_quit_settings()
    self.m_do_dump_args()


@contract('UVMRoot.set_timeout')
def set_timeout(self, timeout, overridable=1):
    if UVMRoot.m_uvm_timeout_overridable == 0:
        return
    UVMRoot.m_uvm_timeout_overridable = overridable
    self.phase_timeout = timeout


@contract('UVMRoot.phase_started')
def phase_started(self, phase):
    eof_elab_phase = UVMEndOfElaborationPhase.get()
    if phase.get_name() == eof_elab_phase.get_name():
        self.do_resolve_bindings()
        if self.enable_print_topology:
            self.print_topology()
        srvr = UVMReportServer.get_server()
        if srvr.get_severity_count(UVM_ERROR) > 0:
            self.uvm_report_fatal('BUILDERR', '', UVM_NONE)


@contract('UVMRoot.wait_all_phases_done')
async def wait_all_phases_done(self):
    await self.m_phase_all_done_event.wait()


@contract('UVMRoot.run_phase')
async def run_phase(self, phase):
    for action in UVMComponent.m_uvm_applied_cl_action:
        if not action.used:
            uvm_warning('INVLCMDARGS', '')
    for sev in UVMComponent.m_uvm_applied_cl_sev:
        if not sev.used:
            uvm_warning('INVLCMDARGS', '')
    if sv.time() > 0:
        uvm_fatal('RUNPHSTIME', '')


@contract('UVMRoot.final_phase')
def final_phase(self, phase):
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    tr_db = cs.get_default_tr_database()
    if tr_db.is_open():
        tr_db.close_db()


@contract('UVMRoot.get_dut')
def get_dut(cls):
    return cls.get()._dut


@contract('UVMRoot.print_topology')
def print_topology(self, printer=None):
    if len(self.m_children) == 0:
        self.uvm_report_warning('EMTCOMP', '', UVM_NONE)
        return
    if printer is None:
        from .uvm_global_vars import uvm_default_printer
        printer = uvm_default_printer
    for c in self.m_children:
        if self.m_children[c].print_enabled:
            printer.print_object('', self.m_children[c])

