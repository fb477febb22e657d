
@contract('UVMCmdLineVerb.__init__')
def __init__(self):
    self.comp_path = ''
    self.id = ''
    self.verb = 0
    self.exec_time = 0


@contract('UVMCmdlineProcessor.get_inst')
def get_inst(cls):
    if UVMCmdlineProcessor.m_inst is None:
        UVMCmdlineProcessor.m_inst = UVMCmdlineProcessor('uvm_cmdline_proc')
    return UVMCmdlineProcessor.m_inst


@contract('UVMCmdlineProcessor.get_args')
def get_args(self):
    return self.m_argv


@contract('UVMCmdlineProcessor.get_plusargs')
def get_plusargs(self):
    return self.m_plus_argv


@contract('UVMCmdlineProcessor.get_uvm_args')
def get_uvm_args(self):
    return self.m_uvm_argv


@contract('UVMCmdlineProcessor.get_arg_matches')
def get_arg_matches(self, match, args):
    exp_h = None
    match_len = len(match)
    args.clear()
    if len(match) > 2 and match[0] == '/' and (match[len(match) - 1] == '/'):
        match = match[1:len(match) - 1]
        exp_h = uvm_dpi_regcomp(match)
        if exp_h is None:
            uvm_error('UVM_CMDLINE_PROC', '')
            return 0
    for i in range(len(self.m_argv)):
        if exp_h is not None:
            if uvm_dpi_regexec(exp_h, self.m_argv[i]) == 0:
                args.append(self.m_argv[i])
        elif len(self.m_argv[i]) >= match_len:
            sub_argv = self.m_argv[i][0:match_len]
            if sub_argv == match:
                args.append(self.m_argv[i])
    return len(args)


@contract('UVMCmdlineProcessor.get_arg_matches', asis='regex-last-char')
def get_arg_matches(self, match, args):
    exp_h = None
    match_len = len(match)
    args.clear()
    if len(match) > 2 and match[0] == '/' and (match[len(match) - 1] == '/'):
        match = match[1:len(match) - 2]
        exp_h = uvm_dpi_regcomp(match)
        if exp_h is None:
            uvm_error('UVM_CMDLINE_PROC', '')
            return 0
    for i in range(len(self.m_argv)):
        if exp_h is not None:
            if uvm_dpi_regexec(exp_h, self.m_argv[i]) == 0:
                args.append(self.m_argv[i])
        elif len(self.m_argv[i]) >= match_len:
            sub_argv = self.m_argv[i][0:match_len]
            if sub_argv == match:
                args.append(self.m_argv[i])
    return len(args)


@contract('UVMCmdlineProcessor.get_arg_value')
def get_arg_value(self, match, value):
    uvm_check_output_args([value])
    chars = len(match)
    get_arg_value = 0
    for i in range(0, len(self.m_argv)):
        if len(self.m_argv[i]) >= chars:
            arg_to_try = self.m_argv[i][0:chars]
            if arg_to_try == match:
                get_arg_value += 1
                if get_arg_value == 1:
                    value.append(self.m_argv[i][chars:len(self.m_argv[i])])
    return get_arg_value


@contract('UVMCmdlineProcessor.get_arg_values')
def get_arg_values(self, match, values):
    values.clear()
    chars = len(match)
    for i in range(len(self.m_argv)):
        if len(self.m_argv[i]) >= chars:
            argv_str = self.m_argv[i][0:chars]
            if argv_str == match:
                val = self.m_argv[i][chars:len(self.m_argv[i])]
                values.append(val)
    return len(values)


@contract('UVMCmdlineProcessor.get_tool_name')
def get_tool_name(self):
    return uvm_dpi_get_tool_name()


@contract('UVMCmdlineProcessor.get_tool_version')
def get_tool_version(self):
    return uvm_dpi_get_tool_version()


@contract('UVMCmdlineProcessor.__init__')
def __init__(self, name=''):
    super().__init__(name)
    self.m_argv = []
    self.m_plus_argv = []
    self.m_uvm_argv = []
    argv = []
    if hasattr(cocotb, 'argv') and cocotb.argv is not None:
        argv = cocotb.argv
    else:
        import sys
        argv = sys.argv
    if UVMCmdlineProcessor.m_test_mode is True:
        argv = UVMCmdlineProcessor.m_test_argv
    if argv is not None:
        self.extract_args(argv)


@contract('UVMCmdlineProcessor.extract_args')
def extract_args(self, argv):
    sub = ''
    for arg in argv:
        if len(arg) == 0:
            continue
        self.m_argv.append(arg)
        if arg[0] == '+':
            self.m_plus_argv.append(arg)
        sub = arg[1:4]
        sub = sub.upper()
        if arg[0] in '+-' and sub == 'UVM':
            self.m_uvm_argv.append(arg)


@contract('UVMCmdlineProcessor.m_convert_verb')
def m_convert_verb(self, verb_str):
    if verb_str == 'NONE':
        return UVM_NONE
    if verb_str == 'UVM_NONE':
        return UVM_NONE
    if verb_str == 'LOW':
        return UVM_LOW
    if verb_str == 'UVM_LOW':
        return UVM_LOW
    if verb_str == 'MEDIUM':
        return UVM_MEDIUM
    if verb_str == 'UVM_MEDIUM':
        return UVM_MEDIUM
    if verb_str == 'HIGH':
        return UVM_HIGH
    if verb_str == 'UVM_HIGH':
        return UVM_HIGH
    if verb_str == 'FULL':
        return UVM_FULL
    if verb_str == 'UVM_FULL':
        return UVM_FULL
    if verb_str == 'DEBUG':
        return UVM_DEBUG
    if verb_str == 'UVM_DEBUG':
        return UVM_DEBUG
    return -1


@contract('UVMRoot.m_do_verbosity_settings')
def m_do_verbosity_settings(self):
    set_verbosity_settings = []
    split_vals = []
    self.clp.get_arg_values('+uvm_set_verbosity=', set_verbosity_settings)
    for i in range(len(set_verbosity_settings)):
        split_vals.clear()
        uvm_split_string(set_verbosity_settings[i], ',', split_vals)
        if len(split_vals) < 4 or len(split_vals) > 5:
            self.uvm_report_warning('INVLCMDARGS', '', UVM_NONE, '', '')
        elif self.clp.m_convert_verb(split_vals[2]) == -1:
            self.uvm_report_warning('INVLCMDVERB', '', UVM_NONE, '', '')


@contract('UVMRoot.m_do_timeout_settings')
def m_do_timeout_settings(self):
    timeout_settings = []
    timeout = ''
    timeout_int = 0
    override_spec = ''
    timeout_count = self.clp.get_arg_values('+UVM_TIMEOUT=', timeout_settings)
    if timeout_count == 0:
        return
    else:
        timeout = timeout_settings[0]
        if timeout_count > 1:
            timeout_list = ''
            sep = ''
            for i in range(len(timeout_settings)):
                if i != 0:
                    sep = '; '
                timeout_list = timeout_list + sep + timeout_settings[i]
            self.uvm_report_warning('MULTTIMOUT', '', UVM_NONE)
        split_timeout = []
        uvm_split_string(timeout, ',', split_timeout)
        timeout_int = int(split_timeout[0])
        if len(split_timeout) > 1:
            override_spec = split_timeout[1]
        if override_spec == 'YES':
            self.set_timeout(timeout_int, 1)
        elif override_spec == 'NO':
            self.set_timeout(timeout_int, 0)
        else:
            self.set_timeout(timeout_int, 1)


@contract('UVMRoot.m_do_factory_settings')
def m_do_factory_settings(self):
    args = []
    self.clp.get_arg_matches('/^\\+(UVM_SET_INST_OVERRIDE|uvm_set_inst_override)=/', args)
    for i in range(len(args)):
        value = args[i][23:len(args[i])]
        self.m_process_inst_override(value)
    self.clp.get_arg_matches('/^\\+(UVM_SET_TYPE_OVERRIDE|uvm_set_type_override)=/', args)
    for i in range(len(args)):
        value = args[i][23:len(args[i])]
        self.m_process_type_override(value)


@contract('UVMRoot.m_process_inst_override')
def m_process_inst_override(self, ovr):
    from .uvm_coreservice import UVMCoreService
    split_val = []
    cs = UVMCoreService.get()
    factory = cs.get_factory()
    uvm_split_string(ovr, ',', split_val)
    if len(split_val) != 3:
        self.uvm_report_error('UVM_CMDLINE_PROC', '', UVM_NONE)
        return
    factory.set_inst_override_by_name(split_val[0], split_val[1], split_val[2])


@contract('UVMRoot.m_process_type_override')
def m_process_type_override(self, ovr):
    from .uvm_coreservice import UVMCoreService
    split_val = []
    replace = True
    factory = UVMCoreService.get().get_factory()
    uvm_split_string(ovr, ',', split_val)
    if len(split_val) < 2 or len(split_val) > 3:
        self.uvm_report_error('UVM_CMDLINE_PROC', '', UVM_NONE)
        return
    if len(split_val) == 3:
        if split_val[2] not in ('0', '1'):
            self.uvm_report_error('UVM_CMDLINE_PROC', '', UVM_NONE)
            return
        replace = split_val[2] == '1'
    factory.set_type_override_by_name(split_val[0], split_val[1], replace)


@contract('UVMRoot.m_do_config_settings')
def m_do_config_settings(self):
    args = []
    self.clp.get_arg_matches('/^\\+(UVM_SET_CONFIG_INT|uvm_set_config_int)=/', args)
    for i in range(len(args)):
        self.m_process_config(args[i][20:len(args[i])], 1)
    self.clp.get_arg_matches('/^\\+(UVM_SET_CONFIG_STRING|uvm_set_config_string)=/', args)
    for i in range(len(args)):
        self.m_process_config(args[i][23:len(args[i])], 0)


@contract('UVMRoot.m_do_max_quit_settings')
def m_do_max_quit_settings(self):
    max_quit_settings = []
    max_quit_count = 0
    max_quit = ''
    split_max_quit = []
    max_quit_int = 0
    srvr = UVMReportServer.get_server()
    max_quit_count = self.clp.get_arg_values('+UVM_MAX_QUIT_COUNT=', max_quit_settings)
    if max_quit_count == 0:
        return
    else:
        max_quit = max_quit_settings[0]
        if max_quit_count > 1:
            max_quit_list = ''
            sep = ''
            for i in range(len(max_quit_settings)):
                if i != 0:
                    sep = '; '
                max_quit_list = max_quit_list + sep + max_quit_settings[i]
            self.uvm_report_warning('MULTMAXQUIT', '', UVM_NONE)
        uvm_split_string(max_quit, ',', split_max_quit)
        max_quit_int = int(split_max_quit[0])
        if len(split_max_quit) > 1:
            if split_max_quit[1] == 'YES':
                srvr.set_max_quit_count(max_quit_int, True)
            elif split_max_quit[1] == 'NO':
                srvr.set_max_quit_count(max_quit_int, False)
        else:
            srvr.set_max_quit_count(max_quit_int, True)


@contract('UVMRoot.m_do_dump_args')
def m_do_dump_args(self):
    dump_args = []
    all_args = []
    out_string = ''
    if self.clp.get_arg_matches('+UVM_DUMP_CMDLINE_ARGS', dump_args):
        all_args = self.clp.get_args()
        for i in range(len(all_args)):
            if all_args[i] == '__-f__':
                continue
            out_string = out_string + all_args[i] + ' '


@contract('UVMRoot.m_process_config')
def m_process_config(self, cfg, is_int):
    from .uvm_coreservice import UVMCoreService
    v = 0
    split_val = []
    cs = UVMCoreService.get()
    m_uvm_top = cs.get_root()
    uvm_split_string(cfg, ',', split_val)
    if len(split_val) == 1:
        uvm_report_error('UVM_CMDLINE_PROC', '', UVM_NONE)
        return
    if len(split_val) == 2:
        uvm_report_error('UVM_CMDLINE_PROC', '', UVM_NONE)
        return
    if len(split_val) > 3:
        uvm_report_error('UVM_CMDLINE_PROC', '', UVM_NONE)
        return
    if is_int:
        if len(split_val[2]) > 2:
            base = split_val[2][0:2]
            extval = split_val[2][2:len(split_val[2])]
            if base in ["'b", '0b']:
                v = int(extval, 2)
            elif base == "'o":
                v = int(extval, 8)
            elif base == "'d":
                v = int(extval, 10)
            elif base in ["'h", "'x", '0x']:
                v = int(extval, 16)
            else:
                v = int(split_val[2])
        else:
            v = int(split_val[2])
        UVMConfigDb.set(m_uvm_top, split_val[0], split_val[1], v)
    else:
        UVMConfigDb.set(m_uvm_top, split_val[0], split_val[1], split_val[2])


@contract('UVMRoot.m_check_verbosity')
def m_check_verbosity(self):
    verb_string = ''
    verb_settings = []
    verb_count = 0
    plusarg = 0
    verbosity = UVM_MEDIUM
    verb_count = self.clp.get_arg_values('+UVM_VERBOSITY=', verb_settings)
    if verb_count:
        verb_settings.append(verb_string)
    if verb_count == 0:
        pass
    if verb_count > 0:
        verb_string = verb_settings[0]
        plusarg = 1
    if verb_count > 1:
        verb_list = ''
        sep = ''
        for i in range(len(verb_settings)):
            if i != 0:
                sep = ', '
            verb_list = verb_list + sep + verb_settings[i]
        self.uvm_report_warning('MULTVERB', '', UVM_NONE)
    if plusarg == 1:
        if verb_string == 'UVM_NONE':
            verbosity = UVM_NONE
        elif verb_string == 'NONE':
            verbosity = UVM_NONE
        elif verb_string == 'UVM_LOW':
            verbosity = UVM_LOW
        elif verb_string == 'LOW':
            verbosity = UVM_LOW
        elif verb_string == 'UVM_MEDIUM':
            verbosity = UVM_MEDIUM
        elif verb_string == 'MEDIUM':
            verbosity = UVM_MEDIUM
        elif verb_string == 'UVM_HIGH':
            verbosity = UVM_HIGH
        elif verb_string == 'HIGH':
            verbosity = UVM_HIGH
        elif verb_string == 'UVM_FULL':
            verbosity = UVM_FULL
        elif verb_string == 'FULL':
            verbosity = UVM_FULL
        elif verb_string == 'UVM_DEBUG':
            verbosity = UVM_DEBUG
        elif verb_string == 'DEBUG':
            verbosity = UVM_DEBUG
        else:
            verbosity = 0
            if verb_string.lstrip('-').isdigit():
                verbosity = int(verb_string)
            if verbosity > 0:
                pass
            if verbosity == 0:
                verbosity = UVM_MEDIUM
                self.uvm_report_warning('ILLVERB', '', UVM_NONE)
    self.set_report_verbosity_level_hier(verbosity)


@contract('UVMComponent.m_set_cl_msg_args')
def m_set_cl_msg_args(self):
    self.m_set_cl_verb()
    self.m_set_cl_action()
    self.m_set_cl_sev()


@contract('UVMComponent.m_set_cl_verb')
def m_set_cl_verb(self):
    from .uvm_coreservice import UVMCoreService
    cs = UVMCoreService.get()
    from .uvm_cmdline_processor import UVMCmdlineProcessor
    values = []
    args = []
    clp = UVMCmdlineProcessor.get_inst()
    cs = UVMCoreService.get()
    top = cs.get_root()
    if len(values) == 0:
        clp.get_arg_values('+uvm_set_verbosity=', values)
    for i in range(len(values)):
        setting = VerbositySetting()
        args.clear()
        uvm_split_string(values[i], ',', args)
        if len(args) in [4, 5] and clp.m_convert_verb(args[2]) != -1:
            setting.comp = args[0]
            setting.id = args[1]
            setting.verbosity = clp.m_convert_verb(args[2])
            setting.phase = args[3]
            setting.offset = 0
            if len(args) == 5:
                setting.offset = int(args[4])
            if setting.phase == 'time' and self == top:
                UVMComponent.m_time_settings.append(setting)
            if uvm_is_match(setting.comp, self.get_full_name()):
                if (setting.phase == '' or setting.phase == 'build' or setting.phase == 'time') and setting.offset == 0:
                    if setting.id == '_ALL_':
                        self.set_report_verbosity_level(setting.verbosity)
                    else:
                        self.set_report_id_verbosity(setting.id, setting.verbosity)
                elif setting.phase != 'time':
                    self.m_verbosity_settings.append(setting)
    if self == top:
        cocotb.start_soon(self.m_fork_time_settings(top))
    UVMComponent.first_m_set_cl_verb = 0


@contract('UVMComponent.m_fork_time_settings')
async def m_fork_time_settings(self, top):
    m_time_settings = UVMComponent.m_time_settings
    last_time = 0
    if len(m_time_settings) > 0:
        m_time_settings.sort(key=lambda item: item.offset)
    for i in range(len(m_time_settings)):
        comps = []
        top.find_all(m_time_settings[i].comp, comps)
        duration = m_time_settings[i].offset - last_time
        last_time = m_time_settings[i].offset
        await self.m_set_comp_settings(i, comps.copy(), duration)


@contract('UVMComponent.m_set_comp_settings')
async def m_set_comp_settings(self, i, comps, dur):
    m_time_settings = UVMComponent.m_time_settings
    if dur > 0:
        await Timer(dur)
    if m_time_settings[i].id == '_ALL_':
        for comp in comps:
            comp.set_report_verbosity_level(m_time_settings[i].verbosity)
    else:
        for comp in comps:
            comp.set_report_id_verbosity(m_time_settings[i].id, m_time_settings[i].verbosity)


@contract('UVMComponent.m_set_cl_action')
def m_set_cl_action(self):
    sev = 0
    action = 0
    if not UVMComponent.initialized_m_set_cl_action:
        from .uvm_cmdline_processor import UVMCmdlineProcessor
        values = []
        UVMCmdlineProcessor.uvm_cmdline_proc.get_arg_values('+uvm_set_action=', values)
        for idx in range(len(values)):
            t = uvm_cmdline_parsed_arg_t()
            args = []
            uvm_split_string(values[idx], ',', args)
            if len(args) != 4:
                uvm_warning('INVLCMDARGS', '')
                continue
            if args[2] != '_ALL_' and uvm_string_to_severity(args[2], sev) == -1:
                uvm_warning('INVLCMDARGS', '')
                continue
            if not uvm_string_to_action(args[3], action) and args[3] != 'UVM_NO_ACTION':
                uvm_warning('INVLCMDARGS', '')
                continue
            t.args = args
            t.arg = values[idx]
            UVMComponent.m_uvm_applied_cl_action.append(t)
        UVMComponent.initialized_m_set_cl_action = 1
    for i in range(len(UVMComponent.m_uvm_applied_cl_action)):
        args = UVMComponent.m_uvm_applied_cl_action[i].args
        if not uvm_is_match(args[0], self.get_full_name()):
            continue
        sev = uvm_string_to_severity(args[2], sev)
        action = uvm_string_to_action(args[3], action)
        UVMComponent.m_uvm_applied_cl_action[i].used += 1
        if args[1] == '_ALL_':
            if args[2] == '_ALL_':
                self.set_report_severity_action(UVM_INFO, action)
                self.set_report_severity_action(UVM_WARNING, action)
                self.set_report_severity_action(UVM_ERROR, action)
                self.set_report_severity_action(UVM_FATAL, action)
            else:
                self.set_report_severity_action(sev, action)
        elif args[2] == '_ALL_':
            self.set_report_id_action(args[1], action)
        else:
            self.set_report_severity_id_action(sev, args[1], action)


@contract('UVMComponent.m_set_cl_sev')
def m_set_cl_sev(self):
    orig_sev = 0
    sev = 0
    if not UVMComponent.initialized_m_set_cl_sev:
        values = []
        from .uvm_cmdline_processor import UVMCmdlineProcessor
        UVMCmdlineProcessor.uvm_cmdline_proc.get_arg_values('+uvm_set_severity=', values)
        for idx in range(len(values)):
            t = uvm_cmdline_parsed_arg_t()
            args = []
            uvm_split_string(values[idx], ',', args)
            if len(args) != 4:
                uvm_warning('INVLCMDARGS', '')
                continue
            if args[2] != '_ALL_' and uvm_string_to_severity(args[2], orig_sev) == -1:
                uvm_warning('INVLCMDARGS', '')
                continue
            if uvm_string_to_severity(args[3], sev) == -1:
                uvm_warning('INVLCMDARGS', '')
                continue
            t.args = args
            t.arg = values[idx]
            UVMComponent.m_uvm_applied_cl_sev.append(t)
        UVMComponent.initialized_m_set_cl_sev = 1
    m_uvm_applied_cl_sev = UVMComponent.m_uvm_applied_cl_sev
    for i in range(len(m_uvm_applied_cl_sev)):
        args = m_uvm_applied_cl_sev[i].args
        if not uvm_is_match(args[0], self.get_full_name()):
            continue
        orig_sev = uvm_string_to_severity(args[2], orig_sev)
        sev = uvm_string_to_severity(args[3], sev)
        m_uvm_applied_cl_sev[i].used += 1
        if args[1] == '_ALL_' and args[2] == '_ALL_':
            self.set_report_severity_override(UVM_INFO, sev)
            self.set_report_severity_override(UVM_WARNING, sev)
            self.set_report_severity_override(UVM_ERROR, sev)
            self.set_report_severity_override(UVM_FATAL, sev)
        elif args[1] == '_ALL_':
            self.set_report_severity_override(orig_sev, sev)
        elif args[2] == '_ALL_':
            self.set_report_severity_id_override(UVM_INFO, args[1], sev)
            self.set_report_severity_id_override(UVM_WARNING, args[1], sev)
            self.set_report_severity_id_override(UVM_ERROR, args[1], sev)
            self.set_report_severity_id_override(UVM_FATAL, args[1], sev)
        else:
            self.set_report_severity_id_override(orig_sev, args[1], sev)


@contract('UVMComponent.m_apply_verbosity_settings')
def m_apply_verbosity_settings(self, phase):
    settings = self.m_verbosity_settings
    self.m_verbosity_settings = [x for x in settings if x.phase != phase.get_name()]
    for setting in settings:
        if phase.get_name() == setting.phase:
            if setting.offset == 0:
                self.m_apply_verbosity_setting(setting)
            else:
                cocotb.start_soon(self.m_apply_delayed_setting(setting))


@contract('UVMComponent.m_apply_verbosity_setting')
def m_apply_verbosity_setting(self, setting):
    if setting.id == '_ALL_':
        self.set_report_verbosity_level(setting.verbosity)
    else:
        self.set_report_id_verbosity(setting.id, setting.verbosity)


@contract('UVMComponent.m_apply_delayed_setting')
async def m_apply_delayed_setting(self, setting):
    await Timer(setting.offset)
    self.m_apply_verbosity_setting(setting)


@contract('uvm.base.uvm_cmdline_processor:uvm_dpi_regexec')
def uvm_dpi_regexec(exp_h, elem):
    if exp_h.search(elem) is not None:
        return 0
    return 1


@contract('uvm.base.sv:uvm_split_string')
def uvm_split_string(_str, sep, split_vals):
    res = _str.split(sep)
    for val in res:
        split_vals.append(val)
    return res

