
@contract('UVMInOrderComparator.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent)
    self.PairType = UVMBuiltInPair
    self.Convert = UVMBuiltInConverter
    self.CompType = UVMBuiltInComp
    self.before_export = UVMAnalysisExport('before_export', self)
    self.after_export = UVMAnalysisExport('after_export', self)
    self.pair_ap = UVMAnalysisPort('pair_ap', self)
    self.m_before_fifo = UVMTLMAnalysisFIFO('before', self)
    self.m_after_fifo = UVMTLMAnalysisFIFO('after', self)
    self.m_matches = 0
    self.m_mismatches = 0


@contract('UVMInOrderComparator.connect_phase')
def connect_phase(self, phase):
    self.before_export.connect(self.m_before_fifo.analysis_export)
    self.after_export.connect(self.m_after_fifo.analysis_export)


@contract('UVMInOrderComparator.run_phase')
async def run_phase(self, phase):
    await super().run_phase(phase)
    while True:
        arr_b = []
        arr_a = []
        await self.m_before_fifo.get(arr_b)
        await self.m_after_fifo.get(arr_a)
        b = arr_b[0]
        a = arr_a[0]
        if not self.CompType.comp(b, a):
            uvm_error('Comparator Mismatch', '')
            self.m_mismatches += 1
        else:
            self.m_matches += 1
        pair = self.PairType('after/before')
        pair.first = a
        pair.second = b
        self.pair_ap.write(pair)


@contract('UVMInOrderComparator.flush')
def flush(self):
    self.m_matches = 0
    self.m_mismatches = 0


@contract('UVMInOrderClassComparator.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent)
    self.PairType = UVMClassPair
    self.Convert = UVMClassConverter
    self.CompType = UVMClassComp


@contract('UVMInOrderBuiltInComparator.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent)


@contract('UVMAlgorithmicComparator.__init__')
def __init__(self, name, parent=None, transformer=None):
    super().__init__(name, parent)
    self.m_transformer = transformer
    self.comp = UVMInOrderClassComparator('comp', self)
    self.before_export = UVMAnalysisImp('before_analysis_export', self)
    self.after_export = UVMAnalysisExport('after_analysis_export', self)


@contract('UVMAlgorithmicComparator.connect_phase')
def connect_phase(self, phase):
    self.after_export.connect(self.comp.after_export)


@contract('UVMAlgorithmicComparator.write')
def write(self, b):
    self.comp.before_export.write(self.m_transformer.transform(b))


@contract('UVMBuiltInComp.comp')
def comp(self, a, b):
    return a == b


@contract('UVMClassComp.comp')
def comp(self, a, b):
    return a.compare(b)


@contract('UVMBuiltInConverter.convert2string')
def convert2string(self, t):
    return sv.sformatf('%p', t)


@contract('UVMClassConverter.convert2string')
def convert2string(self, t):
    return t.convert2string()


@contract('UVMBuiltInClone.clone')
def clone(self, from_):
    return from_


@contract('UVMClassClone.clone')
def clone(self, from_):
    return from_.clone()


@contract('UVMClassPair.__init__')
def __init__(self, name='', f=None, s=None):
    super().__init__(name)
    self.first = f
    self.second = s


@contract('UVMClassPair.convert2string')
def convert2string(self):
    s = sv.sformatf('pair : %s, %s', self.first.convert2string(), self.second.convert2string())
    return s


@contract('UVMClassPair.do_compare')
def do_compare(self, rhs, comparer):
    rhs_ = []
    if not sv.cast(rhs_, rhs, UVMClassPair):
        uvm_error('WRONG_TYPE', '')
        return 0
    rhs_ = rhs_[0]
    return self.first.compare(rhs_.first) and self.second.compare(rhs_.second)


@contract('UVMBuiltInPair.__init__')
def __init__(self, name=''):
    super().__init__(name)
    self.first = 0
    self.second = 0


@contract('UVMBuiltInPair.convert2string')
def convert2string(self):
    return 'built-in pair : {}, {}'.format(self.first, self.second)


@contract('UVMBuiltInPair.do_compare')
def do_compare(self, rhs, comparer):
    rhs_ = []
    if not sv.cast(rhs_, rhs, UVMBuiltInPair):
        uvm_error('WRONG_TYPE', '')
        return 0
    rhs_ = rhs_[0]
    return self.first == rhs_.first and self.second == rhs_.second


@contract('UVMBuiltInPair.do_copy')
def do_copy(self, rhs):
    rhs_ = []
    if not sv.cast(rhs_, rhs, UVMBuiltInPair):
        uvm_fatal('WRONG_TYPE', '')
        return
    rhs_ = rhs_[0]
    self.first = rhs_.first
    self.second = rhs_.second


@contract('UVMSubscriber.__init__')
def __init__(self, name, parent):
    super().__init__(name, parent)
    self.analysis_export = UVMAnalysisImp('analysis_imp', self)

