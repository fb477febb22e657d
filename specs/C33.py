
@contract('UVMQueue.__init__')
def __init__(self, name=''):
    UVMObject.__init__(self, name)
    self.queue = list()


@contract('UVMQueue.get_global_queue')
def get_global_queue(cls):
    if UVMQueue.m_global_queue is None:
        UVMQueue.m_global_queue = UVMQueue('global_queue')
    return UVMQueue.m_global_queue


@contract('UVMQueue.get_global')
def get_global(cls, index):
    gqueue = UVMQueue.get_global_queue()
    return gqueue.get(index)


@contract('UVMQueue.get')
def get(self, index):
    default_value = 0
    if index >= self.size() or index < 0:
        uvm_report_warning('QUEUEGET', '')
        return default_value
    return self.queue[index]


@contract('UVMQueue.size')
def size(self):
    return len(self.queue)


@contract('UVMQueue.__len__')
def __len__(self):
    return self.size()


@contract('UVMQueue.__setitem__')
def __setitem__(self, i, value):
    if i < self.size():
        self.queue[i] = value
    else:
        raise Exception('UVMQueue set index {} ouf of bounds (size: {})'.format(i, self.size()))


@contract('UVMQueue.__getitem__')
def __getitem__(self, i):
    if isinstance(i, slice):
        return self.queue[i]
    elif i < self.size():
        return self.queue[i]
    else:
        raise IndexError('UVMQueue get index {} ouf of bounds (size: {})'.format(i, self.size()))


@contract('UVMQueue.insert')
def insert(self, index, item):
    if index >= self.size() or index < 0:
        uvm_report_warning('QUEUEINS', '')
        return
    self.queue.insert(index, item)


@contract('UVMQueue.delete')
def delete(self, index=-1):
    if index >= self.size() or index < -1:
        uvm_report_warning('QUEUEDEL', '')
        return
    if index == -1:
        self.queue = list()
    else:
        self.queue.pop(index)


@contract('UVMQueue.pop_front')
def pop_front(self):
    if self.size() > 0:
        val = self.queue[0]
        del self.queue[0]
        return val
    else:
        raise Exception('pop_front() called on empty queue')


@contract('UVMQueue.front')
def front(self):
    if self.size() > 0:
        return self.queue[0]
    return None


@contract('UVMQueue.back')
def back(self):
    if self.size() > 0:
        return self.queue[len(self.queue) - 1]
    return None


@contract('UVMQueue.pop_back')
def pop_back(self):
    return self.queue.pop()


@contract('UVMQueue.push_front')
def push_front(self, item):
    self.queue.insert(0, item)


@contract('UVMQueue.push_back')
def push_back(self, item):
    self.queue.append(item)


@contract('UVMQueue.do_copy')
def do_copy(self, rhs):
    if rhs is None:
        return
    UVMObject.do_copy(self, rhs)
    self.queue = list(rhs.queue)


@contract('UVMQueue.find_with')
def find_with(self, find_func):
    qq = UVMQueue()
    for ee in self.queue:
        if find_func(ee):
            qq.push_back(ee)
    return qq


@contract('UVMQueue.find_first_index')
def find_first_index(self, find_func):
    idx = -1
    for i in range(len(self.queue)):
        ee = self.queue[i]
        if find_func(ee):
            idx = i
            break
    return idx


@contract('UVMPool.__init__')
def __init__(self, name='', T=None):
    UVMObject.__init__(self, name)
    self.pool = collections.OrderedDict()
    self.ptr = -1
    self.T = T


@contract('UVMPool.get_global_pool')
def get_global_pool(cls):
    if UVMPool.m_global_pool is None:
        UVMPool.m_global_pool = UVMPool('pool')
    return UVMPool.m_global_pool


@contract('UVMPool.get_global')
def get_global(cls, key):
    gpool = UVMPool.get_global_pool()
    return gpool.get(key)


@contract('UVMPool.get')
def get(self, key):
    if key in self.pool:
        return self.pool[key]
    elif self.T is not None:
        self.pool[key] = self.T()
        return self.pool[key]
    return None


@contract('UVMPool.add')
def add(self, key, item):
    self.pool[key] = item


@contract('UVMPool.num')
def num(self):
    return len(self.pool.keys())


@contract('UVMPool.keys')
def keys(self):
    return self.pool.keys()


@contract('UVMPool.key_list')
def key_list(self):
    return list(self.pool.keys())


@contract('UVMPool.delete')
def delete(self, key=None):
    if key is None:
        self.pool = {}
    elif key in self.pool:
        del self.pool[key]


@contract('UVMPool.exists')
def exists(self, key):
    return key in self.pool


@contract('UVMPool.last')
def last(self):
    keys = self.pool.keys()
    if len(keys) > 0:
        self.ptr = self.num() - 1
        return next(reversed(self.pool))
    else:
        return False


@contract('UVMPool.has_first')
def has_first(self):
    return self.num() > 0


@contract('UVMPool.has_last')
def has_last(self):
    return self.num() > 0


@contract('UVMPool.first')
def first(self):
    for k in self.pool:
        self.ptr = 0
        return k
    return False


@contract('UVMPool.has_next')
def has_next(self):
    if self.ptr < self.num() - 1:
        return True
    return False


@contract('UVMPool.next')
def next(self):
    if self.has_next() is True:
        self.ptr += 1
        key = list(self.pool.keys())[self.ptr]
        return key
    return None


@contract('UVMPool.has_prev')
def has_prev(self):
    if self.ptr > 0:
        return True
    return False


@contract('UVMPool.prev')
def prev(self):
    if self.has_prev() is True:
        self.ptr -= 1
        key = list(self.pool.keys())[self.ptr]
        return key
    return None


@contract('UVMPool.do_print')
def do_print(self, printer):
    for key, item in self.pool.items():
        if hasattr(item, 'convert2string'):
            printer.print_string(item.get_name(), item.convert2string())
        else:
            name = ''
            if hasattr(key, 'get_name'):
                name = key.get_name()
            printer.print_generic(name, '', 0, str(item))


@contract('UVMPool.__len__')
def __len__(self):
    return self.num()


@contract('UVMPool.__contains__')
def __contains__(self, key):
    return key in self.pool


@contract('UVMPool.__setitem__')
def __setitem__(self, key, value):
    self.pool[key] = value


@contract('UVMPool.__getitem__')
def __getitem__(self, key):
    if key in self.pool:
        return self.pool[key]
    else:
        raise IndexError('No key found')


@contract('UVMObjectStringPool.__init__')
def __init__(self, name='', Constr=UVMObject):
    UVMPool.__init__(self, name)
    self.Constructor = Constr


@contract('UVMObjectStringPool.get_global_pool')
def get_global_pool(cls):
    if cls.__dict__.get('m_global_pool') is None:
        cls.m_global_pool = cls('global_pool')
    return cls.m_global_pool


@contract('UVMObjectStringPool.get_global')
def get_global(cls, key):
    gpool = cls.get_global_pool()
    return gpool.get(key)


@contract('UVMObjectStringPool.get')
def get(self, key):
    if key not in self.pool:
        self.pool[key] = self.Constructor(key)
    return self.pool[key]


@contract('UVMObjectStringPool.delete')
def delete(self, key):
    if not self.exists(key):
        uvm_warning('POOLDEL', '')
        return
    super().delete(key)


@contract('UVMObjectStringPool.do_print')
def do_print(self, printer):
    key = ''
    num_keys = len(list(self.pool.keys()))
    printer.print_array_header('pool', num_keys, 'aa_object_string')
    if self.has_first():
        key = self.first()
        while True:
            printer.print_object('[' + key + ']', self.pool[key], '[')
            if self.has_next():
                key = self.next()
            else:
                break
    printer.print_array_footer()


@contract('UVMEventPool.__init__')
def __init__(self, name=''):
    from .uvm_event import UVMEvent
    UVMObjectStringPool.__init__(self, name, UVMEvent)


@contract('UVMBarrierPool.__init__')
def __init__(self, name=''):
    from .uvm_barrier import UVMBarrier
    UVMObjectStringPool.__init__(self, name, UVMBarrier)


@contract('UVMPool.__iter__')
def __iter__(self):
    return iter(self.key_list())
