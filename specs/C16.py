
@contract('UVMEventBase.set_value')
def set_value(self, key, value):
    setattr(self, key, value)
    self.m_value_changed_event.set()


@contract('UVMEventBase.set')
def set(self):
    if self.m_waiters > 0:
        self.on_event.set()


@contract('UVMEventBase.wait')
async def wait(self):
    if self.m_waiters == 0:
        self.on_event.clear()
    self.m_waiters += 1
    await self.on_event.wait()
    self.m_waiters -= 1
    if self.m_waiters == 0:
        self.on_event.clear()


@contract('UVMEventBase.wait_on')
async def wait_on(self, delta=False):
    if self.on is True:
        if delta is True:
            await uvm_zero_delay()
        await uvm_zero_delay()
        return
    self.num_waiters += 1
    await wait(lambda: self.on is True, self.m_value_changed_event)


@contract('UVMEventBase.wait_off')
async def wait_off(self, delta=False):
    if self.on is False:
        if delta is True:
            await uvm_zero_delay()
        return
    self.num_waiters += 1
    await wait(lambda: self.on is False, self.m_value_changed_event)


@contract('UVMEventBase.wait_trigger')
async def wait_trigger(self):
    self.num_waiters += 1
    self.m_event.clear()
    await self.m_event.wait()


@contract('UVMEventBase.wait_ptrigger')
async def wait_ptrigger(self):
    if self.on and self.trigger_time == sv.realtime():
        return
    self.num_waiters += 1
    self.m_event.clear()
    await self.m_event.wait()


@contract('UVMEventBase.get_trigger_time')
def get_trigger_time(self):
    return self.trigger_time


@contract('UVMEventBase.is_on')
def is_on(self):
    return self.on


@contract('UVMEventBase.is_off')
def is_off(self):
    return not self.on


@contract('UVMEventBase.reset')
def reset(self, wakeup=False):
    if wakeup:
        self.m_event.set()
    self.m_event = Event()
    self.num_waiters = 0
    self.set_value('on', False)
    self.trigger_time = 0


@contract('UVMEventBase.cancel')
def cancel(self):
    if self.num_waiters > 0:
        self.num_waiters -= 1


@contract('UVMEventBase.get_num_waiters')
def get_num_waiters(self):
    return self.num_waiters


@contract('UVMEventBase.__init__', ret=False)
def __init__(self, name=''):
    super().__init__(name)
    self.m_event = Event()
    self.num_waiters = 0
    self.on = False
    self.on_event = Event('on_event_' + name)
    self.trigger_time = 0
    self.callbacks = UVMQueue()
    self.m_waiters = 0
    self.m_value_changed_event = Event('value_changed_event_' + name)


@contract('UVMEvent.trigger')
def trigger(self, data=None):
    skip = False
    if self.callbacks.size() > 0:
        for i in range(0, self.callbacks.size()):
            tmp = self.callbacks.get(i)
            if tmp.pre_trigger(self, data):
                skip = True
    if skip is False:
        self.m_event.set(data)
        if self.callbacks.size() > 0:
            for i in range(0, self.callbacks.size()):
                tmp = self.callbacks[i]
                tmp.post_trigger(self, data)
        self.num_waiters = 0
        self.set_value('on', True)
        self.trigger_time = sv.realtime()
        self.trigger_data = data


@contract('UVMEvent.wait_trigger_data')
async def wait_trigger_data(self):
    await self.wait_trigger()
    return self.get_trigger_data()


@contract('UVMEvent.wait_ptrigger_data')
async def wait_ptrigger_data(self, data):
    await self.wait_ptrigger()
    trig_data = self.get_trigger_data()
    data.append(trig_data)
    return trig_data


@contract('UVMEvent.get_trigger_data')
def get_trigger_data(self):
    return self.trigger_data


@contract('UVMEvent.add_callback')
def add_callback(self, cb, append=True):
    if cb in self.callbacks:
        uvm_warning('CBRGED', '')
        return
    if append is True:
        self.callbacks.push_back(cb)
    else:
        self.callbacks.push_front(cb)


@contract('UVMEvent.delete_callback')
def delete_callback(self, cb):
    for i in range(len(self.callbacks)):
        if cb == self.callbacks[i]:
            self.callbacks.delete(i)
            return
    uvm_warning('CBNTFD', '')


@contract('UVMEvent.__init__', ret=False)
def __init__(self, name='', T=None):
    super().__init__(name)
    self.trigger_data = None
    self.T = T


@contract('UVMBarrier.wait_for')
async def wait_for(self):
    if self.at_threshold:
        return
    self.num_waiters += 1
    if self.num_waiters >= self.threshold:
        if not self.auto_reset:
            self.at_threshold = 1
        await self.m_trigger()
        return
    await self.m_event.wait_trigger()


@contract('UVMBarrier.reset')
def reset(self, wakeup=1):
    self.at_threshold = 0
    if self.num_waiters:
        if wakeup:
            self.m_event.trigger()
        else:
            self.m_event.reset()
    self.num_waiters = 0


@contract('UVMBarrier.set_auto_reset')
def set_auto_reset(self, value=1):
    self.at_threshold = 0
    self.auto_reset = value


@contract('UVMBarrier.set_threshold')
def set_threshold(self, threshold):
    self.threshold = threshold
    if threshold <= self.num_waiters:
        self.reset(1)


@contract('UVMBarrier.get_threshold')
def get_threshold(self):
    return self.threshold


@contract('UVMBarrier.get_num_waiters')
def get_num_waiters(self):
    return self.num_waiters


@contract('UVMBarrier.cancel')
def cancel(self):
    self.m_event.cancel()
    self.num_waiters = self.m_event.get_num_waiters()


@contract('UVMBarrier.m_trigger')
async def m_trigger(self):
    self.m_event.trigger()
    self.num_waiters = 0
    await uvm_zero_delay()


@contract('UVMBarrier.do_copy')
def do_copy(self, rhs):
    b = rhs
    super().do_copy(rhs)
    self.threshold = b.threshold
    self.num_waiters = b.num_waiters
    self.at_threshold = b.at_threshold
    self.auto_reset = b.auto_reset
    self.m_event = b.m_event


@contract('UVMBarrier.__init__', ret=False)
def __init__(self, name='', threshold=0):
    super().__init__(name)
    self.m_event = UVMEvent('barrier_' + name)
    self.threshold = threshold
    self.num_waiters = 0
    self.auto_reset = 1
    self.at_threshold = 0


@contract('uvm.base.sv:wait')
async def wait(cond, ev):
    if not callable(cond):
        raise Exception('wait expects the first arguments to be callable')
    while True:
        if cond():
            break
        else:
            await ev.wait()
            ev.clear()

