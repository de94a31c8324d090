"""A tornado event loop whose clock only moves when the loop has nothing to do.

Timers fire in exact virtual time, so "never" and "not before" are decided
without waiting.  Real sockets still work: before the clock jumps, the poller
gives the kernel (and other threads, through the loop's waker) `grace` seconds
of real time to deliver something.
"""
import math
import select

from tornado.ioloop import PollIOLoop


class Runaway(Exception):
    pass


class _Poller(object):
    def __init__(self, clock):
        self.ep = select.epoll()
        self.clock = clock

    def close(self):
        self.ep.close()

    def fileno(self):
        return self.ep.fileno()

    def register(self, fd, ev):
        self.ep.register(fd, ev)

    def modify(self, fd, ev):
        self.ep.modify(fd, ev)

    def unregister(self, fd):
        self.ep.unregister(fd)

    def poll(self, timeout):
        return self.clock.poll(self.ep, timeout)


class Clock(object):
    def __init__(self, start=100000.0, grace=0.0, idle_wait=0.05):
        self.now = start
        self.grace = grace          # real seconds to wait for I/O before a jump
        self.idle_wait = idle_wait  # real seconds to wait when no timer is pending
        self.jumps = 0
        self.spins = 0              # iterations since the clock moved
        self.max_spins = 50000
        self.runaway = False

    def time(self):
        return self.now

    def poll(self, ep, timeout):
        events = ep.poll(0)
        if events or timeout <= 0:
            self.spins += 1
            if self.spins > self.max_spins:
                self.runaway = True
                # a loop that never rests: let the clock creep so that the run can end
                self.now += 0.01
            return events
        if timeout >= 3000:             # tornado's "no timers" value
            return ep.poll(self.idle_wait)
        if self.grace:
            events = ep.poll(self.grace)
            if events:
                return events
        new = self.now + timeout
        if new <= self.now:
            new = math.nextafter(self.now, math.inf)
        self.now = new
        self.jumps += 1
        self.spins = 0
        return []


class VLoop(PollIOLoop):
    def initialize(self, clock=None, **kwargs):
        self.clock = clock or Clock()
        super(VLoop, self).initialize(impl=_Poller(self.clock), time_func=self.clock.time,
                                      make_current=False, **kwargs)
