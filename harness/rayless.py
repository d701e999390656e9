"""A stand-in for ray whose tasks complete in a chosen order.

Arguments are serialised when a task is submitted and results when it completes, with ray's own
pickler, so tasks share no objects with the caller, as with ray.  wait() completes the pending
tasks in the order given by the schedule."""
import types

from ray import cloudpickle


class Ref:
    def __init__(self, rt, run=None, data=None):
        self.rt, self.run, self.data, self.err = rt, run, data, None

    def finish(self):
        if self.data is None and self.err is None:
            self.rt.log.append(len(self.rt.log))
            try:
                self.data = cloudpickle.dumps(self.run())
            except Exception as e:
                self.err = e

    def value(self):
        self.finish()
        if self.err is not None:
            raise self.err
        return cloudpickle.loads(self.data)


class Remote:
    def __init__(self, rt, fn):
        self.rt, self.fn = rt, fn

    def options(self, **kw):
        return self

    def remote(self, *a, **kw):
        def enc(v):
            return (0, v) if isinstance(v, Ref) else (1, cloudpickle.dumps(v))

        def dec(p):
            return p[1].value() if p[0] == 0 else cloudpickle.loads(p[1])
        ea, ek = [enc(v) for v in a], {k: enc(v) for k, v in kw.items()}
        self.rt.submitted += 1
        self.rt.pending += 1
        self.rt.most = max(self.rt.most, self.rt.pending)
        return Ref(self.rt, lambda: self.fn(*[dec(v) for v in ea], **{k: dec(v) for k, v in ek.items()}))


class Runtime:
    def __init__(self, schedule):
        self.schedule, self.i, self.log = schedule or [0], 0, []
        self.submitted = self.pending = self.most = 0

    def pick(self, n):
        k = self.schedule[self.i % len(self.schedule)] % n
        self.i += 1
        return k

    def module(self):
        m = types.ModuleType("ray")
        m.ObjectRef = Ref

        def remote(*a, **kw):
            if len(a) == 1 and not kw and callable(a[0]):
                return Remote(self, a[0])
            return lambda fn: Remote(self, fn)

        def wait(refs, *, num_returns=1, timeout=None, fetch_local=True):
            rest, done = list(refs), []
            for _ in range(num_returns):
                r = rest.pop(self.pick(len(rest)))
                r.finish()
                self.pending -= 1
                done.append(r)
            return done, rest

        def get(refs, *, timeout=None):
            if isinstance(refs, Ref):
                return refs.value()
            return [r.value() for r in refs]

        m.remote, m.wait, m.get = remote, wait, get
        m.put = lambda v: Ref(self, data=cloudpickle.dumps(v))
        m.is_initialized = lambda: True
        m.init = m.shutdown = lambda *a, **kw: None
        m.cloudpickle = cloudpickle
        return m
