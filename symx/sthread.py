"""Thread stand-in with an explicit schedule.

policy "now": the body runs inside start().  policy "sched": started threads stay pending until the harness's scheduling points
run them (ctx.schedule), so that every order and delay is explored.
"""


class Sched:
    policy = "now"
    pending = []
    all = []

    @classmethod
    def reset(cls, policy="now"):
        cls.policy, cls.pending, cls.all = policy, [], []


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "thread-%d" % len(Sched.all)
        self.daemon = bool(daemon)
        self.state = "new"
        self.runs = 0
        self.error = None
        Sched.all.append(self)

    def start(self):
        if self.state != "new":
            raise RuntimeError("threads can only be started once")
        self.state = "started"
        if Sched.policy == "now":
            self.execute()
        else:
            Sched.pending.append(self)

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def execute(self):
        if self in Sched.pending:
            Sched.pending.remove(self)
        self.runs += 1
        try:
            self.run()
        except Exception as e:  # a thread's exception does not reach its creator
            self.error = e
        self.state = "done"

    def is_alive(self):
        return self.state == "started"

    def join(self, timeout=None):
        if self.state == "new":
            raise RuntimeError("cannot join thread before it is started")
        if self.state == "started" and timeout is None:
            self.execute()

    @property
    def ident(self):
        return None if self.state == "new" else Sched.all.index(self) + 1

    def getName(self):
        return self.name

    def setDaemon(self, d):
        self.daemon = d

    def isDaemon(self):
        return self.daemon
