"""
Stand-ins for what epsilon.scripts.benchmark asks of the system: timers, the
time of day, /proc, and child processes.
"""
import builtins, io, os, signal, time

MOUNTS = '/proc/self/mounts'
DISKSTATS = '/proc/diskstats'


def module():
    """Import the module under a host name it accepts."""
    import socket
    save = socket.gethostname
    socket.gethostname = lambda: 'host.example'
    try:
        from epsilon.scripts import benchmark
    finally:
        socket.gethostname = save
    return benchmark


class System(object):
    """Context manager: virtual timers, and optionally virtual /proc files and time of day."""

    def __init__(self, files=None, now=None):
        from twisted.internet.task import Clock
        self.clock = Clock()
        self.files = files      # path -> contents (text), looked up at each open
        self.now = now          # a callable
        self.opened = []

    def __enter__(self):
        from twisted.internet import reactor
        self.reactor = reactor
        self.had = 'callLater' in vars(reactor), vars(reactor).get('callLater')
        reactor.callLater = self.clock.callLater
        self.open = builtins.open, io.open
        self.time = time.time
        if self.files is not None:
            real = builtins.open

            def fake(file, mode='r', *a, **k):
                name = os.fspath(file) if not isinstance(file, int) else file
                if isinstance(name, bytes):
                    name = os.fsdecode(name)
                if name in self.files:
                    self.opened.append(name)
                    text = self.files[name]
                    return io.BytesIO(text.encode()) if 'b' in mode else io.StringIO(text)
                return real(file, mode, *a, **k)
            builtins.open = io.open = fake
        if self.now is not None:
            time.time = self.now
        return self

    def __exit__(self, *exc):
        time.time = self.time
        builtins.open, io.open = self.open
        if self.had[0]:
            self.reactor.callLater = self.had[1]
        else:
            del self.reactor.callLater


class Child(object):
    """A process transport which records what is asked of it."""

    def __init__(self, log):
        self.log = log
        self.signals = []
        self.toChild = {}
        self.pid = 4242

    def signalProcess(self, s):
        # as Twisted does: a few names are known, anything else is a number
        if s in ('HUP', 'STOP', 'INT', 'KILL', 'TERM'):
            pass
        elif isinstance(s, int):
            s = signal.Signals(s).name[3:]
        else:
            raise TypeError('signalProcess(%r)' % (s,))
        self.signals.append(s)
        self.log.append(('signal', s))

    def writeToChild(self, fd, data):
        if not isinstance(data, bytes):
            raise TypeError('writeToChild of %r' % (data,))
        self.toChild.setdefault(fd, []).append(data)
        self.log.append(('write', fd, data))

    def write(self, data):
        self.writeToChild(0, data)

    def closeChildFD(self, fd):
        self.log.append(('close', fd))
    closeStdin = loseConnection = lambda self: None
