"""The worker of the user interface, with the schedule in the hands of the scenario."""
import types
from dv.base import contract
from dv.workers import Deadlock

FUN = ['GUI.__init__', 'GUI._work', 'GUI.start', 'GUI.step', 'GUI.pause', 'GUI.close', 'GUI.restart_thread', 'GUI._join_worker']


class Nothing:
    """a widget, layout, ... : whatever is done with it has no effect"""
    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Nothing()

    def __call__(self, *a, **k):
        return Nothing()

    __add__ = __sub__ = __radd__ = __rsub__ = __or__ = __and__ = __ror__ = __getitem__ = __call__
    close = closeEvent = show = hide = event = eventFilter = changeEvent = showEvent = hideEvent = deleteLater = __call__


class Signal(Nothing):
    """a signal delivers to what is connected to it"""
    def __init__(self, *a):
        self.slots = []

    def connect(self, f):
        self.slots.append(f)

    def disconnect(self, f=None):
        raise TypeError('not connected')

    def emit(self, *a):
        for f in self.slots:
            f(*a)


class Widgets(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Nothing


def qt():
    """assumed contract of Qt: the widgets only show what they are told"""
    core, widgets, gui = Widgets('QtCore'), Widgets('QtWidgets'), Widgets('QtGui')
    core.pyqtSlot = core.Slot = lambda *a, **k: lambda f: f
    core.pyqtSignal = core.Signal = Signal
    core.Qt = Nothing()
    pg = Widgets('pyqtgraph')
    pg.Qt = types.ModuleType('pyqtgraph.Qt')
    pg.Qt.QtCore, pg.Qt.QtWidgets, pg.Qt.QtGui = core, widgets, gui
    pg.parametertree = Widgets('pyqtgraph.parametertree')
    pg.widgets = types.ModuleType('pyqtgraph.widgets')
    pg.widgets.MatplotlibWidget = types.ModuleType('pyqtgraph.widgets.MatplotlibWidget')
    pg.widgets.MatplotlibWidget.MatplotlibWidget = Nothing
    ip = types.ModuleType('IPython')
    ip.get_ipython = Nothing
    return dict(pyqtgraph=pg, IPython=ip)


class Tuner:
    """contract of the autotuner: an iteration takes a while and succeeds, fails or kills its thread; `left` iterations until it is complete"""
    def __init__(self, c, bench, left, faults):
        self.c, self.bench, self.left, self.faults = c, bench, left, faults
        self.running, self.most, self.begun, self.finished, self.deciding = 0, 0, 0, 0, False
        self.early = 0

    def is_tuning_complete(self):
        r = self.left <= 0
        self.deciding = not r
        self.bench.rest()
        return r

    def iterate(self):
        self.running += 1
        self.most = max(self.most, self.running)
        self.deciding = False
        k = self.begun
        self.begun += 1
        try:
            self.bench.rest()
            fault = self.faults[k] if k < len(self.faults) else 0
            if fault == 1:
                raise RuntimeError('failed')
            if fault == 2:
                raise SystemExit()
            self.left -= 1
            self.finished += 1
        finally:
            self.running -= 1


class Record:
    """contract of the history: it notes what is appended"""
    def __init__(self, bench):
        self.bench, self.got = bench, []

    def append_autotuner(self, autotuner, path=None):
        self.got.append(autotuner)
        self.bench.rest()


def started(c, depth):
    m = c.module('gui', **qt())
    bench = c.bench()
    c.scheduled(m, bench)
    faults = [c.choice('fault', 3) for _ in range(2 if c.symbolic else depth)]
    t = Tuner(c, bench, c.choice('iterations', 3 if c.symbolic else 12), faults)
    h = Record(bench)
    g = c.run(m.GUI, t, h)
    c.ensure('one worker', sum(w.is_alive() for w in bench.workers) == 1)
    return bench, t, h, g


def turn(bench, n=1):
    for _ in range(n):
        for w in list(bench.workers):
            w.step()


@contract('C29', FUN, kind='bounded', paths=60000, budget=400., note='up to 5 actions and turns of the worker in any order, then closed; any outcome of the first two iterations')
def interleavings(c):
    bench, t, h, g = started(c, 30)
    limit = 0                          # iterations that may have begun
    for _ in range(c.choice('actions', 6) if c.symbolic else c.choice('actions', 41)):
        k = c.choice('action', 4)
        if k == 0:
            turn(bench)
        elif k == 1:
            c.run(g.start)
            limit = None
        elif k == 2:
            idle = t.begun == t.finished and not t.deciding
            c.run(g.step)
            limit = None if limit is None else limit + 1 if t.deciding else max(limit, t.begun + 1)
        else:
            c.run(g.pause)
            limit = t.begun + t.deciding
        c.ensure('never two loops', t.most <= 1 and sum(w.is_alive() for w in bench.workers) <= 1)
        c.ensure('nothing begins after a pause or beyond the steps', limit is None or t.begun <= limit)
    limit = t.begun + t.deciding
    r = c.call(g.close)
    c.ensure('closing ends the worker', r.ok and not any(w.is_alive() for w in bench.workers))
    c.ensure('closing finishes at most the iteration under way', t.begun <= limit)
    c.ensure('every iteration is recorded once', len(h.got) == t.finished and all(x is t for x in h.got))


@contract('C29', FUN, kind='bounded', paths=60000, budget=300., note='up to 3 actions and turns before; any outcome of the first two iterations')
def goes_on(c):
    bench, t, h, g = started(c, 30)
    for _ in range(c.choice('actions', 4) if c.symbolic else c.choice('actions', 20)):
        k = c.choice('action', 4)
        turn(bench) if k == 0 else c.run((g.start, g.step, g.pause)[k - 1])
    c.run(g.pause)
    turn(bench, 12)
    c.ensure('idle after a pause', t.running == 0)
    before, left = t.begun, t.left
    turn(bench, 6)
    c.ensure('nothing happens while paused', t.begun == before)
    if c.choice('what', 2):
        c.run(g.step)
        turn(bench, 12)
        c.ensure('a step is one iteration', t.begun == before + (left > 0))
    else:
        c.run(g.start)
        turn(bench, 80)
        n, ok = before, 0
        while ok < left:
            f = t.faults[n] if n < len(t.faults) else 0
            n += 1
            if f:
                break
            ok += 1
        c.ensure('it runs until it is complete or an iteration fails', t.begun == n)
    c.ensure('never two loops', t.most <= 1)
    c.run(g.close)
