"""Reloading recorded runs from the interface: the reload window is used through its buttons and its input line."""
import types
from dv.base import contract
from . import c29

FUN = ['ReloadWidget.__init__', 'ReloadWidget.reload_voltages', 'ReloadWidget.reload_autotuner', 'ReloadWidget.refreh_tune_run_number',
       'GUI.load_auto_tuner_from_reload_widget', 'GUI.spawn_reload_window', 'GUI._work']
NOTE = 'histories of 1..3 runs, up to 2 reload windows and 3 actions; the voltages recorded are unbounded'
WIDGETS = []                    # every widget of the present scenario, in order of creation


class Sender:
    """of a signal that is being delivered"""
    now = None


class Bound(c29.Signal):
    def __init__(self, owner):
        super().__init__()
        self.owner = owner

    def emit(self, *a):
        before, Sender.now = Sender.now, self.owner
        try:
            super().emit(*a)
        finally:
            Sender.now = before


class Signal:
    """assumed contract of Qt signals: each object has its own, and tells the receivers who sent it"""
    def __init__(self, *a):
        pass

    def __set_name__(self, owner, name):
        self.name = '__signal_' + name

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        if self.name not in obj.__dict__:
            obj.__dict__[self.name] = Bound(obj)
        return obj.__dict__[self.name]


class Widget(c29.Nothing):
    def __init__(self, *a, **k):
        WIDGETS.append(self)

    def sender(self):
        return Sender.now


class Button(Widget):
    def __init__(self, text='', *a, **k):
        super().__init__()
        self.title, self.clicked = text, Bound(self)


class Line(Widget):
    def __init__(self, text='', *a, **k):
        super().__init__()
        self.content = text
        self.editingFinished, self.returnPressed, self.textChanged, self.textEdited = (Bound(self) for _ in range(4))

    def setText(self, t):
        if not isinstance(t, str):
            raise TypeError('text expected')
        self.content = t

    def text(self):
        return self.content


class Widgets(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Widget


def qt():
    r = c29.qt()
    pg = r['pyqtgraph']
    core = pg.Qt.QtCore
    core.pyqtSignal = core.Signal = Signal
    core.QObject = Widget
    widgets = Widgets('QtWidgets')
    widgets.QPushButton, widgets.QLineEdit = Button, Line
    pg.Qt.QtWidgets = widgets
    pg.LayoutWidget = Widget
    return r


class Tuner(c29.Tuner):
    def __init__(self, c, bench, name, log, experiment):
        super().__init__(c, bench, 9, [])
        self.name, self.log, self._experiment = name, log, experiment
        self.reserved = {'experiment': experiment}

    def restart(self):
        self.log.append(('restart', self))


class Record(c29.Record):
    """contract of the history: rows of voltages and a reload path per row"""
    def __init__(self, c, bench, gates, rows):
        super().__init__(bench)
        self.c, self.gates, self.rows = c, gates, rows
        self.gate_names = set(gates)

    @property
    def number_of_stored_iterations(self):
        return len(self.rows)

    def get_gate_values(self, names):
        one = isinstance(names, str)
        names = [names] if one else list(names)
        t = self.c.table(len(self.rows), {g: [r[g] for r in self.rows] for g in names})
        return t[names[0]] if one else t

    def get_reload_path(self, i):
        return 'file %d' % list(range(len(self.rows)))[int(i)]


class Experiment:
    def __init__(self, log):
        self.log = log

    def set_gate_voltages(self, new_gate_voltages):
        self.log.append(('set', new_gate_voltages.copy()))


class Desk:
    """the interface with its reload windows"""
    def __init__(self, c, with_tuner=True):
        del WIDGETS[:]
        self.c, self.log, self.stored = c, [], {}
        self.m = m = c.module('gui', **qt())
        self.bench = c.bench()
        c.scheduled(m, self.bench)
        self.gates = ['first', 'second'][:1 + c.choice('number_of_gates', 2)]
        self.rows = [{g: c.real('voltage', nan=False) for g in self.gates} for _ in range(1 + c.choice('number_of_runs', 3))]
        self.experiment = Experiment(self.log)
        self.used = Tuner(c, self.bench, 'first', self.log, self.experiment) if with_tuner else None
        self.history = Record(c, self.bench, self.gates, self.rows)
        c.patch(c.q.autotuner, 'load_auto_tuner', self.load)
        self.gui = c.run(m.GUI, self.used, self.history)
        self.windows = []

    def load(self, file, reserved):
        t = Tuner(self.c, self.bench, file, self.log, reserved.get('experiment'))
        self.log.append(('load', file, dict(reserved), t))
        return t

    def window(self):
        del WIDGETS[:]
        self.c.run(self.gui.spawn_reload_window)
        buttons = [w for w in WIDGETS if isinstance(w, Button)]
        lines = [w for w in WIDGETS if isinstance(w, Line)]
        a = [b for b in buttons if 'oltage' in b.title]
        s = [b for b in buttons if 'tate' in b.title]
        if len(a) != 1 or len(s) != 1 or len(lines) != 1:
            return None             # another layout: not judged
        self.windows.append((a[0], s[0], lines[0]))
        return self.windows[-1]

    def choose(self, w, text):
        w[2].setText(text)
        w[2].editingFinished.emit()

    def selected(self, w):
        """the run number shown"""
        try:
            return int(w[2].text())
        except ValueError:
            return None

    def step(self):
        """whoever iterates next"""
        before = len(self.history.got)
        self.c.run(self.gui.step)
        c29.turn(self.bench, 12)
        self.c.run(self.gui.pause)
        c29.turn(self.bench, 3)
        return self.history.got[before:]


TEXTS = ['0', '1', '2', '-1', '7', 'x', '']


def wanted(text, n):
    try:
        k = int(text)
    except ValueError:
        k = 0
    return min(max(k, 0), n - 1)


@contract('C34', FUN, kind='bounded', paths=20000, budget=240., note=NOTE)
def reload_actions(c):
    d = Desk(c)
    two = c.choice('windows', 2)
    if any(d.window() is None for _ in range(1 + two)):
        c.run(d.gui.close)
        return
    n = len(d.rows)
    for _ in range(c.choice('actions', 3 if c.symbolic else 6)):
        w = d.windows[c.choice('window', 1 + two)]
        if c.choice('choose_run', 2):
            text = TEXTS[c.choice('text', len(TEXTS))]
            d.choose(w, text)
            k = wanted(text, n)
            c.ensure('the run number selected is shown', d.selected(w) == k)
        else:
            k = d.selected(w)
            c.ensure('a recorded run number is shown', k is not None and (0 <= k < n or n == 1))
            if k is None:
                break
            k = min(k, n - 1)
        del d.log[:]
        if c.choice('what', 2):
            w[1].clicked.emit()
            loads = [e for e in d.log if e[0] == 'load']
            ok = len(d.log) == 2 and len(loads) == 1 and d.log[0] is loads[0]
            c.ensure('the state is loaded once, and restarted', ok and d.log[1] == ('restart', loads[0][3]))
            if not ok:
                break
            c.ensure('from the reload path of the run, with the reserved objects in use', loads[0][1] == 'file %d' % k and
                     set(loads[0][2]) == {'experiment'} and loads[0][2]['experiment'] is d.experiment)
            d.used = loads[0][3]
        else:
            w[0].clicked.emit()
            ok = len(d.log) == 2 and d.log[0][0] == 'set' and d.log[1][0] == 'restart'
            c.ensure('the voltages are set once, then the autotuner in use is restarted', ok and d.log[1][1] is d.used)
            if not ok:
                break
            v = d.log[0][1]
            c.ensure('exactly the gates of the run', c.And(c.size(v.index) == len(d.gates), *[c.has(v.index, g) for g in d.gates]))
            c.ensure('exactly the recorded voltages of the run', c.And(*[c.eq(c.at(v, g), d.rows[k][g]) for g in d.gates]))
    c.ensure('the worker goes on with the autotuner in use', [x is d.used for x in d.step()] == [True])
    c.run(d.gui.close)


@contract('C34', FUN, kind='bounded', paths=20000, budget=120., note=NOTE + '; one state reloaded while an iteration is under way')
def reload_meanwhile(c):
    d = Desk(c)
    w = d.window()
    if w is None:
        c.run(d.gui.close)
        return
    old = d.used
    c.run(d.gui.step)
    c29.turn(d.bench, c.choice('turns', 5))
    busy = old.begun > 0
    w[1].clicked.emit()
    loads = [e for e in d.log if e[0] == 'load']
    c29.turn(d.bench, 12)
    if len(loads) == 1:
        new = loads[0][3]
        c.ensure('every iteration is recorded for the autotuner that made it',
                 sum(x is old for x in d.history.got) == old.finished and sum(x is new for x in d.history.got) == new.finished)
        c.ensure('one iteration', old.finished + new.finished == 1 and (not busy or old.finished == 1))
    c.run(d.gui.close)


@contract('C34', FUN, kind='bounded', note=NOTE + '; no autotuner')
def reload_without_autotuner(c):
    d = Desk(c, with_tuner=False)
    w = d.window()
    if w is not None:
        w[c.choice('what', 2)].clicked.emit()
        c.ensure('nothing is set or loaded', d.log == [])
    c.run(d.gui.close)
