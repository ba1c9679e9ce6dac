"""Backends of the hardware: voltages and scans handed to MATLAB (the engine is replaced by its contract: it records what it is
given; voltages read after setting are whatever the hardware made of them)."""
import types
from dv.base import contract
from .common import *
from .c30 import matlab

NAMES = ['T', 'N', 'SA', 'RFB']
MAT = 'qtune.sm.'


def sm(c):
    m = matlab()
    m.engine.MatlabEngine = type('MatlabEngine', (), {})
    return c.module('sm', matlab=m)


def qqd(c):
    sm(c)
    c.module('mat2py')
    c.module('history')
    return c.module('sm_tune_qqd')


class Engine:
    """routines of +qtune as recorders; reading returns the present voltages in the order MATLAB stores them"""

    def __init__(self, c, volts, reported=None):
        self.calls, self.now, self.reported = [], dict(volts), reported

        def read():
            return dict(self.now)

        def put(v):
            self.calls.append(('set', v))
            if self.reported is not None:
                self.now = dict(self.reported)
            return dict(self.now)
        self.qtune = types.SimpleNamespace(read_gate_voltages=read, read_qqd_gate_voltages=read, set_gates_v_pretuned=put, set_qqd_gate_voltages=put)

    def routine(self, name, result):
        setattr(self.qtune, name, lambda *a: (self.calls.append((name,) + a), result)[1])


def instance(c, engine):
    return c.make(sm(c).SpecialMeasureMatlab, engine=property(lambda x: engine))


def device(c, kind, engine):
    """the backend under test on the given engine"""
    matl = instance(c, engine)
    return c.run(sm(c).LegacyDQDRefactored if kind == 'LegacyDQDRefactored' else qqd(c).SMTuneQQD, matl)


def order(c, n, name):
    """some order of 0..n-1"""
    left, out = list(range(n)), []
    while left:
        out.append(left.pop(c.choice(name, len(left))))
    return out


def series_of(c, values):
    """the series of these voltages in this order"""
    return c.list_series(c.index_of(list(values)), list(values.values()))


BACKENDS = ['LegacyDQDRefactored', 'SMTuneQQD']


@contract('C32', ['LegacyDQDRefactored.set_gate_voltages', 'LegacyDQDRefactored.read_gate_voltages', 'SMTuneQQD.set_gate_voltages',
                  'SMTuneQQD.read_gate_voltages', 'SpecialMeasureMatlab.to_matlab'], kind='bounded',
          note='devices of 1..3 gates in every order, any subset of them set in any order; arbitrary voltages, hardware may report any others')
def setting_gates(c):
    n = 1 + c.choice('gates', 3)
    names = [NAMES[i] for i in order(c, n, 'stored_order')]
    chosen = [g for g in names if c.fork('set_' + g)]
    chosen = [chosen[i] for i in order(c, len(chosen), 'order')]
    volts = {g: c.real('present_' + g) for g in names}
    wanted = {g: c.real('wanted_' + g) for g in chosen}
    reported = {g: c.real('reported_' + g) for g in names}
    engine = Engine(c, volts, reported)
    d = device(c, BACKENDS[c.choice('backend', 2)], engine)
    first = c.run(d.read_gate_voltages)
    c.ensure('reading gives the present voltages', c.And(c.index_same(first.index, c.index_of(names)), *[c.eq(c.at(first, g), volts[g]) for g in names]))
    new = series_of(c, wanted) if chosen else c.empty_series()
    before = c.snap(new)
    r = c.run(d.set_gate_voltages, new)
    c.ensure('set once', len(engine.calls) == 1)
    if len(engine.calls) != 1:
        return
    sent = engine.calls[0][1]
    c.ensure('every gate of the device is sent', sorted(sent) == sorted(names))
    if sorted(sent) != sorted(names):
        return
    c.ensure('named gates get the wanted voltages, others keep theirs', c.And(*[c.eq(sent[g], wanted.get(g, volts[g])) for g in names]))
    c.ensure('plain numbers are sent', all(type(v) is float for v in sent.values()) if not c.symbolic else True)
    c.ensure('the voltages the hardware reports are returned', c.And(c.index_same(r.index, c.index_of(names)), *[c.eq(c.at(r, g), reported[g]) for g in names]))
    if chosen:
        c.ensure('the request is not changed', c.series_same(new, before))


@contract('C32', ['LegacyDQDRefactored.set_gate_voltages', 'SMTuneQQD.set_gate_voltages'], kind='bounded',
          note='devices of 1..3 gates, a request that names a gate the device does not have')
def unknown_gate(c):
    n = 1 + c.choice('gates', 3)
    names = NAMES[:n]
    chosen = [g for g in names if c.fork('set_' + g)]
    chosen.insert(c.choice('where', len(chosen) + 1), 'elsewhere')
    engine = Engine(c, {g: c.real('present_' + g) for g in names})
    d = device(c, BACKENDS[c.choice('backend', 2)], engine)
    r = c.call(d.set_gate_voltages, series_of(c, {g: c.real('wanted_' + g) for g in chosen}))
    c.ensure('refused', r.exc is not None)
    c.ensure('nothing is set', not engine.calls)


SCANS = {'line_scan': ('PythonChargeLineScan', ['center', 'range', 'gate', 'N_points', 'ramptime', 'N_average', 'AWGorDecaDAC']),
         'detune_scan': ('PythonLineScan', ['center', 'range', 'N_points', 'ramptime', 'N_average', 'AWGorDecaDAC']),
         'lead_scan': ('LeadScan', ['gate', 'AWGorDecaDAC']),
         'load_scan': ('LoadScan', ['gate']),
         '2d_scan': ('PythonQPCScan2D', ['range', 'n_points'])}
TEXT = {'gate': 'RFA', 'AWGorDecaDAC': 'DecaDAC'}


@contract('C32', ['LegacyDQDRefactored.measure'], kind='bounded', note='the five scans and an unknown one, with any subset of their options (a 2d scan with both)')
def scans(c):
    kinds = sorted(SCANS) + ['some_scan']
    kind = kinds[c.choice('scan', len(kinds))]
    routine, options = SCANS.get(kind, (None, ['center', 'range']))
    given = {o: TEXT[o] if o in TEXT else c.real(o) for o in options if kind == '2d_scan' or c.choice('given', 2)}
    engine = Engine(c, {})
    result = c.vector('scan', c.names('samples', size=3))
    for r, _ in SCANS.values():
        engine.routine(r, result)
    d = device(c, 'LegacyDQDRefactored', engine)
    m = c.run(c.q.experiment.Measurement, kind, **given)
    if routine is None:
        r = c.call(d.measure, m)
        c.ensure('an unknown scan is refused', c.And(r.exc is not None, not engine.calls))
        return
    r = c.run(d.measure, m)
    c.ensure('the routine of the scan runs once', [x[0] for x in engine.calls] == [routine])
    if [x[0] for x in engine.calls] != [routine]:
        return
    args = engine.calls[0][1]
    c.ensure('with all options of the measurement', c.And(*[o in args and c.eq(args[o], v) if o not in TEXT else args.get(o) == v for o, v in given.items()]))
    c.ensure('and no others', sorted(set(args) - {'file_name'}) == sorted(given))
    c.ensure('stored under a file name', isinstance(args.get('file_name'), str))
    c.ensure('the scan is returned', c.array_same(r, result))
    c.ensure('the measurement is not changed', c.And(sorted(m.options) == sorted(given), *[c.eq(m.options[o], v) for o, v in given.items() if o not in TEXT]))


@contract('C32', ['SMTuneQQD.measure', 'SMTuneQQD.pytune', 'SMTuneQQD.tune'], kind='bounded',
          note='every measurement of the device and an unknown one, with up to 3 options; the MATLAB function view is replaced by its contract (it records its call)')
def qqd_measurements(c):
    mod = qqd(c)
    d = device(c, 'SMTuneQQD', Engine(c, {}))
    known = sorted(m.name for m in d.measurements())
    names = ['chrg', 'chrg rnd', 'chrg s', 'lead', 'line', 'load', 'load pos', 'resp', 'sensor', 'sensor 2d', 'stp', 'tl']
    c.ensure('the measurements of the device', known == names)
    name = (names + ['some_scan'])[c.choice('measurement', 13)]
    options = {o: 'text' if o == 'mode' else c.real(o) for o in ('range', 'mode', 'npoints')[:c.choice('options', 4)]}
    index = c.int('index', 1, 9)
    calls = []
    ana = types.SimpleNamespace(STp_x=c.real('STp_x'), STp_y=c.real('STp_y'), Tp_x=c.real('Tp_x'), Tp_y=c.real('Tp_y'))
    data = types.SimpleNamespace(ana=ana)

    class View:
        def __init__(self, engine, function):
            self.function = function

        def __call__(self, *args):
            calls.append((self.function,) + args)
            return data
    c.patch(mod.mat2py, 'MATLABFunctionView', View)
    m = c.run(c.q.experiment.Measurement, name, index=index, **options)
    r = c.call(d.measure, m)
    if name == 'some_scan':
        c.ensure('an unknown measurement is refused', c.And(r.exc is not None, not calls))
        return
    c.ensure('measures', r.exc is None)
    c.ensure('one call of tune', len(calls) == 1)
    if r.exc is not None or len(calls) != 1:
        return
    f, args = calls[0][0], list(calls[0][1:])
    c.ensure('of the operation at its index', c.And(f == 'tune.tune', len(args) == 2 + 2 * len(options), args[0] == name, c.eq(args[1], index)))
    if len(args) != 2 + 2 * len(options):
        return
    pairs = {args[i]: args[i + 1] for i in range(2, len(args), 2)}
    c.ensure('with all options by name', c.And(sorted(pairs) == sorted(options), *[pairs.get(o) == v if o == 'mode' else c.eq(pairs.get(o, 0.), v) for o, v in options.items()]))
    c.ensure('the measurement is not changed', c.And(sorted(m.options) == sorted(list(options) + ['index']), c.eq(m.options.get('index', 0), index)))
    if name in ('stp', 'tl'):
        want = [ana.STp_x, ana.STp_y] if name == 'stp' else [ana.Tp_x, ana.Tp_y]
        c.ensure('the position of the triple point', c.And(*[c.eq(r.value[i], want[i]) for i in range(2)]))
    else:
        c.ensure('the data of the measurement', r.value['data'] is data)


@contract('C32', ['SpecialMeasureMatlab.to_matlab'], kind='concrete', reps=2.,
          note='arrays of up to 5x5 of five types (also transposed and strided), numbers, containers of them; MATLAB typecast, reshape and transpose as documented')
def conversion(c):
    import numpy as np
    types_ = {'double': 'float64', 'single': 'float32', 'int32': 'int32', 'uint64': 'uint64'}

    class Eng:
        def typecast(self, raw, t):
            return np.frombuffer(raw, types_[t])

        def reshape(self, a, *shape):
            return np.reshape(np.asarray(a), shape, order='F')

        def transpose(self, a):
            return np.asarray(a).T
    matl = instance(c, Eng())
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    dt = sorted(types_.values())[c.choice('type', 4)]
    a = (rng.rand(1 + c.choice('rows', 5), 1 + c.choice('columns', 5)) * 100).astype(dt)
    how = c.choice('layout', 4)
    a = [a, a.T, a[::2], a[0]][how]
    r = c.run(matl.to_matlab, a)
    c.ensure('the same matrix', r.shape == (a.shape if a.ndim == 2 else (1,) + a.shape) and np.array_equal(r, np.atleast_2d(a)) and r.dtype == a.dtype)
    x = float(rng.randn())
    for v in (x, int(7 * x), np.float64(x), np.float32(x), np.int64(5), np.int32(-3)):
        w = c.run(matl.to_matlab, v)
        c.ensure('the same number as a plain number', type(w) in (float, int) and w == v)
    s = c.series('series', c.names('labels'))
    w = c.run(matl.to_matlab, s)
    c.ensure('a series becomes a structure by name', isinstance(w, dict) and {k: float(v) for k, v in w.items()} == dict(s))
    w = c.run(matl.to_matlab, [x, [1, np.float64(x)], {'a': x}])
    c.ensure('containers keep their kind and contents', w == [x, [1, x], {'a': x}] and [type(e) for e in w] == [float, list, dict])
    w = c.run(matl.to_matlab, (1, np.float64(x)))
    c.ensure('tuples stay tuples', w == (1, x))
    for bad in (object(), 'text', rng.rand(2).astype('complex128')):
        c.ensure('other values are refused', c.call(matl.to_matlab, bad).exc is not None)


class Session:
    """a running MATLAB: whether special measure is set up, which qtune is on its path"""

    def __init__(self, mod, pid, smdata, script_works, path, addable):
        self.mod, self.pid, self.smdata, self.script_works, self.path, self.addable = mod, pid, smdata, script_works, path, addable
        self.log = []
        self.qtune = self.matlab = self.engine = self

    def feature(self, what):
        return self.pid

    def engineName(self):
        return self.pid

    def exist(self, name):
        return 1 if name == 'smdata' and self.smdata else 0

    def setup(self):
        self.log.append('setup')
        self.smdata = self.script_works

    def find_qtune(self, **streams):
        if self.path is None:
            raise self.mod.matlab.engine.MatlabExecutionError('undefined')
        return self.path

    def addpath(self, path):
        self.log.append('addpath')
        if self.addable:
            self.path = path


@contract('C32', ['SpecialMeasureMatlab.__init__', 'SpecialMeasureMatlab._start_engine', 'SpecialMeasureMatlab._connect_to_engine',
                  'SpecialMeasureMatlab._init_special_measure', 'SpecialMeasureMatlab._add_qtune_to_path'], kind='bounded',
          note='every combination of a new or running session (reached by name or not, connected before or not), special measure set up or not, '
               'a working, failing or no setup script, its own, another or no qtune on the path; sessions are recorders')
def connecting(c):
    mod = sm(c)
    ours, other = mod.matlab_files_path(), '/elsewhere'
    c.patch(mod.os.path, 'samefile', lambda a, b: a == b)
    warned = []
    c.patch(mod.warnings, 'warn', lambda *a, **k: warned.append(a))
    name = ['new', 'any', 'named'][c.choice('session', 3)]
    before = name != 'new' and c.fork('connected_before')
    smdata, script, works = c.fork('smdata'), c.fork('script'), c.fork('script_works')
    path = [None, other, ours][c.choice('path', 3)]
    overwrite = [None, True, False][c.choice('overwrite', 3)]
    gui = [None, True, False][c.choice('gui', 3)] if name == 'new' else None
    addable = c.fork('addable')
    fresh = Session(mod, 'MATLAB_%s' % id(c), True if before else smdata, works, path, addable)
    opened = []
    c.patch(mod.matlab.engine, 'start_matlab', lambda *a: (opened.append(('start',) + a), fresh)[1])
    c.patch(mod.matlab.engine, 'connect_matlab', lambda *a: (opened.append(('connect',) + a), fresh)[1])
    c.patch(mod.SpecialMeasureMatlab, 'connected_engines', mod.weakref.WeakValueDictionary())
    fresh.pid = 7 if name == 'new' else 'MATLAB_7'
    if before:
        fresh.path, fresh.addable = ours, True
        c.run(mod.SpecialMeasureMatlab, fresh.pid)
        fresh.smdata, fresh.path, fresh.addable = smdata, path, addable
        opened.clear()
        fresh.log.clear()
        warned.clear()
    connect = {'new': None, 'any': True, 'named': fresh.pid}[name]
    options = {} if gui is None else dict(gui=gui)
    r = c.call(mod.SpecialMeasureMatlab, connect, special_measure_setup_script='setup' if script else None, silently_overwrite_path=overwrite, **options)
    if name == 'new':
        c.ensure('a new session is started, with a desktop unless asked not to', opened == [('start', '-nodesktop' if gui is False else '-desktop')])
    elif before:
        c.ensure('a session is not connected twice', opened == [])
    else:
        c.ensure('the session is connected', opened == [('connect',) + ((fresh.pid,) if name == 'named' else ())])
    need = not smdata and script
    c.ensure('the setup script runs if special measure is not set up', fresh.log.count('setup') == (1 if need else 0))
    failed = need and not works
    replace = path is None or path == other and overwrite is not False
    failed = failed or path is None and not addable
    c.ensure('fails if it could not be set up', (r.exc is not None) == bool(failed))
    if r.exc is None:
        c.ensure('the session is used', r.value.engine is fresh)
        c.ensure('this qtune is put on the path unless told not to', fresh.log.count('addpath') == (1 if replace else 0))
        c.ensure('another qtune is overridden with a warning unless silenced', bool(warned) == (path == other and overwrite is None))
