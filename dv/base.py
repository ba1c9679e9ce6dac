"""Parts of the scenario context shared by the symbolic and the concrete interpretation of a contract."""


class Outcome:
    """result of a call of the code under contract"""
    __slots__ = ('value', 'exc')

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def raised(self):
        return self.exc is not None

    @property
    def why(self):
        return type(self.exc).__name__ if self.exc is not None else ''


class Scenario:
    def __init__(self, prop, fn, functions, kind, note, paths, budget, reps, assumes, cross):
        self.prop, self.fn, self.functions, self.kind, self.note = prop, fn, functions, kind, note
        self.name = fn.__name__
        self.paths, self.budget, self.reps, self.assumes, self.cross = paths, budget, reps, assumes, cross


REG = {}


def contract(prop, functions=(), kind='proof', note='', paths=4000, budget=60., reps=1.0, assumes=(), cross=''):
    """register a contract scenario.

    kind: 'proof'   unbounded in every input
          'bounded' symbolic, but a sequence length or dimension is enumerated up to the bound in `note`
          'concrete' only executed on the real code with generated inputs (bounded stand-in)
    cross: the scenarios that prove the same claims without bound (this one is a cross-check)
    """
    def deco(fn):
        REG.setdefault(prop, []).append(Scenario(prop, fn, list(functions), kind, note, paths, budget, reps, list(assumes), cross))
        return fn
    return deco


class BaseCtx:
    """helpers expressed in terms of the primitives"""

    def uniq(self, name):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)

    def make(self, base, **ns):
        """instance of a dynamically created subclass; methods in `ns` replace the code of the base class by its contract"""
        attrs = ns.pop('_attrs', {})
        cls = type.__new__(type(base), 'Stub' + base.__name__, (base,), dict(ns))
        o = object.__new__(cls)
        for k, v in attrs.items():
            o.__dict__[k] = v
        return o

    def patch(self, obj, name, value):
        """replace a collaborator by its contract for the rest of this scenario"""
        missing = object()
        old = obj.__dict__.get(name, missing)
        self._undo.append((obj, name, old, missing))
        setattr(obj, name, value)

    def bench(self):
        """queues and workers scheduled by the scenario"""
        from .workers import Bench
        b = self._bench = Bench()
        self.install_bench(b)
        return b

    def scheduled(self, module, bench):
        """let the scenario schedule what this module starts"""
        for name, stub in (('Thread', bench.Worker), ('threading', bench.threading), ('time', bench.time), ('sleep', bench.time.sleep),
                           ('Event', bench.Event), ('Lock', bench.Lock), ('RLock', bench.RLock)):
            if name in module.__dict__:
                self.patch(module, name, stub)

    def cleanup(self):
        if getattr(self, '_bench', None) is not None:
            self._bench.close()
        while self._undo:
            obj, name, old, missing = self._undo.pop()
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

    def same(self, a, b):
        """by-name equality of two labelled values (nan equals nan)"""
        return self.series_same(a, b)

    def frame_same(self, a, b, cols):
        return self.And(self.index_same(a.index, b.index), *[self.series_same(a[k], b[k]) for k in cols])

    def unchanged(self, label, old, new):
        self.ensure(label, self.series_same(old, new))
