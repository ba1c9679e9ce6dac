from dv.base import contract
from .common import *
import os.path

FUN = ['Autotuner.iterate', 'Autotuner.save_current_status', 'Autotuner.asynchrone_writer', 'Autotuner.__init__']


def writer(c, log, probe):
    """background writer contract: a write captures the object as it is at the time of the request"""
    def make(*a, **k):
        def write(self, obj, file_name=None, name=None, *aa, **kk):
            log.append(('write', obj, file_name, name, probe(obj)))

        class W:
            pass
        W.write = write
        log.append(('writer', k.get('reserved', a[0] if a else None)))
        return W()
    for m in (c.q.autotuner, c.q.storage):
        c.patch(m, 'AsynchronousHDF5Writer', make)


@contract('C26', FUN, kind='bounded', note='hierarchies of 1..2 groups are enumerated',
          cross='saved_each_iteration_any_hierarchy')
def saved_each_iteration(c):
    mode = c.choice('storage', 3)
    path = None if mode == 0 else c.folder('folder')
    logw = []
    s = None

    def probe(at):
        return at_state(at), c.snap(at.voltages_to_set), len(acts(s['log']))
    writer(c, logw, probe)
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('number_of_groups', 2)
    exp, state, log = experiment(c, gates)
    h = [tuner(c, k, gates, log) for k in range(n)]
    idx = c.choice('position', n + 1)
    pending, status = None, False
    if idx < n:
        m = c.choice('mode', 3)
        if m == 0:
            pending = c.series('pending', c.subnames('pending_gates', gates), nan=True)
        status = m == 1
    old = None
    at = c.run(c.q.autotuner.Autotuner, exp, h, current_tuner_index=idx, current_tuner_status=status, voltage_to_set=pending,
               hdf5_storage_path=path, append_time_to_path=mode == 2, last_save_file=old)
    s = dict(log=log, at=at, n=n, exp=exp, idx=idx, pending=pending)
    saved(c, s, mode, path, logw)


@contract('C26', FUN, note='any number of groups; the readiness check (C23) and the set of tuned parameters (C04) are replaced by their contracts')
def saved_each_iteration_any_hierarchy(c):
    mode = c.choice('storage', 3)
    path = None if mode == 0 else c.folder('folder')
    logw = []
    writer(c, logw, lambda at: (at_state(at), c.snap(at.voltages_to_set), len(acts(s['log']))))
    s = any_autotuner(c, pending_nan=True, storage=path, timed=mode == 2)
    saved(c, s, mode, path, logw)


def saved(c, s, mode, path, logw):
    at, log, n, exp, idx, pending = (s[k] for k in ('at', 'log', 'n', 'exp', 'idx', 'pending'))
    old = None
    base = at.to_hdf5()['hdf5_storage_path']
    if mode == 0:
        c.ensure('no folder', base is None)
    else:
        c.ensure('inside the given folder', isinstance(base, str) and (base == path if mode == 1 else os.path.dirname(base) == path))
    del log[:]
    r = c.call(at.iterate)
    w = [e for e in logw if e[0] == 'write']
    if r.raised:
        c.ensure('an iteration fails only when it is refused',
                 c.Or(idx == n, pending is not None and c.any(pending.index, lambda g: c.isnan(c.at(pending, g)))))
        c.ensure('a failed iteration writes nothing', len(w) == 0)
        c.ensure('a failed iteration keeps the last save file', at.last_save_file is old)
        return
    if mode == 0:
        c.ensure('without folder nothing is written', len(w) == 0)
        c.ensure('without folder no save file', at.last_save_file is None)
        return
    c.ensure('exactly one write', len(w) == 1)
    if len(w) != 1:
        return
    _, obj, fname, name, (st, pend, nacts) = w[0]
    c.ensure('the autotuner itself is written', obj is at)
    c.ensure('under the name which is loaded', name == 'autotuner')
    c.ensure('after the state change', c.And(st[0] == at.current_tuner_index, c.eq(st[1], at.current_tuner_status),
                                             same_pending(c, pend, at.voltages_to_set), nacts == len(acts(log))))
    c.ensure('to a file in the folder', isinstance(fname, str) and os.path.dirname(fname) == base and len(os.path.basename(fname)) > 0)
    c.ensure('which is the last save file', at.last_save_file == fname)
    c.ensure('the folder exists', c.is_dir(base))
    r = [e for e in logw if e[0] == 'writer']
    c.ensure('the experiment is reserved', len(r) == 1 and isinstance(r[0][1], dict) and
             [k for k, v in r[0][1].items() if v is exp] == ['experiment'] and len(r[0][1]) == 1)


@contract('C26', FUN, note='any number of groups in any state; two successive iterations')
def distinct_files(c):
    """two successive iterations write to different files"""
    path = c.folder('folder')
    logw = []
    writer(c, logw, lambda at: None)
    at = any_autotuner(c, pending_nan=True, storage=path)['at']
    if not c.call(at.iterate).ok:
        return
    first = at.last_save_file
    r = c.call(at.iterate)
    if not r.ok:
        return
    w = [e for e in logw if e[0] == 'write']
    c.ensure('one write per iteration', len(w) == 2)
    if len(w) == 2:
        c.ensure('different files', w[0][2] != w[1][2])
        c.ensure('last save file is the newest', at.last_save_file == w[1][2] and first == w[0][2])
