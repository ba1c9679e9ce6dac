import inspect
from dv.base import contract
from .c17 import setup, same_value

FUN = ['AsynchronousHDF5Writer.__init__', 'AsynchronousHDF5Writer._initialize', 'AsynchronousHDF5Writer.write', 'AsynchronousHDF5Writer.join',
       'AsynchronousHDF5Writer.restart', '_writer_target']


class Fault(Exception):
    pass


class Device:
    """stands for the reserved experiment"""
    def __init__(self, state):
        self.state = state


def storing(c, calls, fails):
    """contract of to_hdf5: it sees the request, and fails or not"""
    sig = inspect.signature(c.q.storage.to_hdf5)

    def to_hdf5(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        b = b.arguments
        i = len(calls)
        calls.append((b['filename_or_handle'], b['name'], b['obj'], b['reserved']))
        if fails[i]:
            raise fails[i]
    c.patch(c.q.storage, 'to_hdf5', to_hdf5)


def stopped(c, bench):
    return all(not w.is_alive() for w in bench.workers)


@contract('C19', FUN, kind='bounded', note='up to three requests, every pattern of failures, and every schedule of the worker between the requests')
def histories(c):
    bench = c.bench()
    calls, fails = [], [c.fork('fails') and (Fault('fault') if c.fork('exception') else KeyboardInterrupt()) or None for _ in range(3)]
    storing(c, calls, fails)
    dev = Device(c.real('state'))
    res = dict(experiment=dev)
    w = c.run(c.q.storage.AsynchronousHDF5Writer, res, multiprocess=c.fork('process'))
    c.assume(len(bench.workers) == 1 and len(bench.queues) == 1)
    worker, que = bench.workers[0], bench.queues[0]
    c.ensure('the worker runs', worker.started)
    res['late'] = object()
    asked = []
    names = c.names('gates')
    for i in range(c.choice('requests', 4)):
        x = c.series('voltages', names)
        dev.state = c.real('state')
        obj = {'v': x, 'l': [dev, x], 'n': c.real('number')}
        alive, before = worker.is_alive(), que.put_count
        r = c.call(w.write, obj, 'file%d' % i, 'name%d' % i)
        c.ensure('refused exactly if the worker has ended', r.ok == alive)
        c.ensure('refused requests are not queued, others once', que.put_count == before + alive)
        if alive:
            asked.append((c.snap(x), dev.state, obj['n']))
        # what happens to the objects afterwards must not matter
        if c.size(names) > 0:
            x[:] = 0.
        obj['v'] = None
        obj['l'].append(1)
        obj['n'] = None
        dev.state = None
        if c.fork('worker runs'):
            worker.step()
    end = c.choice('end', 2)
    if end == 0:
        r = c.run(w.join)
        c.ensure('the worker has ended', not worker.is_alive())
        c.ensure('further requests are refused', c.call(w.write, [], 'file', 'name').raised)
        c.ensure('stopping again is possible', c.call(w.join).ok)
    else:
        worker.step()
    first = [i for i in range(len(asked)) if fails[i]]
    n = first[0] + 1 if first else len(asked)
    c.ensure('the requests in their order, up to the first failure', [x[:2] for x in calls] == [('file%d' % i, 'name%d' % i) for i in range(n)])
    for (v, state, num), (_, _, obj, reserved) in zip(asked, calls):
        c.ensure('the object as requested', isinstance(obj, dict) and sorted(obj) == ['l', 'n', 'v'] and len(obj['l']) == 2)
        c.ensure('its content at the time of the request', c.And(c.series_same(obj['v'], v), c.eq(obj['n'], num)))
        c.ensure('its own sharing', obj['l'][1] is obj['v'])
        c.ensure('the reserved objects given at the start', isinstance(reserved, dict) and list(reserved) == ['experiment'])
        c.ensure('sharing with reserved objects', obj['l'][0] is reserved['experiment'])
        c.ensure('captured at the request', c.And(reserved['experiment'] is not dev, c.eq(reserved['experiment'].state, state)))
    c.ensure('every processed request is acknowledged once', que.done == que.got and not que.overdone)
    c.ensure('and nothing else is taken', que.got == len(calls) + (end == 0 and not first))
    if first:
        c.ensure('the failure is raised', worker.exc is fails[first[0]])
        c.ensure('and logged', c.errors_logged() == 1)
        c.ensure('the worker has ended', not worker.is_alive())
    else:
        c.ensure('nothing is raised', worker.exc is None)
        c.ensure('nothing is logged', c.errors_logged() == 0)
        c.ensure('the worker waits for the next request', worker.is_alive() == (end == 1))


@contract('C19', FUN, kind='bounded', note='restart after up to two requests of which any may fail')
def restarted(c):
    bench = c.bench()
    calls, fails = [], [Fault('fault') if c.fork('fails') else None for _ in range(3)]
    storing(c, calls, fails)
    w = c.run(c.q.storage.AsynchronousHDF5Writer, {}, multiprocess=c.fork('process'))
    c.assume(len(bench.workers) == 1)
    n = c.choice('requests', 3)
    for i in range(n):
        c.run(w.write, [c.real('number')], 'file%d' % i, 'name%d' % i)
    c.run(w.restart)
    done = len(calls)
    c.ensure('the old worker has ended', not bench.workers[0].is_alive())
    c.ensure('earlier requests were processed', done == n or any(fails[:done]))
    c.ensure('a new worker runs', len(bench.workers) == 2 and bench.workers[1].is_alive())
    x = c.real('number')
    c.run(w.write, [x], 'file', 'name')
    fails[done:] = [None] * 3
    c.run(w.join)
    c.ensure('and processes the next request', len(calls) == done + 1 and calls[-1][:2] == ('file', 'name'))
    c.ensure('of this content', c.eq(calls[-1][2][0], x))


@contract('C19', FUN + ['to_hdf5', 'from_hdf5'], kind='bounded', note='two files of one object')
def files(c):
    """what is in the files"""
    setup(c)
    bench = c.bench()
    dev = Device(c.real('state'))
    w = c.run(c.q.storage.AsynchronousHDF5Writer, dict(experiment=dev), multiprocess=c.fork('process'))
    c.assume(len(bench.workers) == 1)
    x = c.series('voltages', c.names('gates'), nan=True)
    shared = [c.real('number')]
    pair = c.q.storage.serializables['DvPair']
    p = c.data_folder()
    obj = pair(dev, [x, shared, shared])
    old = [c.snap(x), list(shared)]
    c.run(w.write, obj, p + '/one.hdf5', 'program')
    new = [c.real('number')]
    obj.b = [new]
    shared.append(c.real('number'))
    c.run(w.write, obj, p + '/two.hdf5')
    c.run(w.join)
    c.ensure('no failure', bench.workers[0].exc is None)
    other = object()
    r = c.run(c.q.storage.from_hdf5, p + '/one.hdf5', dict(experiment=other))
    c.ensure('the reserved object of the load', isinstance(r, dict) and r['program'].a is other)
    c.ensure('the first state', c.And(len(r['program'].b) == 3, same_value(c, [old[0], old[1]], r['program'].b[:2]), r['program'].b[1] is r['program'].b[2]))
    r = c.run(c.q.storage.from_hdf5, p + '/two.hdf5', dict(experiment=other))
    k = [k for k in r if k != 'experiment']
    c.ensure('the second state under a name of its time', len(k) == 1 and r[k[0]].a is other and same_value(c, [new], r[k[0]].b))
