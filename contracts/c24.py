from dv.base import contract

FUN = ['nth_diff', 'moving_average_filter', 'new_find_lead_transition_index', 'find_lead_transition']


def signal(c, lo, hi):
    """a signal of enumerated length with arbitrary entries"""
    n = lo + c.choice('length', hi - lo + 1)
    ix = c.names('points', size=n)
    s = c.series('signal', ix)
    a = c.row_array(s) if c.fork('row') else c.flat_array(s)
    return n, [c.at(s, p) for p in ix], a


def entries(c, a, n):
    """entries of an array of n entries (None: wrong size)"""
    if not c.eq(c.total(a), n):
        return None
    return [c.flat_at(a, i) for i in range(n)]


def same_entries(c, a, xs):
    e = entries(c, a, len(xs))
    return c.And(e is not None, *[c.eq(x, y) for x, y in zip(e or [], xs)])


def windows(c, xs, w):
    """absolute differences across the windows that end before the last element"""
    return [abs(xs[i] - xs[i + w]) for i in range(0, len(xs) - w - 1)]


def check_index(c, got, start, d):
    """the window starting at got - start has the largest difference of d"""
    ok = []
    for i, x in enumerate(d):
        ok.append(c.And(c.eq(got, i + start), *[x >= y for y in d]))
    return c.Or(*ok)


@contract('C24', ['nth_diff'], kind='bounded', note='signals of up to 6 elements')
def difference(c):
    n, xs, a = signal(c, 1, 6)
    if len(c.shape(a)) == 2:
        a = a[0]
    k = c.choice('distance', n + 1)
    r = c.run(c.q.util.nth_diff, a, k)
    c.ensure('each element minus the element n places later', same_entries(c, r, [xs[i] - xs[i + k] for i in range(n - k)]))
    c.ensure('the signal is untouched', same_entries(c, a, xs))


@contract('C24', ['moving_average_filter'], kind='bounded', note='signals of up to 5 elements, windows of up to 6')
def moving_average(c):
    n, xs, a = signal(c, 1, 5)
    w = 1 + c.choice('width', 6)
    r = c.run(c.q.util.moving_average_filter, a, w)
    want = []
    for i in range(n):
        part = xs[max(0, i - w + 1):i + 1]
        want.append(sum(part[1:], part[0]) / len(part))
    c.ensure('the mean of the last width elements', same_entries(c, r, want))
    c.ensure('the signal is untouched', same_entries(c, a, xs))


@contract('C24', ['new_find_lead_transition_index'], kind='bounded', note='signals of up to 5 elements')
def transition_index(c):
    n, xs, a = signal(c, 2, 5)
    w = c.choice('width', n - 1)
    r = c.run(c.q.util.new_find_lead_transition_index, a, w)
    c.ensure('the centre of the window with the largest difference', check_index(c, r, round(w / 2), windows(c, xs, w)))
    c.ensure('the signal is untouched', same_entries(c, a, xs))


@contract('C24', ['find_lead_transition'], kind='concrete', note='signals of up to 60 elements, one or several lines')
def transition_position(c):
    import numpy as np
    n = 8 + c.choice('length', 53)
    lines = c.choice('lines', 4)
    data = np.array([[c.real('x') for _ in range(n)] for _ in range(max(1, lines))])
    a = data[0] if lines == 0 else data
    old = a.copy()
    center, rng = c.real('center') * 1e-3, (1. + abs(c.real('range'))) * 1e-3
    width = rng * c.choice('part', 4) / 16
    x = c.run(c.q.util.find_lead_transition, a, center, rng, n, width)
    w = int(width / rng * n)
    y = np.mean(old, 0) if old.ndim == 2 else old
    grid = np.linspace(center - rng, center + rng, n)
    d = windows(c, list(y), w)
    near = [i for i, v in enumerate(d) if v >= max(d) - 1e-9]
    c.ensure('the position of the centre of the steepest window', any(abs(grid[i + int(round(w / 2))] - x) < 1e-12 for i in near))
    c.ensure('the scan is untouched', np.array_equal(a, old))


@contract('C24', FUN + ['find_stepes_point_sensing_dot'], kind='concrete', note='signals of up to 80 elements')
def long_signals(c):
    import numpy as np
    n = 2 + c.choice('length', 79)
    ints = c.fork('integers')
    x = np.array([c.real('x') for _ in range(n)])
    x = np.round(x * 4).astype(int) if ints else x
    a = x.copy()
    k = c.choice('distance', n + 1)
    c.ensure('each element minus the element n places later', np.allclose(c.run(c.q.util.nth_diff, a, k), x[:n - k] - x[k:]))
    w = 1 + c.choice('width', n + 4)
    r = c.run(c.q.util.moving_average_filter, a, w)
    c.ensure('the mean of the last width elements', r.shape == (n,) and np.allclose(r, [np.mean(x[max(0, i - w + 1):i + 1]) for i in range(n)]))
    w = c.choice('window', n - 1)
    i = c.run(c.q.util.new_find_lead_transition_index, a, w)
    d = windows(c, list(x), w)
    j = i - round(w / 2)
    c.ensure('the centre of the window with the largest difference', 0 <= j < len(d) and d[j] >= max(d) - 1e-9)
    c.ensure('the signals are untouched', np.array_equal(a, x) and a.dtype == x.dtype)


@contract('C24', ['find_stepes_point_sensing_dot'], kind='concrete', note='scans of 240..400 points', reps=.05)
def steepest_point(c):
    import numpy as np
    n = 240 + c.choice('length', 160)
    x = np.cumsum([c.real('x') for _ in range(n)])
    old = x.copy()
    r = c.run(c.q.util.find_stepes_point_sensing_dot, x, 5e-3, n)
    ma = lambda v, w: np.array([np.mean(v[max(0, i - w + 1):i + 1]) for i in range(len(v))])
    s = ma(old, 200)
    s = ma(s[:-30] - s[30:], 30)
    cand = [i + 15 for i in range(len(s)) if s[i] <= s.min() + 1e-9]
    c.ensure('the centre of the steepest descent of the smoothed scan', any(abs((i - n / 2) * 5e-3 / (n / 2) - r) < 1e-12 for i in cand))
    c.ensure('the scan is untouched', np.array_equal(x, old))
