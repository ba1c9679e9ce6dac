"""Python indices as MATLAB index expressions."""
import re
import types
from dv.base import contract

FUN = ['transform_index', '_transform_int', '_transform_slice', '_transform_tuple']


def matlab():
    """assumed contract: only the names of the MATLAB engine are needed"""
    engine = types.ModuleType('matlab.engine')
    engine.MatlabExecutionError = type('MatlabExecutionError', (Exception,), {})
    m = types.ModuleType('matlab')
    m.engine = engine
    return m


class Outside(Exception):
    """not an index expression of the grammar below: the contract does not judge it"""


class Reader:
    """MATLAB semantics of index expressions: integers, end, + - *, min and max, ranges a:b and a:s:b, ':' alone, brackets"""
    def __init__(self, c, text, n):
        self.c, self.n = c, n
        self.toks = re.findall(r'\s*(\d+|\u27e8\d+\u27e9|[A-Za-z_]\w*|\S)', text)
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def take(self, t=None):
        x = self.peek()
        if x is None or t is not None and x != t:
            raise Outside(self.toks)
        self.i += 1
        return x

    def whole(self):
        if self.toks == [':']:
            return (1, 1, self.n)
        v = self.range()
        if self.peek() is not None:
            raise Outside(self.toks)
        return v

    def range(self):
        parts = [self.sum()]
        while self.peek() == ':' and len(parts) < 3:
            self.take()
            parts.append(self.sum())
        if len(parts) == 1:
            return parts[0]
        if any(isinstance(p, tuple) for p in parts):
            raise Outside(self.toks)
        return (parts[0], parts[1], parts[2]) if len(parts) == 3 else (parts[0], 1, parts[1])

    def sum(self):
        v = self.product()
        while self.peek() in ('+', '-'):
            s = self.take()
            w = self.product()
            self.scalars(v, w)
            v = v + w if s == '+' else v - w
        return v

    def product(self):
        v = self.factor()
        while self.peek() == '*':
            self.take()
            w = self.factor()
            self.scalars(v, w)
            v = v * w
        return v

    def scalars(self, *v):
        if any(isinstance(x, tuple) for x in v):
            raise Outside(self.toks)

    def factor(self):
        t = self.take()
        if t in ('-', '+'):
            v = self.factor()
            self.scalars(v)
            return -v if t == '-' else v
        if t == '(':
            v = self.range()
            self.take(')')
            return v
        if t == 'end':
            return self.n
        if t in ('min', 'max'):
            self.take('(')
            a = self.sum()
            self.take(',')
            b = self.sum()
            self.take(')')
            self.scalars(a, b)
            return (a if a <= b else b) if t == 'min' else (a if a >= b else b)
        if t.isdigit():
            return int(t)
        if t[0] == '\u27e8':
            return self.c.int_of_text(t[1:-1])
        raise Outside(self.toks)


def selects(c, text, n):
    return Reader(c, text, n).whole()


def length(c, name='length'):
    return c.int(name, 0, 9) if not c.symbolic else c.int(name, 0)


def index(c, n, name):
    c.assume(n >= 1)
    return c.int(name, -n, n - 1)


def a_slice(c, n):
    """bounds inside the sequence"""
    step = steps(c)
    up = step is None or bool(step > 0)
    start = c.int('start', -n, n if up else n - 1) if c.choice('start_given', 2) else None
    return slice(start, c.int('stop', -n, n) if c.choice('stop_given', 2) else None, step)


def single(c, label, text, i, n):
    v = selects(c, text, n)
    c.ensure(label, not isinstance(v, tuple) and v == (i + 1 if i >= 0 else n + i + 1))


def steps(c):
    k = c.choice('direction', 4)
    return None if k == 0 else c.int('step', 1, None if c.symbolic else 4) if k == 1 else -c.int('step', 1, None if c.symbolic else 4) if k == 2 else -1


def ranges(c, label, text, s, n):
    v = selects(c, text, n)
    c.ensure(label + ': a range', isinstance(v, tuple))
    if not isinstance(v, tuple):
        return
    a, d, b = v
    step = 1 if s.step is None else s.step
    up = bool(step > 0)
    norm = lambda i: i if i >= 0 else n + i
    first = (0 if up else n - 1) if s.start is None else norm(s.start)
    stop = (n if up else -1) if s.stop is None else norm(s.stop)
    k = c.int('place', 0, None if c.symbolic else 12)
    c.ensure(label + ': the step', d == step)
    off = k * step
    here = first + off < stop if up else first + off > stop
    there = a + off <= b if up else a + off >= b
    c.ensure(label + ': the same number of elements', c.Iff(here, there) if c.symbolic else bool(here) == bool(there))
    c.ensure(label + ': the same elements', a == first + 1 if here else True)


@contract('C30', FUN, kind='proof')
def integers(c):
    m = c.module('mat2py', matlab=matlab())
    n = length(c)
    i = index(c, n, 'index')
    single(c, 'the same element', c.run(m.transform_index, i), i, n)


@contract('C30', FUN, kind='proof')
def slices(c):
    m = c.module('mat2py', matlab=matlab())
    n = length(c)
    s = a_slice(c, n)
    ranges(c, 'slice', c.run(m.transform_index, s), s, n)


@contract('C30', FUN, kind='bounded', note='1..3 dimensions are enumerated; one of them has an arbitrary index, the others an arbitrary integer or the full slice', paths=20000, budget=240)
def tuples(c):
    m = c.module('mat2py', matlab=matlab())
    dims, idx = [], []
    count = 1 + c.choice('dimensions', 3)
    j = c.choice('dimension', count)
    for d in range(count):
        n = length(c)
        dims.append(n)
        full = c.choice('kind', 2) == 0
        idx.append(index(c, n, 'index') if not full else a_slice(c, n) if d == j or not c.symbolic else slice(None))
    text = c.run(m.transform_index, tuple(idx))
    parts, depth = [''], 0
    for ch in text:
        depth += (ch in '([{') - (ch in ')]}')
        if ch == ',' and depth == 0:
            parts.append('')
        else:
            parts[-1] += ch
    c.ensure('one index per dimension', len(parts) == len(idx))
    if len(parts) != len(idx):
        return
    if isinstance(idx[j], slice):
        ranges(c, 'slice of a dimension', parts[j], idx[j], dims[j])
    else:
        single(c, 'element of a dimension', parts[j], idx[j], dims[j])


class Engine:
    """assumed contract of the engine: it evaluates texts; `x` is a struct array of n elements"""
    def __init__(self, c, n, error=Outside):
        self.c, self.n, self.shown, self.error, self.kinds, self.values = c, n, [], error, {}, []
        self.util = types.SimpleNamespace(py=types.SimpleNamespace(my_eval=self.eval))

    def eval(self, text, *a, **k):
        text = text.strip()
        if text == 'numel(x)':
            return self.n
        if text == 'size(x)':
            return [[1, self.n]]
        if text.startswith('isscalar('):
            return False
        if text.startswith('functions('):
            raise self.error(text)
        m = re.fullmatch(r"(isstruct|iscell|istable)\((.*)\)", text)
        if m is not None:
            return self.kinds.get(m.group(2).strip(), self.kinds.get('')) == m.group(1)[2:]
        if '' in self.kinds:
            self.values.append(text)
            return 'value'
        raise Outside(text)

    def evalc(self, text, *a, **k):
        m = re.fullmatch(r"disp\((.*)\)\s*;?", text.strip())
        if m is None:
            raise Outside(text)
        self.shown.append(m.group(1).strip())
        return 'shown'


def addressed(c, engine, view):
    """the index expression a view of elements of x stands for"""
    str(view)
    text = engine.shown[-1]
    for form in (r"subsref\(x\s*,\s*struct\(\s*'type'\s*,\s*\{?\s*'\(\)'\s*\}?\s*,\s*'subs'\s*,\s*\{\s*\{(.*)\}\s*\}\s*\)\s*\)", r"x\((.*)\)"):
        m = re.fullmatch(form, text)
        if m is not None:
            return m.group(1)
    raise Outside(text)


@contract('C30', FUN + ['MATLABStructView.__getitem__', '_get_item_array'], kind='proof')
def struct_views(c):
    m = c.module('mat2py', matlab=matlab())
    n = length(c)
    e = Engine(c, n)
    view = m.MATLABStructView(e, 'x')
    if c.choice('kind', 2):
        i = index(c, n, 'index')
        single(c, 'the same element', addressed(c, e, c.run(lambda: view[i])), i, n)
    else:
        s = a_slice(c, n)
        ranges(c, 'slice', addressed(c, e, c.run(lambda: view[s])), s, n)


def cell_content(c, text):
    """the index expression of a content of the cell array x"""
    for form in (r"subsref\(x\s*,\s*struct\(\s*'type'\s*,\s*\{?\s*'\{\}'\s*\}?\s*,\s*'subs'\s*,\s*\{\s*\{(.*)\}\s*\}\s*\)\s*\)", r"x\{(.*)\}"):
        m = re.fullmatch(form, text)
        if m is not None:
            return m.group(1)
    m = re.fullmatch(r"subsref\(x\s*,\s*struct\(.*'subs'\s*,\s*\{?\s*'([^']*)'\s*\}?\s*\)\s*\)", text)
    if m is not None and m.group(1) != ':':
        return None                 # subscripts given as text: each character counts as a number
    raise Outside(text)


@contract('C30', FUN + ['MATLABCellView.__getitem__', '_get_item_cell', 'make_view'], kind='proof', note='contents of every kind: struct arrays, cell arrays, tables and values; one or two dimensions')
def cell_views(c):
    stub = matlab()
    m = c.module('mat2py', matlab=stub)
    n = length(c)
    e = Engine(c, n, m.matlab.engine.MatlabExecutionError)
    view = m.MATLABCellView(e, 'x')
    kind = c.choice('content', 4)
    e.kinds[''] = ('struct', 'cell', 'table', None)[kind]
    two = c.choice('dimensions', 2)
    i = index(c, n, 'index')
    k = length(c, 'columns')
    j = index(c, k, 'second_index') if two else None
    got = c.run(lambda: view[(i, j) if two else i])
    if kind == 3:
        c.ensure('a value is returned as it is', got == 'value' and len(e.values) == 1)
        text = e.values[0] if e.values else 'nothing'
    else:
        c.ensure('a view of the kind of the content', type(got) is (m.MATLABStructView, m.MATLABCellView, m.MATLABTableView)[kind])
        str(got)
        text = e.shown[-1]
    text = cell_content(c, text)
    c.ensure('the subscripts are numbers', text is not None)
    if text is None:
        return
    parts = text.split(',')
    c.ensure('one index per dimension', len(parts) == 1 + two)
    if len(parts) == 1 + two:
        single(c, 'the same element', parts[0], i, n)
        if two:
            single(c, 'the same element of the second dimension', parts[1], j, k)


@contract('C30', FUN + ['MATLABStructView.__iter__', 'MATLABCellView.__iter__', 'MATLABView.__len__'], kind='bounded', note='up to 6 elements')
def iterated_views(c):
    m = c.module('mat2py', matlab=matlab())
    n = c.choice('elements', 7)
    e = Engine(c, n, m.matlab.engine.MatlabExecutionError)
    cells = c.choice('cells', 2)
    e.kinds[''] = 'struct'
    view = (m.MATLABCellView if cells else m.MATLABStructView)(e, 'x')
    c.ensure('the number of elements', c.run(len, view) == n)
    got = c.run(lambda: list(view))
    c.ensure('one view per element', len(got) == n)
    if len(got) == n:
        at = []
        for v in got:
            if cells:
                str(v)
                at.append(cell_content(c, e.shown[-1]))
            else:
                at.append(addressed(c, e, v))
        c.ensure('in order', all(t is not None and selects(c, t, n) == i + 1 for i, t in enumerate(at)))
