"""Indexing, assignment and reshaping keep units and shared memory"""
from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is a quantity with an index (integers, slices with steps, ellipsis,
new axes, masks, integer arrays, mixtures) or a reshaping call, or a history of
creating views and writing through the owner and the views (item assignment, put,
fill, in-place operators, sort, real/imag) with values in the same, another or a wrong
unit. Oracle: the same on plain arrays of the same memory layout with values converted
by the reference table. Non-trivial: a unit is involved and data are selected or
written."""

SHAPES = [(3,), (4,), (2, 3), (3, 2), (2, 2, 3), (1, 3), (5,), (2, 1)]


@st.composite
def index(draw, shape):
    """a JSON index valid for the shape"""
    kind = draw(st.sampled_from(['basic', 'basic', 'basic', 'mask', 'fancy', 'mixed', 'rowmask']))
    if kind == 'mask':
        return {'mask': draw(st.lists(st.booleans(), min_size=gen.prod(shape),
                                      max_size=gen.prod(shape))), 's': list(shape)}
    if kind == 'rowmask':
        return {'mask': draw(st.lists(st.booleans(), min_size=shape[0], max_size=shape[0])),
                's': [shape[0]]}
    if kind == 'fancy':
        return {'fancy': draw(st.lists(st.integers(-shape[0], shape[0] - 1), max_size=4)),
                'arr': draw(st.booleans())}
    out = []
    for i, n in enumerate(shape[:draw(st.integers(0, len(shape)))]):
        c = draw(st.sampled_from(['int', 'slice', 'slice', 'new', 'list' if kind == 'mixed' else 'int']))
        if c == 'int':
            out.append(draw(st.integers(-n, n - 1)))
        elif c == 'slice':
            lim = st.one_of(st.none(), st.integers(-n - 1, n + 1))
            out.append(['sl', draw(lim), draw(lim),
                        draw(st.sampled_from([None, None, 1, 2, -1, -2]))])
        elif c == 'new':
            out.append('new')
            out.append(['sl', None, None, None])
        else:
            out.append(['li', draw(st.lists(st.integers(-n, n - 1), min_size=1, max_size=1))])
    if draw(st.integers(0, 3)) == 0:
        out.append('...')
    return {'t': out, 'one': len(out) == 1 and draw(st.booleans())}


def build_index(s):
    if 'mask' in s:
        return np.array(s['mask'], bool).reshape(s['s'])
    if 'fancy' in s:
        return np.array(s['fancy'], int) if s['arr'] else s['fancy'] or np.array([], int)
    out = []
    for x in s['t']:
        if x == 'new':
            out.append(np.newaxis)
        elif x == '...':
            out.append(Ellipsis)
        elif isinstance(x, list):
            out.append(slice(*x[1:]) if x[0] == 'sl' else x[1])
        else:
            out.append(x)
    return out[0] if s.get('one') and len(out) == 1 and not isinstance(out[0], list) else tuple(out)


def is_view(s):
    return 't' in s and not any(isinstance(x, list) and x[0] == 'li' for x in s['t'])


@st.composite
def reading(draw):
    shape = draw(st.sampled_from(SHAPES))
    return {'q': {'a': draw(gen.array(big=True, dtypes=gen.EVERY, shape=shape)), 'u': draw(gen.expr())},
            'i': draw(index(shape)), 'again': draw(st.booleans())}


def compare(r, x, e, what):
    if type(r) is not Quantity:
        fail(what, 'is a', type(r))
    want_unit(r, e, what)
    same_exact(mag(r), np.asarray(x), what)


def check_reading(s, ev):
    q, a, e = qty(s['q']), arr(s['q']['a']), s['q']['u']
    i = build_index(s['i'])
    before = snap(q)
    r, x = q[i], a[i]
    compare(r, x, e, 'q[%r]' % (i,))
    shared = np.shares_memory(np.asarray(r), np.asarray(q))
    if x.ndim and x.size and np.shares_memory(x, a) != shared:
        fail('memory is', 'shared' if shared else 'not shared')
    if s['again'] and r.ndim:
        # nothing about the result depends on how it was made
        compare(r[...], x, e, 'q[i][...]')
        compare(r * 1, x * 1, e, 'q[i] * 1')
        for y, z in zip(r, x):
            compare(y, z, e, 'iteration')
    if snap(q) != before:
        fail('reading changed the quantity')
    ev.tag(next(iter(k for k in ('mask', 'fancy', 't') if k in s['i'])), 'ndim%d' % np.ndim(x))
    ev.nt(np.size(x) and merge(e))


RESHAPERS = {
    'reshape': lambda x: x.reshape(-1), 'reshape2': lambda x: x.reshape(x.shape[::-1]),
    'T': lambda x: x.T, 'transpose': lambda x: x.transpose(), 'flatten': lambda x: x.flatten(),
    'ravel': lambda x: x.ravel(), 'squeeze': lambda x: x.squeeze(),
    'swapaxes': lambda x: x.swapaxes(0, -1), 'take': lambda x: x.take([0, -1]),
    'take1': lambda x: x.take([1, 0, 1], axis=-1, mode='wrap'),
    'repeat': lambda x: x.repeat(2), 'diagonal': lambda x: x.diagonal() if x.ndim > 1 else x[...],
    'compress': lambda x: x.compress([True], axis=0), 'copy': lambda x: x.copy(),
    'real': lambda x: x.real, 'imag': lambda x: x.imag,
    'np.reshape': lambda x: np.reshape(x, (-1,)), 'np.ravel': lambda x: np.ravel(x),
    'np.transpose': lambda x: np.transpose(x), 'np.squeeze': lambda x: np.squeeze(x),
    'np.repeat': lambda x: np.repeat(x, 3), 'np.take': lambda x: np.take(x, [0]),
    'np.roll': lambda x: np.roll(x, 1), 'np.flip': lambda x: np.flip(x),
    'np.expand_dims': lambda x: np.expand_dims(x, 0), 'np.moveaxis': lambda x: np.moveaxis(x, 0, -1),
    'np.sort': lambda x: np.sort(x), 'np.split': lambda x: np.array_split(x, 2)[0],
    'take scalar': lambda x: x.take(0), 'np.take scalar': lambda x: np.take(x, -1, axis=0),
    'take_along_axis': lambda x: np.take_along_axis(x, np.zeros((1,) * x.ndim, int), -1),
    'extract': lambda x: np.extract(np.ones(x.shape, bool), x), 'rot90': lambda x: np.rot90(x),
    'tile': lambda x: np.tile(x, 2), 'atleast_2d': lambda x: np.atleast_2d(x),
    'partition': lambda x: np.partition(x, 0), 'unique': lambda x: np.unique(x),
    'vsplit': lambda x: np.vsplit(x, 2)[1], 'fliplr': lambda x: np.fliplr(x),
    'rollaxis': lambda x: np.rollaxis(x, 1), 'np.diagonal': lambda x: np.diagonal(x),
    'np.compress': lambda x: np.compress([True], x, axis=-1),
    'take out': lambda x: x.take([0, 0], out=np.empty_like(x, shape=(2,))),
    'astype': lambda x: x.astype('c16'), 'view': lambda x: x.view(),
    'squeeze 0': lambda x: x.squeeze(0), 'squeeze -1': lambda x: x.squeeze(axis=-1),
    'np.squeeze 0': lambda x: np.squeeze(x, axis=0), 'squeeze ()': lambda x: x.squeeze(axis=()),
    'squeeze both': lambda x: x.squeeze(axis=(0, 1)),
    'transpose 1': lambda x: x.transpose(*np.roll(range(x.ndim), 1)),
    'transpose 2': lambda x: x.transpose(tuple(np.roll(range(x.ndim), 1))),
    'swapaxes 01': lambda x: x.swapaxes(0, 1), 'np.swapaxes': lambda x: np.swapaxes(x, -1, -2),
    'reshape F': lambda x: x.reshape(-1, order='F'), 'reshape 2': lambda x: x.reshape((1, -1)),
    'reshape 3': lambda x: x.reshape(-1, 1), 'ravel F': lambda x: x.ravel('F'),
    'ravel K': lambda x: x.ravel(order='K'), 'flatten F': lambda x: x.flatten('F'),
    'take 0': lambda x: x.take([0, 1], 0), 'take -1': lambda x: x.take([[0, -1], [-1, 0]], axis=-1),
    'take clip': lambda x: x.take([0, 7], axis=0, mode='clip'),
    'take scalar clip': lambda x: x.take(-2, mode='clip'), 'take scalar wrap': lambda x: x.take(-9, mode='wrap'),
    'take scalar clip 9': lambda x: x.take(9, axis=-1, mode='clip'), 'take neg clip': lambda x: x.take([-1, -2], axis=-1, mode='clip'),
    'take wrap': lambda x: x.take([5, -7], mode='wrap'),
    'repeat 0': lambda x: x.repeat(2, axis=0), 'repeat n': lambda x: x.repeat(range(x.shape[-1]), axis=-1),
    'diagonal 1': lambda x: x.diagonal(1), 'diagonal 2': lambda x: x.diagonal(-1, 1, 0),
    'diagonal 3': lambda x: x.diagonal(0, 0, 2), 'compress -1': lambda x: x.compress([False, True], -1),
    'compress': lambda x: x.compress([True, False, True]),
    'roll 0': lambda x: np.roll(x, 1, axis=0), 'flip 0': lambda x: np.flip(x, 0), 'flipud': lambda x: np.flipud(x),
    'sort 0': lambda x: np.sort(x, axis=0), 'split 1': lambda x: np.split(x, [1], axis=-1)[1],
    'copy F': lambda x: x.copy('F'), 'astype F': lambda x: x.astype('f8', order='F'),
}


@st.composite
def reshaping(draw):
    shape = draw(st.sampled_from(SHAPES + [(0,), (2, 0), (1, 3, 1), (1, 1), (1, 2), (2, 3, 2), (3, 3)]))
    return {'q': {'a': draw(gen.array(big=True, dtypes=['f8', 'f8', 'f4', 'i8', 'c16'], shape=shape)),
                  'u': draw(gen.expr())},
            'f': draw(st.sampled_from(sorted(RESHAPERS)))}


def check_reshaping(s, ev):
    q, a, e = qty(s['q']), arr(s['q']['a']), s['q']['u']
    f = RESHAPERS[s['f']]
    try:
        exp = f(a)
    except (IndexError, ValueError):
        return
    before = snap(q)
    r = f(q)
    compare(r, exp, e, s['f'])
    if s['f'] != 'imag' and exp.size and \
            np.shares_memory(r, q) != np.shares_memory(exp, a):
        fail(s['f'], 'memory is', 'shared' if np.shares_memory(r, q) else 'not shared')
    if snap(q) != before:
        fail(s['f'], 'changed the quantity')
    ev.tag(s['f'])
    ev.nt(exp.size and merge(e))


ON_UNITS = {
    '[...]': lambda x: x[...], '[()]': lambda x: x[()], '[None]': lambda x: x[None], '[mask]': lambda x: x[np.array(True)],
    '[None, None]': lambda x: x[None, ..., None], 'atleast_1d': lambda x: np.atleast_1d(x),
    'ones_like': lambda x: np.ones_like(x), 'full_like': lambda x: np.full_like(x, 1),
    'squeeze': lambda x: x.squeeze(), 'asarray': lambda x: np.array(x, subok=True),
}


def units_cases():
    for n in sorted(GOLD):
        for f in sorted(RESHAPERS) + sorted(ON_UNITS):
            yield {'n': n, 'f': f}
    for t in ('m/s', 'pc/cm**3', 'dimensionless'):
        for f in sorted(RESHAPERS) + sorted(ON_UNITS):
            yield {'t': t, 'f': f}


def check_units(s, ev):
    if 'n' in s:
        u = unit(s['n'])
        e = [[s['n'], 1]]
    else:
        u = pq.dimensionless if s['t'] == 'dimensionless' else pq.CompoundUnit(s['t'])
        e = [['(%s)' % s['t'], 1]] if s['t'] != 'dimensionless' else []
    f = RESHAPERS.get(s['f']) or ON_UNITS[s['f']]
    try:
        exp = f(np.array(1.0))
    except (IndexError, ValueError):
        return
    if s['f'] in ('take out', 'unique', 'partition', 'np.sort', 'sort 0') or s['f'].startswith('copy'):
        return
    before = snap(u), u.name, mag(u).item()
    r = f(u)
    if not isinstance(r, Quantity):
        fail(s['f'], 'is a', type(r))
    want_unit(r, e, s['f'])
    same_exact(mag(r), np.asarray(exp), s['f'])
    # it can be used like any other quantity
    want_unit(r * r, power(e, 2), s['f'])
    want(mag(r + r), np.asarray(exp) * 2, 0, what=s['f'])
    str(r), repr(r)
    try:
        r[...] = 3 * u
        r *= 2
    except ValueError:
        pass                # a view
    if (snap(u), u.name, mag(u).item()) != before:
        fail(s['f'], 'or a change of its result changed the unit')
    ev.tag(s['f'])
    ev.nt(True)


@st.composite
def listing(draw):
    return {'q': draw(gen.quantity(big=True, dtypes=['f8', 'f8', 'f4', 'i8', 'c16']))}


def check_listing(s, ev):
    q, a, e = qty(s['q']), arr(s['q']['a']), s['q']['u']

    def walk(x, y):
        if isinstance(y, list):
            if not isinstance(x, list) or len(x) != len(y):
                fail('tolist structure', repr(x))
            for i, j in zip(x, y):
                walk(i, j)
        else:
            if type(x) is not Quantity or x.shape != ():
                fail('element of the list is', repr(x))
            want_unit(x, e, 'element')
            want(mag(x), np.asarray(y), 0, what='element')
    walk(q.tolist(), a.tolist())
    if q.ndim:
        it = list(q)
        if len(it) != len(a) or len(q) != len(a):
            fail('length')
        for x, y in zip(it, a):
            compare(x, y, e, 'iteration')
    else:
        must_raise('iteration of a scalar', list, q)
    ev.nt(a.size and merge(e))
    ev.tag('ndim%d' % a.ndim)


@st.composite
def value_for(draw, shape, e, i_shape=None, kinds=('f8', 'f8', 'f8', 'f4', 'i8')):
    """a value to write: unit relation, broadcastable to anything (scalar) or shaped"""
    rel = draw(st.sampled_from(['same', 'convert', 'convert', 'convert', 'bad', 'bad', 'plain',
                                'unit']))
    v = {'rel': rel}
    if rel == 'unit':
        n = draw(st.sampled_from([u for u in CLASS.get(dims_key(si_dims(e)), ())] or ['meter']))
        v['q'] = {'unit': n}
        return v
    a = draw(gen.array(shape=i_shape or (), dtypes=list(kinds), specials=False, layouts=['C']))
    if rel == 'plain':
        v['p'] = {'a': a, 'k': 'array' if a['s'] else draw(st.sampled_from(['number', 'array']))}
        return v
    u = {'same': lambda: e, 'convert': lambda: draw(gen.compatible_expr(e)),
         'bad': lambda: draw(gen.incompatible_expr(e))}[rel]()
    v['q'] = {'a': a, 'u': u}
    return v


@st.composite
def history(draw):
    shape = draw(st.sampled_from(SHAPES))
    e = draw(gen.expr() if draw(st.integers(0, 5)) else
             st.sampled_from([[], [['percent', 1]], [['radian', 1]]]))
    t = draw(st.sampled_from(['f8', 'f8', 'f8', 'f8', 'f4', 'i8', 'c16']))
    ops, shapes = [], [shape]
    for _ in range(draw(st.integers(1, 7))):
        w = draw(st.integers(0, len(shapes) - 1))
        sh = shapes[w]
        k = draw(st.sampled_from(['view', 'view', 'set', 'set', 'set', 'set', 'put', 'fill',
                                  'iop', 'sort', 'reshape', 'parts', 'swap']))
        op = {'k': k, 'on': w}
        if k in ('view', 'set', 'swap') and not sh:
            op['i'] = {'t': ['...'], 'one': False}
        elif k in ('view', 'set', 'swap'):
            op['i'] = draw(index(sh))
        if k == 'view' and not is_view(op['i']):
            k = op['k'] = 'set'
        if k in ('view', 'set'):
            res = np.zeros(sh)[build_index(op['i'])]
        if k == 'view':
            if res.size == 0 or np.ndim(res) == 0:
                continue
            shapes.append(res.shape)
        elif k == 'set':
            ish = draw(st.sampled_from([(), (), res.shape, res.shape[-1:]]))
            op['v'] = draw(value_for(sh, e, ish))
        elif k == 'put':
            n = gen.prod(sh)
            op['mode'] = draw(st.sampled_from([None, None, 'raise', 'wrap', 'clip']))
            m = n + 3 if op['mode'] in ('wrap', 'clip') else n
            op['ind'] = draw(st.lists(st.integers(-m, m - 1), min_size=1, max_size=3))
            op['v'] = draw(value_for(sh, e, draw(st.sampled_from([(), (len(op['ind']),)]))))
        elif k == 'fill':
            op['v'] = draw(value_for(sh, e, draw(st.sampled_from([(), (), (1,), (2,), (2, 1)]))))
        elif k == 'iop':
            op['op'] = draw(st.sampled_from(['*=', '+=', '-=']))
            op['n'] = draw(st.sampled_from([2.0, 0.5, 3.0]))
        elif k == 'reshape':
            shapes.append((gen.prod(sh),))
        elif k == 'parts':
            op['part'] = draw(st.sampled_from(['real', 'imag']))
            op['v'] = draw(value_for(sh, e, (), ('f8',)))
        ops.append(op)
    return {'a': draw(gen.array(shape=shape, dtypes=[t], specials=False)), 'u': e, 'ops': ops}


def check_history(s, ev):
    a = arr(s['a'])
    e = s['u']
    model = arr(s['a'])
    narrow = a.dtype == np.dtype('f4')
    if not 1e-15 < si_factor(e) < 1e15:
        return
    things = [(Quantity(a, dimensionality(e)), model)]
    t = 1e-4 if narrow else 1e-9
    wrote = 0
    for op in s['ops']:
        k = op['k']
        if op['on'] >= len(things):
            return
        q, m = things[op['on']]
        if not np.shares_memory(q, things[0][0]) or not np.shares_memory(m, things[0][1]):
            if op['on']:
                return
        if k == 'view':
            i = build_index(op['i'])
            things.append((q[i], m[i]))
        elif k == 'reshape':
            x, y = q.reshape(-1), m.reshape(-1)
            if not np.shares_memory(m, y):
                return
            things.append((x, y))
        elif k == 'iop':
            if m.dtype.kind == 'i':
                continue
            x = q
            if op['op'] == '*=':
                x *= op['n']
                m *= op['n']
            else:
                x = OPS[op['op']](x, Quantity(op['n'], dimensionality(e)))
                m = OPS[op['op']](m, op['n'])
            if x is not q:
                fail('not in place')
            wrote += 1
        elif k == 'sort':
            q.sort()
            m.sort()
        elif k == 'swap':
            i = build_index(op['i'])
            q[i] = q[i] * 1
        else:
            v = op['v']
            if 'p' in v:
                val, num_, u = plain(v['p']), arr(v['p']['a']), []
            else:
                val, num_, u = qty(v['q']), q_arr(v['q']), q_expr(v['q'])
            part = op.get('part')
            if part and m.dtype.kind != 'c':
                continue
            if k == 'fill':
                # fill sets data and unit together; a plain number keeps the unit
                u_after = e if 'p' in v else u
                if merge(u_after) != merge(e):
                    if op['on']:
                        must_raise('fill of a view with another unit', q.fill, val)
                    check_all(things, e, t)
                    continue
                if raises(m.copy().fill, num_) is not None:
                    # not a single number
                    must_raise('fill with an array of shape %s' % (np.shape(num_),), q.fill, val)
                    check_all(things, e, t)
                    ev.tag('rejected')
                    continue
                q.fill(val)
                m.fill(num_)
                check_all(things, e, t)
                wrote += 1
                continue
            if k == 'set':
                i = build_index(op['i'])
                do = lambda: q.__setitem__(i, val)
            elif k == 'put':
                kw = {'mode': op['mode']} if op.get('mode') else {}
                do = lambda: q.put(op['ind'], val, **kw)
            else:
                do = lambda: setattr(q, part, val)
            if part and 'p' in v:
                # plain numbers are taken in the unit of the quantity
                u = e
            if not compatible(u, e):
                must_raise('%s of %s into %s' % (k, u, e), do)
                check_all(things, e, t)
                ev.tag('rejected')
                wrote += 1
                continue
            r = ratio(u, e)
            if not 1e-15 < r < 1e15 or not 1e-15 < si_factor(u) < 1e15:
                return
            x = num_ if merge(u) == merge(e) else np.asarray(num_, np.result_type(num_, 'f8')) * r
            if m.dtype.kind == 'i':
                if np.any(np.abs(x - np.rint(x)) < 1e-6) and merge(u) != merge(e):
                    return
                if np.any(np.abs(x) > 1e15):
                    return
            if narrow and np.any(np.abs(x) > 1e30):
                return
            try:
                if k == 'set':
                    m[i] = x
                elif k == 'put':
                    m.put(op['ind'], x, **kw)
                elif part == 'real':
                    m.real = x
                else:
                    m.imag = x
            except ValueError:
                must_raise('a value of the wrong shape', do)
                check_all(things, e, t)
                continue
            do()
            wrote += 1
            ev.tag(k, v['rel'])
        check_all(things, e, t)
    ev.tag('views%d' % min(len(things) - 1, 4), a.dtype.str[1:])
    ev.nt(wrote and merge(e))


def check_all(things, e, t):
    top = np.abs(things[0][1]).max(initial=0)
    for n, (q, m) in enumerate(things):
        want_unit(q, e, 'thing %d' % n)
        if q.dtype != m.dtype:
            fail('dtype became', q.dtype)
        want(mag(q), m, t, 1e-12 * top, what='thing %d' % n)


SUBS = [
    Sub('reading', check_reading, reading, quick=1500),
    Sub('reshaping', check_reshaping, reshaping, quick=2*900),
    Sub('listing', check_listing, listing, quick=450),
    Sub('units', check_units, cases=units_cases, shards=4),
    Sub('history', check_history, history, quick=2400),
]
