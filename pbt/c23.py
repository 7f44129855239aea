"""Value and uncertainty stay together through conversions and methods"""
import copy
import pickle
import warnings

from hypothesis import strategies as st

from . import gen
from .core import KnownFinding, Sub
from .lib import *

RULE = """A case builds an uncertain quantity (constructor in several forms, copy construction with
conversion, assignment of the uncertainty in another unit) and applies a history of up to eight
conversions, simplifications, unit assignments, selections, reshapings, copies, pickles and
rearrangements, some of them under other default units; or one sum, mean, extremum or nan-ignoring
variant along random axes with missing entries, with and without an output array; or an uncertainty of another shape or dimension.
Oracle: two plain arrays (value and uncertainty) treated alike, quadrature sums. Non-trivial: a
nonzero uncertainty is involved."""

ASSUMPTIONS = ['the uncertainty of a missing (nan) value does not count',
               'in-place rearrangements are made on arrays which own their data']

SHAPES = [(), (1,), (2,), (3,), (4,), (2, 2), (2, 3), (3, 1), (2, 1, 2)]


@st.composite
def base(draw, shapes=SHAPES, bases=('new', 'new', 'new', 'other-unit', 'copy', 'setter', 'of-quantity', 'f4',
                                     'text', 'scaled', 'list')):
    shape = draw(st.sampled_from(shapes))
    a = draw(gen.array(dtypes=['f8'], shape=shape, specials=False))
    n = gen.prod(shape)
    r = draw(st.lists(st.sampled_from([0.0, 0.01, 0.125, 0.5, 2.0, 7.5]), min_size=n, max_size=n))
    u = draw(gen.expr())
    return {'a': a, 'r': r, 'u': u, 'how': draw(st.sampled_from(bases)), 'o': draw(gen.compatible_expr(u))}


def too_far(*exprs):
    for e in exprs:
        if not 1e-60 < abs(si_factor(e)) < 1e60:
            return True
    return False


def make(s):
    """the uncertain quantity, values, uncertainties, expression"""
    v = arr(s['a'])
    w = np.array(s['r']).reshape(v.shape)
    u, o, how = s['u'], s['o'], s['how']
    d = dimensionality(u)
    f = ratio(u, o)
    if how == 'new':
        q = UQ(v, d, w)
    elif how == 'text':
        q = UQ(v, expr_text(u), uncertainty=w)
    elif how == 'list':
        q = UQ(v.tolist(), d, w.tolist())
    elif how == 'f4':
        q = UQ(v, d, w, dtype='f4')
        v = v.astype('f4').astype('f8')
    elif how == 'other-unit':
        q = UQ(v, d, Quantity(w * f, dimensionality(o)))
    elif how == 'setter':
        q = UQ(v, d)
        q.uncertainty = Quantity(w * f, dimensionality(o))
    elif how == 'of-quantity':
        q = UQ(Quantity(v * f, dimensionality(o)), d, w)
    elif how == 'copy':
        q = UQ(UQ(v * f, dimensionality(o), w * f), d)
    elif how == 'scaled':
        q = UQ(v / 4, d, w / 4) * 4
    return q, v, w, [list(x) for x in u]


def check(q, v, w, u, what, rt=1e-10):
    if not isinstance(q, UQ):
        fail(what, 'is not an UncertainQuantity:', type(q), repr(q))
    want_unit(q, u, what)
    unc = q.uncertainty
    if not isinstance(unc, Quantity):
        fail(what, 'the uncertainty has no unit', repr(unc))
    want_unit(unc, u, (what, 'uncertainty'))
    if q.shape != v.shape or unc.shape != w.shape:
        fail(what, 'shapes', q.shape, unc.shape, 'instead of', v.shape, w.shape)
    want(mag(q).astype('f8'), v, rt, what=what)
    want(mag(unc).astype('f8'), w, max(rt, 1e-9), what=(what, 'uncertainty'))
    if (mag(unc) < 0).any():
        fail(what, 'negative uncertainty', unc)
    # the rest of the interface tells the same
    if v.size and np.all(v != 0):
        r = q.relative_uncertainty
        plain_data(r, 'relative uncertainty')
        want(np.asarray(r).astype('f8'), w / v, max(rt * 10, 1e-9), what=(what, 'relative uncertainty'))


# --------------------------------------------------------------------------
# histories

STEPS = ['rescale', 'rescale', 'rescale', 'rescale', 'assign', 'assign', 'simplified', 'index', 'index',
         'mask', 'fancy', 'reshape', 'T', 'ravel', 'flatten', 'swapaxes', 'squeeze', 'newaxis', 'copy',
         'copy', 'copycopy', 'deepcopy', 'pickle', 'pickle', 'astype', 'take', 'repeat', 'compress',
         'diagonal', 'sort', 'npsort', 'flip', 'split', 'iterate', 'preferred', 'construct', 'transpose',
         'set', 'npreshape', 'view', 'reversed', 'neg', 'round-trip', 'of-plain', 'atleast']


@st.composite
def history(draw):
    b = draw(base())
    steps = []
    e = b['u']
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(STEPS))
        t = {'k': k, 'n': draw(st.integers(0, 7))}
        if k in ('rescale', 'assign', 'preferred', 'construct', 'round-trip', 'set'):
            t['to'] = draw(gen.compatible_expr(e))
            t['how'] = draw(gen.spelling)
        steps.append(t)
    return {'b': b, 's': steps, 'def': draw(st.sampled_from(
        [None, None, 'cgs', {'length': 'ft', 'mass': 'lb'}, {'time': 'h', 'current': 'mA'}]))}


BASE_KIND = {'length': 'm', 'mass': 'kg', 'time': 's', 'current': 'A'}
CHOSEN = {'cgs': {'m': 'centimeter', 'kg': 'gram'}}


def base_expr(u, defaults):
    chosen = dict(BASE_OF)
    if defaults == 'cgs':
        chosen.update(m='centimeter', kg='gram')
    elif defaults:
        names = {'ft': 'foot', 'lb': 'pound', 'h': 'hour', 'mA': 'milliampere'}
        for k, n in defaults.items():
            chosen[BASE_KIND[k]] = names[n]
    return [[chosen[k], float(x)] for k, x in si_dims(u).items()]


def pick(shape, n):
    """an index, and a boolean mask"""
    if not shape:
        return [(), Ellipsis, None][n % 3]
    k = shape[0]
    return [0, -1, slice(None), slice(None, None, 2), slice(None, None, -1), (Ellipsis, 0),
            slice(0, max(1, k - 1)), (slice(None),) * len(shape)][n]


def step(q, v, w, u, t, defaults):
    """one step: the new q, v, w, u; None when the step does not apply"""
    k, n = t['k'], t['n']
    if k in ('rescale', 'construct', 'preferred', 'assign', 'round-trip'):
        to = t['to']
        if k == 'assign':
            # the unit of a view cannot be changed
            q = q.copy() if n % 2 else UQ(np.array(mag(q)), q.dimensionality, np.array(mag(q.uncertainty)))
            q.units = spell(to, t['how'])
        elif k == 'rescale':
            q = q.rescale(spell(to, t['how']))
        elif k == 'construct':
            q = UQ(q, spell(to, t['how']))
        elif k == 'round-trip':
            q = q.rescale(spell(to, t['how'])).rescale(dimensionality(u))
            return q, v, w, u
        else:
            qmod.PREFERRED = [unit_quantity(to)]
            q = q.rescale() if n % 2 else q.rescale_preferred()
            qmod.PREFERRED = []
        f = ratio(u, to)
        return q, v * f, w * f, to
    if k == 'simplified':
        to = base_expr(u, defaults)
        f = ratio(u, to)
        return q.simplified, v * f, w * f, to
    if k == 'set':
        w = np.abs(v) / 16
        q = q.copy()
        q.uncertainty = Quantity(w * ratio(u, t['to']), dimensionality(t['to']))
        return q, v, w, u
    if k == 'of-plain':
        # value and uncertainty taken apart and put together
        return UQ(Quantity(q), None, q.uncertainty), v, w, u
    if k == 'neg':
        return -q, -v, w, u
    if k == 'astype':
        return q.astype('f8'), v, w, u
    if k == 'index':
        i = pick(v.shape, n)
        try:
            v, w = v[i], w[i]
        except IndexError:
            return None
        return q[i], np.asarray(v), np.asarray(w), u
    if k == 'sort':
        if v.ndim == 0:
            return None
        ax = n % v.ndim
        i = np.argsort(v, axis=ax, kind='stable')
        if distinct(v):
            q = q.copy()
            q.sort(ax)
            return q, np.take_along_axis(v, i, ax), np.take_along_axis(w, i, ax), u
        return None
    if k == 'npsort':
        if v.ndim == 0 or not distinct(v):
            return None
        i = np.argsort(v, axis=-1, kind='stable')
        return np.sort(q), np.take_along_axis(v, i, -1), np.take_along_axis(w, i, -1), u
    if k in ('copy', 'copycopy', 'deepcopy', 'pickle'):
        r = {'copy': lambda: q.copy(), 'copycopy': lambda: copy.copy(q), 'deepcopy': lambda: copy.deepcopy(q),
             'pickle': lambda: pickle.loads(pickle.dumps(q, n % 6))}[k]()
        if np.shares_memory(r, q) or np.shares_memory(r.uncertainty, q.uncertainty):
            fail(k, 'shares memory')
        return r, v, w, u
    if k == 'iterate':
        if v.ndim == 0 or v.shape[0] == 0:
            return None
        n %= v.shape[0]
        return list(q)[n], v[n], w[n], u
    f = {
        'mask': lambda x: x[(np.arange(x.size).reshape(x.shape) + n) % 3 > 0],
        'fancy': lambda x: x[[0, -1, 0]] if n % 2 else x[np.array([-1])],
        'reshape': lambda x: x.reshape(-1) if n % 3 == 0 else x.reshape(x.shape[::-1]) if n % 3 == 1
        else x.reshape((1,) + x.shape, order='C'),
        'npreshape': lambda x: np.reshape(x, (-1, 1)),
        'T': lambda x: x.T, 'ravel': lambda x: x.ravel(['C', 'F'][n % 2]),
        'flatten': lambda x: x.flatten(['C', 'F'][n % 2]), 'swapaxes': lambda x: x.swapaxes(0, -1),
        'squeeze': lambda x: x.squeeze(), 'newaxis': lambda x: x[None] if n % 2 else x[..., None],
        'take': lambda x: x.take([0, -1, 0], axis=[None, 0, -1][n % 3]) if n != 7 else x.take(0),
        'repeat': lambda x: x.repeat(2, axis=[None, 0][n % 2]),
        'compress': lambda x: x.compress([True, False], axis=0) if x.ndim and x.shape[0] > 1
        else x.compress([True]),
        'diagonal': lambda x: x.diagonal(), 'flip': lambda x: np.flip(x),
        'split': lambda x: np.array_split(x, 2)[0], 'view': lambda x: x.view(),
        'reversed': lambda x: x[::-1], 'transpose': lambda x: x.transpose() if n % 2 else np.transpose(x),
        'atleast': lambda x: np.atleast_2d(x),
    }[k]
    try:
        nv, nw = f(v), f(w)
    except (IndexError, ValueError):
        must_raise(k, f, q)
        return None
    return f(q), np.asarray(nv), np.asarray(nw), u


def distinct(v):
    return len(np.unique(v)) == v.size


def check_history(s, ev):
    if too_far(s['b']['u'], s['b']['o'], *[t['to'] for t in s['s'] if 'to' in t]):
        return
    rt = 1e-5 if s['b']['how'] == 'f4' else 1e-10
    if rt == 1e-5:
        es = [s['b']['u'], s['b']['o']] + [t['to'] for t in s['s'] if 'to' in t] + [base_expr(s['b']['u'], None)]
        fs = [abs(ratio(a, b)) for a in es for b in es]
        if max(fs) > 1e12:
            return
    if s['def']:
        d = s['def']
        pq.set_default_units(d) if isinstance(d, str) else pq.set_default_units(**d)
        if too_far(base_expr(s['b']['u'], d)):
            return
        if rt == 1e-5 and not 1e-15 < abs(ratio(s['b']['u'], base_expr(s['b']['u'], d))) < 1e15:
            return
    q, v, w, u = make(s['b'])
    check(q, v, w, u, s['b']['how'], rt)
    ev.tag(s['b']['how'])
    done = 0
    for i, t in enumerate(s['s']):
        before = snap(q)
        r = step(q, v, w, u, t, s['def'])
        if snap(q) != before:
            fail(t['k'], 'changed its operand')
        if r is None:
            continue
        q, v, w, u = r
        check(q, v, w, u, '%d: %s' % (i, t['k']), rt)
        ev.tag(t['k'])
        done += 1
    ev.nt(done and bool((w != 0).any()))
    ev.tag('%d steps' % done)


# --------------------------------------------------------------------------
# sums, means, extrema

@st.composite
def combining(draw):
    b = draw(base(shapes=[(), (1,), (2,), (3,), (4,), (7,), (2, 3), (3, 2), (3, 1), (2, 2, 3), (19,), (4, 5)],
                  bases=('new', 'new', 'new', 'other-unit', 'scaled', 'f4')))
    n = len(b['r'])
    return {'b': b, 'f': draw(st.sampled_from(
        ['sum', 'sum', 'mean', 'mean', 'nansum', 'nanmean', 'nansum', 'nanmean', 'max', 'min', 'nanmax',
         'nanmin', 'arg'])), 'how': draw(st.sampled_from(['method', 'method', 'np', 'pq', 'keyword'])),
        'ax': draw(st.sampled_from([None, None, 0, -1, 1, 'all', 'two'])),
        'nan': draw(st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=n, max_size=n)),
        'lay': draw(st.sampled_from(['', '', 'T', 'slice', 'conv'])), 'o': draw(gen.compatible_expr(b['u'])),
        # uncertainties whose squares leave the range of floats
        'mag': draw(st.sampled_from([1, 1, 1, 1e-180, 1e170]))}


def check_combining(s, ev):
    b, f, how = s['b'], s['f'], s['how']
    if too_far(b['u'], b['o'], s['o']):
        return
    if b['how'] == 'new' and s['lay'] != 'conv':
        b = dict(b, r=[x * s.get('mag', 1) for x in b['r']])
    rt = 1e-5 if b['how'] == 'f4' else 1e-10
    if rt == 1e-5 and not 1e-12 < abs(ratio(b['u'], s['o'])) < 1e12:
        return
    q, v, w, u = make(b)
    raw = w
    if f.startswith('nan') and v.size:
        m = np.array(s['nan']).reshape(v.shape)
        if f in ('nanmax', 'nanmin', 'nanmean') and m.any():
            m = m.copy()
            if m.ndim:              # not only missing values
                for i in range(m.ndim):
                    m[(slice(None),) * i + (0,)] = 0
            else:
                m[...] = 0
        v = np.where(m > 0, np.nan, v)
        w = np.where(m > 1, np.nan, w)
        q = UQ(v, q.dimensionality, w, dtype=mag(q).dtype)
        raw, w = w, np.where(m > 0, 0.0, w)
        ev.tag('nan' if (m > 0).any() else 'no nan')
    if s['lay'] == 'T':
        q, v, w, raw = q.T, v.T, w.T, raw.T
    elif s['lay'] == 'slice' and v.ndim:
        q, v, w, raw = q[::-1], v[::-1], w[::-1], raw[::-1]
    elif s['lay'] == 'conv':
        q = q.rescale(dimensionality(s['o']))
        c = ratio(u, s['o'])
        v, w, raw, u = v * c, w * c, raw * c, s['o']
    ax = s['ax']
    if ax == 'all':
        ax = tuple(range(v.ndim))
    elif ax == 'two':
        ax = (0, -1) if v.ndim > 1 else None
    elif ax is not None and not -v.ndim <= ax < v.ndim:
        return
    before = snap(q)
    ext = f in ('max', 'min', 'nanmax', 'nanmin', 'arg')
    if ext and (isinstance(ax, tuple) or not distinct(v[~np.isnan(v)])):
        return

    def call(name):
        if how == 'np':
            return getattr(np, name)(q, axis=ax)
        if how == 'pq' and name in ('sum', 'nansum'):
            return getattr(pq, name)(q, axis=ax)
        if how == 'keyword':
            return getattr(q, name)(axis=ax)
        return getattr(q, name)() if ax is None else getattr(q, name)(ax)
    ev.tag(f, how, 'axis %s' % (s['ax'],), 'ndim%d' % v.ndim)
    if f == 'arg':
        for name in ('argmax', 'argmin', 'nanargmax', 'nanargmin'):
            r = call(name)
            plain_data(r, name)
            want(r, getattr(np, name)(v, axis=ax), 0, what=name)
            if how != 'np' and not isinstance(ax, tuple):
                out = np.full(np.shape(r), -1)
                getattr(q, name)(ax, out)
                want(out, r, 0, what=(name, 'output'))
        ev.nt(v.size > 1)
        return
    if how == 'np' and f in ('nansum', 'nanmean', 'nanmax', 'nanmin'):
        # numpy does not call the methods of that name
        r = call(f)
        want(mag(r).astype('f8'), getattr(np, f)(v, axis=ax), rt, 1e-9 * scale(v), what=f)
        if not isinstance(r, UQ) or f in ('nanmax', 'nanmin'):
            return
        z = oracle(f, v, w, ax)
        want_unit(r, u, f)
        want_unit(r.uncertainty, u, (f, 'uncertainty'))
        got = mag(r.uncertainty).astype('f8')
        if not equal(got, z, max(rt, 1e-9)):
            # the uncertainty of the sum of all, missing or not
            want(got, quadrature(raw, ax), max(rt, 1e-9), what=(f, 'uncertainty'))
            raise KnownFinding('np.' + f)
        return
    r = call(f)
    if snap(q) != before:
        fail(f, 'changed its operand')
    if ext:
        g = {'max': np.argmax, 'min': np.argmin, 'nanmax': np.nanargmax, 'nanmin': np.nanargmin}[f]
        i = g(v, axis=ax)
        if ax is None:
            nv, nw = v.ravel()[i], w.ravel()[i]
        else:
            i = np.expand_dims(i, ax)
            nv = np.take_along_axis(v, i, ax).squeeze(ax)
            nw = np.take_along_axis(w, i, ax).squeeze(ax)
        check(r, np.asarray(nv), np.asarray(nw), u, f, rt)
        ev.nt(v.size > 1 and bool((w != 0).any()))
        return
    nv = np.asarray(getattr(np, f)(v, axis=ax))
    nw = np.asarray(oracle(f, v, w, ax))
    if not isinstance(r, UQ):
        fail(f, 'gave', type(r))
    want_unit(r, u, f)
    want_unit(r.uncertainty, u, (f, 'uncertainty'))
    want(mag(r).astype('f8'), nv, rt, 1e-11 * scale(v) if rt < 1e-9 else 1e-5 * scale(v), what=f)
    want(mag(r.uncertainty).astype('f8'), nw, max(rt, 1e-9), what=(f, 'uncertainty'))
    ev.nt(v.size > 1 and bool((w != 0).any()))


def scale(v):
    return float(np.nansum(np.abs(v))) if v.size else 0.0


def quadrature(w, ax):
    m = np.nanmax(w) if w.size and np.nanmax(w) > 0 else 1.0
    return np.sqrt(np.sum((w / m) ** 2, axis=ax)) * m


def oracle(f, v, w, ax):
    """uncertainty of sums and means of independent values"""
    ok = ~np.isnan(v)
    z = quadrature(np.where(ok, w, 0.0), ax)
    if 'mean' in f:
        z = z / np.sum(ok, axis=ax)
    return z


# --------------------------------------------------------------------------
# uncertainties which do not fit

@st.composite
def misfit(draw):
    b = draw(base(bases=('new',)))
    b['a']['t'] = draw(st.sampled_from(['f8', 'f8', 'i8']))
    if b['a']['t'] == 'i8':
        b['a']['d'] = [int(x) % 9 for x in b['a']['d']]
    return {'b': b, 'what': draw(st.sampled_from(['shape', 'dim', 'both', 'fits', 'fits', 'fits'])),
            'shape': draw(st.sampled_from([(), (1,), (2,), (3,), (5,), (2, 2), (3, 2), (1, 1), (0,), (1, 3)])),
            'e': draw(gen.incompatible_expr(b['u'])), 'c': draw(gen.compatible_expr(b['u'])),
            'how': draw(st.sampled_from(['new', 'new-kw', 'setter', 'new-of-quantity', 'new-of-uq'])),
            'plain': draw(st.booleans()), 'uq': draw(st.booleans())}


def check_misfit(s, ev):
    b = s['b']
    if too_far(b['u'], s['c'], s['e']):
        return
    v = arr(b['a'])
    u = dimensionality(b['u'])
    w = np.array(b['r']).reshape(v.shape)
    q = UQ(v.astype('f8'), u, w)
    p = Quantity(v, u)
    what = s['what']
    shape = tuple(s['shape']) if what in ('shape', 'both') else v.shape
    bad = np.full(shape, 0.25)
    f = 1.0
    misfits = shape != v.shape
    if what in ('dim', 'both'):
        bad = Quantity(bad, dimensionality(s['e']))
        misfits = True
    elif s['plain'] and s['how'] != 'setter':
        pass                                # in the unit of the data
    else:
        bad = Quantity(bad, dimensionality(s['c']))
        f = ratio(s['c'], b['u'])
    if s.get('uq') and isinstance(bad, Quantity):
        # an uncertain value as the uncertainty
        bad = UQ(bad, uncertainty=bad * 0.5)
    before = [snap(q), snap(p), snap(bad), v.tobytes()]

    def setter():
        q.uncertainty = bad
        return q
    g = {'new': lambda: UQ(v, u, bad), 'new-kw': lambda: UQ(v, units=u, uncertainty=bad, dtype='f8'),
         'setter': setter, 'new-of-quantity': lambda: UQ(p, u, bad), 'new-of-uq': lambda: UQ(q, u, bad)}[s['how']]
    ev.tag(what, s['how'], 'misfits' if misfits else 'fits')
    if misfits:
        must_raise('%s with %r' % (s['how'], bad), g)
        if [snap(q), snap(p), snap(bad), v.tobytes()] != before:
            fail(s['how'], 'failed and changed something')
        # plain numbers are no lengths
        if si_dims(b['u']) and s['how'] == 'setter':
            must_raise('setter with plain numbers', setattr, q, 'uncertainty', np.full(v.shape, 0.5))
            if snap(q) != before[0]:
                fail('changed something')
    else:
        check(g(), v.astype('f8'), np.full(v.shape, 0.25 * f), b['u'], s['how'])
        if snap(p) != before[1] or snap(bad) != before[2]:
            fail('changed its arguments')
        if s['how'] != 'setter' and snap(q) != before[0]:
            fail('changed its operand')
        q = UQ(v.astype('f8'), u, w)
        q.uncertainty = q
        check(q, v.astype('f8'), v.astype('f8'), b['u'], 'its own uncertainty') if (v >= 0).all() else repr(q)
        for r in (q, q.copy(), q + q):
            repr(r.copy()), r[...], r.rescale(dimensionality(s['c']))
    ev.nt()


# --------------------------------------------------------------------------
# output arrays

OUT_F = ['sum', 'mean', 'nansum', 'nanmean', 'max', 'min', 'nanmax', 'nanmin', 'take', 'compress']


@st.composite
def outputs(draw):
    b = draw(base(shapes=[(), (1,), (2,), (3,), (2, 3), (3, 2), (2, 2, 3)],
                  bases=('new', 'new', 'other-unit', 'scaled')))
    return {'b': b, 'f': draw(st.sampled_from(OUT_F)),
            'how': draw(st.sampled_from(['method', 'keyword', 'np'])),
            'ax': draw(st.sampled_from([None, None, 0, -1, 1])),
            'i': draw(st.lists(st.integers(0, 5), min_size=1, max_size=3)),
            'nan': draw(st.booleans()),
            'k': draw(st.sampled_from(['uq', 'uq', 'uq', 'quantity', 'array', 'wrong shape'])),
            'u': draw(st.one_of(st.just(b['u']), gen.compatible_expr(b['u']), gen.expr()))}


def check_outputs(s, ev):
    f, how, ax = s['f'], s['how'], s['ax']
    q, v, w, u = make(s['b'])
    if ax is not None and not -v.ndim <= ax < v.ndim or (f == 'compress' and not v.ndim):
        return
    if f.startswith('nan') and s['nan'] and v.ndim and min(v.shape) > 1:
        v = v.copy()
        v[(0,) * v.ndim] = np.nan
        q = UQ(v, q.dimensionality, w)
    elif how == 'np' and f in ('nansum', 'nanmean', 'nanmax', 'nanmin'):
        return
    if how == 'np' and f.startswith('nan'):
        how = 'keyword'
    n = v.size if ax is None else v.shape[ax]
    if f == 'take':
        first = ([i % n for i in s['i']],)
    elif f == 'compress':
        first = ([i % 2 == 0 for i in s['i']][:n],)
    else:
        first = ()
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = getattr(q, f)(*first, axis=ax)
    if type(r) is not UQ:
        fail(f, 'is a', type(r))
    shape = r.shape
    if s['k'] == 'wrong shape':
        shape = shape + (2,)
    if s['k'] == 'array':
        o = np.full(shape, 7.0)
    elif s['k'] == 'quantity':
        o = Quantity(np.full(shape, 7.0), dimensionality(s['u']))
    else:
        o = UQ(np.full(shape, 7.0), dimensionality(s['u']), np.full(shape, 5.0))
    memory = np.asarray(o)
    before = snap(q)

    def call():
        with np.errstate(all='ignore'), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if how == 'np':
                if f == 'compress':
                    return np.compress(first[0], q, axis=ax, out=o)
                return getattr(np, f)(q, *first, axis=ax, out=o)
            if how == 'keyword' or f in ('sum', 'mean', 'nansum', 'nanmean'):
                return getattr(q, f)(*first, axis=ax, out=o)
            return getattr(q, f)(*first, ax, o)
    ev.tag(f, how, s['k'])
    if s['k'] == 'wrong shape':
        snapped = snap(o)
        must_raise((f, 'with an output array of the wrong shape'), call)
        if snap(o) != snapped:
            fail(f, 'failed, but changed the output array')
        ev.nt()
        return
    got = call()
    if snap(q) != before:
        fail(f, 'changed its operand')
    want(np.asarray(memory), mag(r), 0, what=(f, 'data of the output array'))
    ev.nt()
    if s['k'] == 'array':
        want(mag(got), mag(r), 0, what=(f, 'result'))
        want_unit(got, list(unit_of(r).items()), (f, 'result'))
        want(mag(got.uncertainty), mag(r.uncertainty), 0, what=(f, 'uncertainty'))
        return
    if got is not o:
        fail(f, 'did not return the output array')
    want_unit(o, list(unit_of(r).items()), (f, 'output array'))
    if s['k'] == 'uq':
        want_unit(o.uncertainty, list(unit_of(r).items()), (f, 'uncertainty of the output array'))
        want(mag(o.uncertainty), mag(r.uncertainty), 0, what=(f, 'uncertainty of the output array'))
        # and it is nobody else's
        o.uncertainty.magnitude[...] = 1
        if snap(q) != before:
            fail(f, 'the uncertainty of the output array is that of the operand')


SUBS = [
    Sub('outputs', check_outputs, outputs, quick=1500),
    Sub('history', check_history, history, quick=1800),
    Sub('combining', check_combining, combining, quick=2000),
    Sub('misfit', check_misfit, misfit, quick=600),
]
