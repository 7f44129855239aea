"""All ways of attaching a unit to data agree"""
from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is data (arrays of every dtype, shape and memory layout, nested lists, tuples,
numpy scalars, Python numbers) and a unit expression, joined in every way there is: the
constructor with text in several notations, unit object, unit quantity, dimension expression, and
products from both sides; or an existing quantity, unit, constant or uncertain quantity and a
compatible or incompatible target; or an argument which is not a unit. Every predefined unit is
joined in every way by enumeration. Oracle: the plain data and the reference model of units.
Non-trivial: the data is not empty and there is a unit, or the argument is not a unit."""

ASSUMPTIONS = ['None and the empty text as unit of an existing quantity mean "as it is"',
               'lists of quantities are not data']

DTYPES = gen.EVERY + ['b1', 'u4', 'u8', 'i1', 'f2', 'g']
KINDS = ['array', 'array', 'list', 'tuple', 'npscalar', 'number']


def tuples(x):
    return tuple(tuples(i) for i in x) if isinstance(x, list) else x


def data_of(spec, kind):
    a = arr(spec)
    if kind == 'list':
        return a.tolist()
    if kind == 'tuple':
        return tuples(a.tolist())
    if kind == 'npscalar' and a.ndim == 0:
        return a[()]
    if kind == 'number' and a.ndim == 0:
        return a.item()
    return a


@st.composite
def attach_spec(draw):
    return {'a': draw(gen.array(big=True, dtypes=DTYPES)), 'k': draw(st.sampled_from(KINDS)),
            'u': draw(gen.expr(max_units=4)),
            'how': draw(st.lists(st.sampled_from(HOW), min_size=2, max_size=5, unique=True)),
            't': draw(st.sampled_from([None, None, 'f8', 'f4', 'c16', 'O']))}


SPELL = ['string', 'string1', 'string2', 'dim', 'quantity', 'unit', 'units', 'repr']
PRODUCTS = ['right', 'left', 'right-q', 'left-q', 'npmul', 'npmul-left', 'stepwise', 'imul',
            'mul-units', 'quantity-left', 'quantity-right']
HOW = SPELL + ['uq-' + x for x in ('string', 'dim', 'unit')] + PRODUCTS + ['dtype', 'keyword', 'subclass', 'copy', 'no copy', 'uq-copy']


def spelled(u, how):
    if how == 'units':
        return Quantity(5.0, dimensionality(u)).units
    if how == 'repr':
        return dimensionality(u).string
    return spell(u, how)


CONSTANTS = ['speed_of_light', 'Planck_constant', 'elementary_charge', 'Boltzmann_constant', 'electron_mass',
             'Avogadro_constant', 'c_0', 'h_bar', 'sigma', 'R', 'F']
CONSTANTS = [n for n in CONSTANTS if hasattr(pq.constants, n)]


class Mine(Quantity):
    pass


def attach(d, u, how, t):
    """data d with unit u"""
    if how in SPELL:
        return Quantity(d, spelled(u, how))
    if how in ('copy', 'no copy'):
        # deprecated and without effect
        return Quantity(d, spelled(u, 'string'), copy=how == 'copy')
    if how == 'uq-copy':
        return UQ(d, spelled(u, 'string'), copy=True)
    if how.startswith('uq-'):
        return UQ(d, spelled(u, how[3:]))
    if how == 'keyword':
        return Quantity(data=d, units=spelled(u, 'string'))
    if how == 'subclass':
        return Mine(d, spelled(u, 'quantity'))
    if how == 'dtype':
        return Quantity(d, spelled(u, 'unit'), dtype=t)
    one = unit_quantity(u)
    if how == 'right':
        return d * one
    if how == 'left':
        return one * d
    if how == 'right-q':
        return d * Quantity(1, dimensionality(u))
    if how == 'left-q':
        return Quantity(1, dimensionality(u)) * d
    if how == 'npmul':
        return np.multiply(np.asarray(d), one)
    if how == 'npmul-left':
        return np.multiply(one, d)
    if how == 'quantity-left':
        return Quantity(d) * one
    if how == 'quantity-right':
        return one * Quantity(d, '')
    if how == 'mul-units':
        return d * Quantity(7.0, dimensionality(u)).units
    if how == 'imul':
        q = Quantity(np.array(d, dtype=np.result_type(np.asarray(d), 'f8')))
        q *= one
        return q
    if how == 'stepwise':
        q = d
        for i, (n, e) in enumerate(u):
            e = int(e) if float(e).is_integer() else e
            if e == -1:
                q = np.asarray(q) / unit(n) if isinstance(q, (list, tuple)) else q / unit(n)
            else:
                p = unit(n) ** e
                q = p * q if i % 2 else q * p
        return q
    raise ValueError(how)


def values(q, a, what, exact):
    m = mag(q)
    if m.shape != a.shape:
        fail(what, 'shape', m.shape, 'instead of', a.shape)
    with np.errstate(all='ignore'):
        ok = m.dtype == a.dtype and np.array_equal(m, a, equal_nan=a.dtype.kind in 'fc')
        if not ok and not exact:
            # products with a float: nothing is lost
            w = a.astype(np.result_type(a, 'f8')) if a.dtype.kind != 'O' else a
            g = m.astype(w.dtype)
            ok = np.array_equal(g, w, equal_nan=w.dtype.kind in 'fc')
    if not ok:
        fail(what, 'got', repr(m), 'expected', repr(a))


def changed_later(d, u, how):
    """the caller goes on using the dimension expression"""
    cls = UQ if how == 'uq-dim' else Quantity
    e = dimensionality(u)
    q = cls(d, e)
    r = cls(q, e)
    e *= dimensionality([['meter', 1]])
    e **= 2
    for x in (q, r):
        want_unit(x, u, 'after a change of the expression it was built with')
    e = dimensionality(u)
    q = cls(d, e)
    if q.dtype.kind in 'fc':
        q *= Quantity(1, 'm').astype(q.dtype)
    if names_of(e) != names_of(dimensionality(u)):
        fail('the expression passed in was changed', e)


def check_attach(s, ev):
    d = data_of(s['a'], s['k'])
    a = np.asarray(d)
    u = s['u']
    before = snap(d)
    ev.tag(s['k'], a.dtype.kind, 'units %d' % len(u))
    got = []
    for how in s['how']:
        # nothing but products of floats with floats for the others
        if how.startswith('uq-') and a.dtype.kind not in 'fiub':
            continue
        if how == 'stepwise' and (not u or a.dtype.kind == 'c'):
            continue
        if how in ('imul', 'stepwise', 'npmul-left', 'left', 'right') and a.dtype.kind == 'g':
            continue
        t = s['t']
        if how == 'dtype' and (t is None or t == 'O' or
                               (a.dtype.kind == 'c' and np.dtype(t).kind != 'c')):
            t = None
        want_a = a
        if how == 'dtype' and t is not None:
            want_a = np.asarray(d, dtype=t)
        with np.errstate(all='ignore'):
            q = attach(d, u, how, t)
        ev.tag(how)
        if how == 'stepwise' and not merge(u) and not isinstance(q, Quantity):
            fail(how, 'is not a quantity')
        want_unit(q, u, how)
        if how in ('dim', 'uq-dim'):
            changed_later(d, u, how)
        cls = UQ if how.startswith('uq-') else Mine if how == 'subclass' else Quantity
        if type(q) is not cls:
            fail(how, 'gave', type(q))
        if cls is UQ and not (mag(q.uncertainty) == 0).all():
            fail('uncertainty', q.uncertainty)
        exact = how in SPELL + ['keyword', 'subclass', 'dtype', 'copy', 'no copy']
        values(q, want_a, how, exact)
        got.append((how, q))
    if snap(d) != before:
        fail('the data was changed')
    if len(got) > 1 and a.dtype.kind in 'fiub' and a.size:
        (h0, q0), (h1, q1) = got[0], got[-1]
        fin = np.isfinite(mag(q0))
        if not np.array_equal(np.asarray(q0 == q1), fin | np.isinf(mag(q0))) and s['t'] is None:
            fail(h0, 'and', h1, 'are not equal', q0, q1)
    ev.nt(a.size > 0 and bool(merge(u)))


# --------------------------------------------------------------------------

@st.composite
def convert_spec(draw):
    u = draw(gen.expr())
    kind = draw(st.sampled_from(['q', 'q', 'q', 'uq', 'unit', 'constant', 'view', 'mine', 'bare']))
    s = {'kind': kind, 'how': draw(gen.spelling),
         'cls': draw(st.sampled_from(['Quantity', 'Quantity', 'Quantity', 'UQ'])),
         't': draw(st.sampled_from([None, None, 'f8', 'f4', 'i8']))}
    if kind == 'unit':
        u = [[draw(gen.unit_name), 1]]
    elif kind == 'constant':
        s['n'] = draw(st.sampled_from(CONSTANTS))
    elif kind == 'bare':
        u = []
    s['u'] = u
    s['a'] = draw(gen.array(big=True, dtypes=['f8', 'f8', 'f4', 'i8', 'i4', 'u1'], specials=kind != 'uq'))
    other = draw(st.integers(0, 4)) == 0
    s['to'] = draw(gen.incompatible_expr(u) if other else gen.compatible_expr(u))
    return s


def check_convert(s, ev):
    kind, u = s['kind'], s['u']
    cls = UQ if s['cls'] == 'UQ' else Quantity
    if kind in ('q', 'bare'):
        q = Quantity(arr(s['a']), dimensionality(u))
    elif kind == 'mine':
        q = Mine(arr(s['a']), dimensionality(u))
    elif kind == 'view':
        a = arr(s['a'])
        q = Quantity(np.array([a, a]), dimensionality(u))[1]
    elif kind == 'uq':
        a = arr(s['a']).astype('f8')
        q = UQ(a, dimensionality(u), np.abs(a) / 8)
    elif kind == 'unit':
        q = unit(u[0][0])
    else:
        q = getattr(pq.constants, s['n'])
    before = snap(q)
    ev.tag(kind, s['cls'])
    # as it is
    same = [('plain', lambda: cls(q)), ('none', lambda: cls(q, None)), ('empty', lambda: cls(q, ''))]
    for what, f in same:
        r = f()
        if unit_of(r) != unit_of(q):
            fail(what, 'unit', unit_of(r), 'instead of', unit_of(q))
        if isinstance(r, pq.UnitQuantity):
            fail(what, 'is still a unit')
        want(mag(r).astype('f8'), mag(q).astype('f8'), what=what)
    if kind == 'constant':
        if not (Quantity(q, q) == q).all():
            fail('constant in its own unit')
        r = Quantity(q, q.simplified.units)
        want(mag(r), mag(q.simplified), 1e-12, what='constant in base units')
        must_raise('wrong unit', Quantity, q, q.units * pq.m)
        ev.nt()
        return
    to = s['to']
    target = spell(to, s['how'])
    if not compatible(u, to):
        must_raise('incompatible', cls, q, target)
        must_raise('incompatible', cls, q, target, dtype='f8')
        if snap(q) != before:
            fail('the quantity was changed')
        ev.tag('incompatible')
        ev.nt()
        return
    f = ratio(u, to)
    m = q_arr({'unit': u[0][0]}) if kind == 'unit' else mag(q)
    if not 1e-30 < abs(f) < 1e30 and m.dtype == 'f4':
        return
    with np.errstate(all='ignore'):
        r = cls(q, target)
        w = m.astype('f8') * f
    want_unit(r, to, 'converted')
    if not issubclass(type(r), cls):
        fail('gave', type(r), 'instead of', cls)
    want(mag(r).astype('f8'), w, tol(m.dtype), what='converted')
    if isinstance(r, UQ) and cls is UQ:
        wu = np.abs(m.astype('f8')) / 8 * abs(f) if kind == 'uq' else np.zeros(m.shape)
        want(mag(r.uncertainty), wu, 1e-9, what='uncertainty')
    # the same as the method
    r2 = q.rescale(target)
    want(mag(r).astype('f8'), mag(r2).astype('f8'), tol(m.dtype), what='rescale')
    t = s['t']
    if t is not None and kind != 'unit' and np.isfinite(w).all() and (t != 'i8' or (np.abs(w) < 1e15).all()):
        if t == 'f4' and w.size and (np.abs(w[w != 0]) < 1e-30).any() | (np.abs(w) > 1e30).any():
            return
        with np.errstate(all='ignore'):
            r = Quantity(q, target, dtype=t)
        want_unit(r, to, 'with dtype')
        if mag(r).dtype != t:
            fail('dtype', mag(r).dtype, 'instead of', t)
        if t == 'i8':
            if (np.abs(mag(r) - w) > 1 + max(tol(m.dtype), 1e-9) * np.abs(w)).any():
                fail('with dtype', repr(r), 'from', w)
        else:
            want(mag(r).astype('f8'), w, max(tol(m.dtype), tol(t)), what='with dtype')
        ev.tag('dtype')
    if snap(q) != before:
        fail('the quantity was changed')
    ev.nt(m.size > 0 and f != 1)


# --------------------------------------------------------------------------

NOT_UNITS = ['nested one', 'nested one uq', 'scaled', 'scaled', 'tiny', 'negative', 'zero', 'nan', 'inf', 'ones', 'one-and-two', 'empty',
             'number', 'one', 'float', 'npfloat', 'array', 'list', 'tuple', 'bytes', 'dict', 'set',
             'object', 'type', 'function', 'complex', 'string', 'true', 'false', 'zero-number',
             'empty-list', 'empty-dict', 'imaginary', 'scaled-int', 'scaled-uq', 'table']
BAD_TEXT = ['nonsense', '2*m', 'm+', '3', '1', '0', 'm*3', 'm m', 'm**m', '-m', '1.5', '0*m', 'None',
            'm,s', 'km/h/', '(m', 'm)', 'm**', '*', '/', '**2', '"m"', "'m'", 'm+m', 'm-s', 'm%', 'not m', 'm.',
            'm if s else h', 'm;s', 'm\ns', '__class__', 'm.T_', 'm.real', '[m]', 'm[0]', 'm()', '1e3*m', 'm//2',
            'metre_', 'True', 'm==m', 'm@s', 'm|s', '~m', 'inf', 'nan*m', 'm*0', '2', 'meter second']
# things which the text denotes in the end
OK_TEXT = ('1', 'm/s')


@st.composite
def reject_spec(draw):
    bad = draw(st.sampled_from(NOT_UNITS))
    return {'bad': bad, 'x': draw(st.sampled_from([2.0, 0.5, 1.0000001, -1.0, 1e3, 0.0, 3])),
            't': draw(st.sampled_from(BAD_TEXT)), 'u': draw(gen.expr(min_units=1)),
            'how': draw(st.sampled_from(['new', 'new', 'of-quantity', 'of-unit', 'rescale', 'assign', 'uq',
                                         'with-dtype', 'rescale-uq', 'with-uncertainty'])),
            'a': draw(gen.array(dtypes=['f8', 'f8', 'i8'], specials=False))}


def not_a_unit(s):
    b, x, u = s['bad'], s['x'], dimensionality(s['u'])
    if b == 'scaled':
        return Quantity(x if x != 1 else 7.0, u)
    if b == 'scaled-int':
        return Quantity(2, u)
    if b == 'scaled-uq':
        return UQ(x, u, 0.1)
    if b == 'table':
        return Quantity(np.ones((2, 2)), u)
    if b == 'nested one':
        return Quantity([[1.0]], u)
    if b == 'nested one uq':
        return UQ([[[1.0]]], u, [[[0.0]]])
    return {
        'tiny': lambda: Quantity(1.0 + 1e-9, u), 'negative': lambda: Quantity(-1.0, u),
        'zero': lambda: Quantity(0.0, u), 'nan': lambda: Quantity(np.nan, u),
        'inf': lambda: Quantity(np.inf, u),
        'ones': lambda: Quantity(np.ones(3), u), 'one-and-two': lambda: Quantity([1.0, 2.0], u),
        'empty': lambda: Quantity([], u), 'number': lambda: x, 'one': lambda: 1, 'float': lambda: 1.0,
        'npfloat': lambda: np.float64(1.0), 'array': lambda: np.ones(2), 'list': lambda: ['m'],
        'tuple': lambda: ('m', 's'), 'bytes': lambda: b'm', 'dict': lambda: {'m': 1}, 'set': lambda: {'m'},
        'object': object, 'type': lambda: pq.UnitLength, 'function': lambda: len, 'complex': lambda: 1j,
        'string': lambda: s['t'], 'true': lambda: True, 'false': lambda: False,
        'zero-number': lambda: 0, 'empty-list': list, 'empty-dict': dict,
        'imaginary': lambda: Quantity(1j, u),
    }[b]()


def check_reject(s, ev):
    bad = not_a_unit(s)
    a, u = arr(s['a']), s['u']
    q = Quantity(a.copy(), dimensionality(u))
    uq = UQ(a.astype('f8'), dimensionality(u), np.abs(a) / 8.0)
    base = unit(u[0][0])
    before = [snap(q), snap(uq), snap(base), snap(bad) if isinstance(bad, Quantity) else None]
    f = {
        'new': lambda: Quantity(a, bad), 'of-quantity': lambda: Quantity(q, bad),
        'of-unit': lambda: Quantity(base, bad), 'rescale': lambda: q.rescale(bad),
        'assign': lambda: setattr(q, 'units', bad), 'uq': lambda: UQ(a, bad),
        'with-dtype': lambda: Quantity(q, bad, dtype='f8'), 'rescale-uq': lambda: uq.rescale(bad),
        'with-uncertainty': lambda: UQ(a, bad, uncertainty=np.abs(a)),
    }[s['how']]
    must_raise('%s with %r' % (s['how'], bad), f)
    now = [snap(q), snap(uq), snap(base), snap(bad) if isinstance(bad, Quantity) else None]
    if now != before:
        fail('something was changed by', s['how'], 'with', repr(bad))
    ev.tag(s['bad'], s['how'])
    ev.nt()


def bad_text_cases():
    for t in BAD_TEXT:
        if t == 'm/s':
            continue
        for how in ('new', 'of-quantity', 'rescale', 'assign', 'uq'):
            yield {'bad': 'string', 'x': 2.0, 't': t, 'u': [['meter', 1]], 'how': how,
                   'a': {'t': 'f8', 's': [2], 'd': [1.0, 2.0]}}
    for b in sorted(set(NOT_UNITS) - {'string'}):
        for how in ('new', 'of-quantity', 'of-unit', 'rescale', 'assign', 'uq', 'with-dtype'):
            for u in ([['meter', 1]], [['radian', 1]], [['kilogram', 1], ['second', -2]]):
                yield {'bad': b, 'x': 2.0, 't': '', 'u': u, 'how': how,
                       'a': {'t': 'f8', 's': [2], 'd': [1.0, 2.0]}}


# --------------------------------------------------------------------------

SCALARS = [('int', 3), ('int', -2), ('float', 2.5), ('bool', True), ('complex', [1.5, -2.0])] + [
    (t, 3) for t in ('b1', 'i1', 'i2', 'i4', 'i8', 'u1', 'u2', 'u4', 'u8', 'f2', 'f4', 'f8', 'g', 'c8', 'c16')]


def every_unit():
    for n in NAMES + COMPOUND:
        yield {'n': n}


def check_every_unit(s, ev):
    n = s['n']
    u = unit(n)
    e = [] if n == 'dimensionless' else [[n, 1]]
    a = np.array([1.5, -2.0, 0.0])
    ways = [('object', Quantity(a, u)), ('dim', Quantity(a, u.dimensionality)),
            ('product', a * u), ('other side', u * a), ('list', [1.5, -2.0, 0.0] * u),
            ('tuple', (1.5, -2.0, 0.0) * u), ('of list', u * [1.5, -2.0, 0.0]),
            ('units', Quantity(a, (2 * u).units)), ('one', Quantity(a, 1 * u)),
            ('of quantity', Quantity(Quantity(a, u), u)), ('uncertain', UQ(a, u))]
    if n not in COMPOUND:
        for t in GOLD[n]['labels']:
            if t == '(esu/s)':       # a known finding of C12
                continue
            ways.append((t, Quantity(a, t)))
            ways.append((t, Quantity(Quantity(a, u), t)))
    for what, q in ways:
        want_unit(q, e, what)
        same_exact(mag(q), a, what)
    for t, x in SCALARS:
        x = num(x) if isinstance(x, list) else x
        v = x if t in ('int', 'float', 'bool', 'complex') else np.dtype(t).type(x)
        for what, q in (('new', Quantity(v, u)), ('left', u * v), ('right', v * u),
                        ('0-d', np.array(v) * u), ('list', [v] * u)):
            want_unit(q, e, (t, what))
            m = mag(q)
            if what == 'list':
                m = m[0]
            if m.shape != () or m != v:
                fail(t, what, repr(q), 'from', v)
    q = Quantity(u)
    want_unit(q, e, 'of the unit')
    if type(q) is not Quantity or q.magnitude != 1 or q.shape != ():
        fail('quantity of the unit', repr(q))
    ev.tag('compound' if n in COMPOUND else 'unit')
    ev.nt()


SUBS = [
    Sub('attach', check_attach, attach_spec, quick=1600),
    Sub('convert', check_convert, convert_spec, quick=1200),
    Sub('reject', check_reject, reject_spec, quick=800),
    Sub('reject all', check_reject, cases=bad_text_cases),
    Sub('every unit', check_every_unit, cases=every_unit),
]
