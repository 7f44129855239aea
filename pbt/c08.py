"""The package's own math functions convert their arguments correctly"""
from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case calls one function of quantities.umath with quantities over the
registry (angles, pure numbers, compatible and wrong dimensions), plain data mixed in,
and axis, spacing, coordinate and output arguments. Oracle: the numpy function on
magnitudes converted with the reference table, the unit rule of the function, and the
same call with every argument expressed in another unit. Non-trivial: data are not
empty and a unit other than the neutral one is involved."""

TRIG = ['sin', 'cos', 'tan']
ARC = ['arcsin', 'arccos', 'arctan']
HYP = ['sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh']
PURES = [[], [], [['radian', 1]], [['percent', 1]], [['arcdegree', 1]], [['turn', 1]],
         [['arcminute', 1]], [['meter', 1], ['kilometer', -1]], [['hour', 1], ['second', -1]],
         [['milliradian', 1]]]
PURES = [p for p in PURES if all(n in GOLD for n, _ in p)]
small = st.integers(-3000, 3000).map(lambda i: i / 1000)


def pure_unit():
    return st.one_of(st.sampled_from(PURES), gen.angle_name.map(lambda n: [[n, 1]]))


@st.composite
def elementwise(draw):
    f = draw(st.sampled_from(TRIG + ARC + HYP))
    k = draw(st.integers(0, 9))
    if k == 0:
        q = {'p': draw(gen.plain(dtypes=['f8'], values=small))}
    elif k == 1:
        q = {'unit': draw(st.one_of(gen.unit_name, st.sampled_from(
            ['radian', 'arcdegree', 'percent', 'dimensionless'])))}
    else:
        u = pure_unit() if k < 8 else gen.expr()
        q = draw(gen.quantity(units=u, dtypes=['f8', 'f8', 'f8', 'i8', 'f4'],
                              values=small))
    return {'f': f, 'q': q, 'out': draw(out_spec())}


def out_spec():
    """no output array, a plain one, or a quantity of that unit"""
    return st.one_of(st.none(), st.none(), st.none(), st.just('plain'),
                     st.one_of(pure_unit(), gen.expr()))


def out_array(s, exp):
    if s is None:
        return None
    out = np.zeros(np.shape(exp), np.asarray(exp).dtype)
    return out if s == 'plain' else Quantity(out, dimensionality(s))


def filled(n, out, r, ev):
    """a plain output array has the magnitudes of the result, a quantity is the result"""
    if out is None:
        return
    if isinstance(out, Quantity):
        if r is not out:
            want_unit(out, list(unit_of(r).items()) if isinstance(r, Quantity) else [],
                      n + ' (output)')
    want(mag(out), mag(r), 0, what=n + ' (output)')
    ev.tag('out quantity' if isinstance(out, Quantity) else 'out')


def check_elementwise(s, ev):
    n = s['f']
    f, ref = getattr(pq, n), getattr(np, n)
    if 'p' in s['q']:
        x = plain(s['q']['p'])
        with np.errstate(all='ignore'):
            exp = ref(x)
            out = out_array('plain' if s['out'] else None, exp)
            r = f(x) if out is None else f(x, out) if s['out'] == 'plain' else f(x, out=out)
        if isinstance(r, Quantity):
            fail(n, 'of plain data returned', repr(r))
        want(r, exp, 0, what=n)
        filled(n, out, r, ev)
        ev.tag(n, 'plain')
        return
    q, a, e = qty(s['q']), q_arr(s['q']), q_expr(s['q'])
    if si_dims(e):
        must_raise('%s of %s' % (n, e), f, q)
        ev.tag(n, 'rejected')
        ev.nt()
        return
    narrow = a.dtype == np.dtype('f4')
    with np.errstate(all='ignore'):
        x = a.astype('f8') * si_factor(e)
        if narrow and merge(e):
            return
        exp = ref(a if not merge(e) or merge(e) == {'radian': 1} and n in TRIG else x)
    if np.any(np.abs(x[np.isfinite(x)]) > 50):
        return          # ill-conditioned
    if n in ('arcsin', 'arccos', 'arctanh', 'arccosh') and \
            np.any(np.abs(np.abs(x) - 1) < 1e-9) and merge(e):
        return
    if n == 'tan' and np.any(np.abs(np.cos(x)) < 1e-3):
        return
    out = None
    if a.dtype.kind == 'f' and exp.dtype == a.dtype:
        out = out_array(s['out'], exp)
    r = f(q) if out is None else f(q, out)
    filled(n, out, r, ev)
    if not isinstance(r, Quantity):
        fail(n, 'returned', type(r))
    want_unit(r, [['radian', 1]] if n in ARC else [], n)
    want(mag(r), exp, 1e-9 if not narrow else 1e-5, 1e-9 if not narrow else 1e-5, what=n)
    ev.tag(n, 'unit' if 'unit' in s['q'] else 'quantity')
    ev.nt(a.size and merge(e))


@st.composite
def two(draw):
    f = draw(st.sampled_from(['arctan2', 'arctan2', 'hypot']))
    sa, sb = draw(st.sampled_from([x for x in gen.SHAPE_PAIRS if 0 not in x[0] + x[1]]))
    kw = dict(dtypes=['f8', 'f8', 'i8'], specials=False)
    rel = draw(st.sampled_from(['same', 'compatible', 'compatible', 'other', 'plain', 'plainpure',
                                'both plain']))
    u = draw(pure_unit() if rel == 'plainpure' else gen.expr())
    a = {'a': draw(gen.array(shape=sa, **kw)), 'u': u}
    if rel == 'both plain':
        a, b = [{'p': draw(gen.plain(shape=x, **kw))} for x in (sa, sb)]
    elif rel.startswith('plain'):
        b = {'p': draw(gen.plain(shape=sb, nonzero=True, **kw))}
    else:
        v = {'same': lambda: u, 'compatible': lambda: draw(gen.compatible_expr(u)),
             'other': lambda: draw(gen.incompatible_expr(u))}[rel]()
        b = {'a': draw(gen.array(shape=sb, **kw)), 'u': v}
    if draw(st.booleans()):
        a, b = b, a
    return {'f': f, 'a': a, 'b': b, 'out': draw(out_spec())}


def operand(s):
    if 'p' in s:
        return plain(s['p']), arr(s['p']['a']), []
    return qty(s), q_arr(s), q_expr(s)


def check_two(s, ev):
    n = s['f']
    f = getattr(pq, n)
    (qa, a, ea), (qb, b, eb) = operand(s['a']), operand(s['b'])
    if not compatible(ea, eb):
        must_raise('%s of %s and %s' % (n, ea, eb), f, qa, qb)
        ev.tag(n, 'rejected')
        ev.nt()
        return
    r = ratio(eb, ea)
    if not 1e-100 < r < 1e100:
        return
    out = out_array(s['out'], np.zeros(np.broadcast(a, b).shape))
    if 'p' in s['a'] and 'p' in s['b']:
        if s['out'] is not None:
            out = out_array('plain', np.zeros(np.broadcast(a, b).shape))
        exp = getattr(np, n)(a, b)
        got = f(qa, qb) if out is None else f(qa, qb, out)
        if isinstance(got, Quantity):
            fail(n, 'of plain data returned', repr(got))
        want(got, exp, 0, what=n)
        filled(n, out, got, ev)
        ev.tag(n, 'both plain')
        return
    kw = {} if out is None else {'out': out}
    if n == 'arctan2':
        got = f(qa, qb, **kw)
        filled(n, out, got, ev)
        want_unit(got, [['radian', 1]], n)
        want(mag(got), np.arctan2(a, b * r), 1e-10, 1e-12, what=n)
    else:
        same = merge(ea) == merge(eb)
        try:
            got = f(qa, qb, **kw)
        except ValueError:
            if same:
                raise
            ev.tag('hypot rejected')
            return
        filled(n, out, got, ev)
        k = 1.0
        if unit_of(got) != {u: float(x) for u, x in merge(ea).items()}:
            want_unit(got, eb, n)
            k = 1 / r
        want(mag(got), np.hypot(a, b * r) * k, 1e-10, what=n)
    ev.tag(n, 'plain' if 'p' in s['a'] or 'p' in s['b'] else 'quantities')
    ev.nt(a.size and b.size and (merge(ea) or merge(eb)))


REDUCE = ['sum', 'nansum', 'prod', 'cumsum', 'cumprod', 'diff']


@st.composite
def reductions(draw):
    f = draw(st.sampled_from(REDUCE))
    shape = draw(st.sampled_from([(3,), (4,), (2, 3), (3, 2), (2, 2, 2), (1,), (0,)]))
    u = draw(gen.expr()) if f != 'cumprod' or draw(st.integers(0, 2)) == 0 else []
    return {'f': f, 'q': {'a': draw(gen.array(shape=shape, dtypes=['f8', 'f8', 'i8'],
                                              values=gen.positive if f == 'prod' else None,
                                              specials=f == 'nansum')), 'u': u},
            'axis': draw(st.one_of(st.none(), st.integers(-len(shape), len(shape) - 1))),
            'n': draw(st.integers(1, 2)), 'to': draw(gen.compatible_expr(u))}


def check_reductions(s, ev):
    n, e, axis = s['f'], s['q']['u'], s['axis']
    q, a = qty(s['q']), arr(s['q']['a'])
    f, ref = getattr(pq, n), getattr(np, n)
    if n == 'diff':
        axis = -1 if axis is None else axis
        go = lambda x: f(x, n=s['n'], axis=axis)
        exp = ref(a, n=s['n'], axis=axis)
    else:
        go = lambda x: f(x, axis=axis)
        exp = ref(a, axis=axis)
    if n == 'cumprod' and merge(e):
        # only pure numbers can be multiplied up
        if si_dims(e):
            must_raise('cumprod of %s' % e, go, q)
            ev.tag(n, 'rejected')
        ev.nt()
        return
    r = go(q)
    p = 1
    if n == 'prod':
        p = a.size if axis is None else a.shape[axis]
    want_unit(r, power(e, p), n)
    scale = np.abs(a[np.isfinite(a)]).sum() if a.size else 0
    t = 0 if n in ('prod', 'cumprod') else 1e-10 * scale
    want(mag(r), exp, 1e-10, t, what=n)
    k = ratio(e, s['to'])
    if 1e-20 < k < 1e20 and n != 'cumprod' and a.dtype.kind == 'f' and np.all(np.isfinite(exp)):
        w = go(q.rescale(dimensionality(s['to'])))
        want_unit(w, power(s['to'], p), n)
        want(mag(w) / k ** p, mag(r), 1e-9, t, what='%s in other units' % n)
    ev.tag(n, 'axis' if s['axis'] is not None else 'all')
    ev.nt(a.size and merge(e))


@st.composite
def ediff(draw):
    e = draw(gen.expr())
    kw = dict(dtypes=['f8'], specials=False)
    s = {'q': {'a': draw(gen.array(shape=draw(st.sampled_from([(3,), (2, 2), (4,), (1,)])), **kw)),
               'u': e}, 'plain': draw(st.integers(0, 4)) == 0}
    for k in ('end', 'begin'):
        if s['plain'] and draw(st.booleans()):
            s[k] = {'a': draw(gen.array(shape=draw(st.sampled_from([(), (2,)])), **kw)), 'p': 1}
        elif not s['plain'] and draw(st.integers(0, 2)):
            u = draw(st.one_of(gen.compatible_expr(e), gen.compatible_expr(e),
                               gen.incompatible_expr(e)))
            s[k] = {'a': draw(gen.array(shape=draw(st.sampled_from([(), (2,)])), **kw)), 'u': u}
    return s


def check_ediff(s, ev):
    e = s['q']['u']
    q, a = qty(s['q']), arr(s['q']['a'])
    if s['plain']:
        args = [arr(s[k]['a']) if k in s else None for k in ('end', 'begin')]
        r = pq.ediff1d(a, *args)
        if isinstance(r, Quantity):
            fail('ediff1d of plain data returned', repr(r))
        want(r, np.ediff1d(a, *args), 0, what='ediff1d')
        ev.tag('plain')
        return
    args, mags, bad = [], [], False
    for k in ('end', 'begin'):
        if k in s:
            args.append(qty(s[k]))
            if not compatible(s[k]['u'], e):
                bad = True
                mags.append(None)
            else:
                r = ratio(s[k]['u'], e)
                if not 1e-100 < r < 1e100:
                    return
                mags.append(arr(s[k]['a']) * r)
        else:
            args.append(None)
            mags.append(None)
    if bad:
        must_raise('ediff1d', pq.ediff1d, q, *args)
        ev.tag('rejected')
        ev.nt()
        return
    r = pq.ediff1d(q, *args)
    want_unit(r, e, 'ediff1d')
    want(mag(r), np.ediff1d(a, *mags), 1e-10, 1e-12, what='ediff1d')
    ev.tag(*[k for k in ('end', 'begin') if k in s])
    ev.nt('end' in s or 'begin' in s)


@st.composite
def gradients(draw):
    shape = draw(st.sampled_from([(3,), (4,), (5,), (2, 3), (3, 2), (2, 2, 3)]))
    kw = dict(dtypes=['f8'], specials=False)
    f = {'a': draw(gen.array(shape=shape, **kw)), 'u': draw(gen.expr())}
    mode = draw(st.sampled_from(['none', 'one', 'one', 'each', 'coords', 'mixed', 'plain', 'plainf']))
    if mode == 'plainf':
        f = {'p': {'a': f['a'], 'k': 'array'}}
    n = {'none': 0, 'one': 1, 'plain': 1, 'plainf': 1}.get(mode, len(shape))
    sp = []
    for i in range(n):
        if mode == 'coords' or mode == 'mixed' and draw(st.booleans()):
            d = draw(st.lists(st.integers(1, 500), min_size=shape[i], max_size=shape[i]))
            acc, t = [], 0.0
            for x in d:
                t += x / 10
                acc.append(t)
            a = {'t': 'f8', 's': [shape[i]], 'd': acc}
        else:
            a = draw(gen.array(shape=(), dtypes=['f8'], values=gen.positive, specials=False))
        if draw(st.integers(0, 3)) == 0:
            a = dict(a, d=[-x for x in a['d']])
        if mode == 'plain':
            sp.append({'p': {'a': a, 'k': 'number'}})
        else:
            sp.append({'a': a, 'u': draw(gen.expr())})
    return {'f': f, 'sp': sp, 'mode': mode,
            'to': draw(gen.compatible_expr(f['u'] if 'u' in f else []))}


def check_gradients(s, ev):
    f, a, e = operand(s['f'])
    sp = [operand(x) for x in s['sp']]
    exp = np.gradient(a, *[m for _, m, _ in sp])
    got = pq.gradient(f, *[o for o, _, _ in sp])
    units = [times(e, u, -1) for _, _, u in sp] or [e]
    if a.ndim == 1:
        exp, got = [exp], [got]
    if len(units) == 1:
        units = units * a.ndim
    if len(got) != len(exp):
        fail(len(got), 'gradients instead of', len(exp))
    for g, x, u in zip(got, exp, units):
        if not isinstance(g, Quantity):
            fail('not a Quantity', type(g))
        want_unit(g, u, 'gradient')
        want(mag(g), x, 1e-9, 1e-12, what='gradient')
    if 'u' in s['f'] and 1e-20 < ratio(e, s['to']) < 1e20:
        again = pq.gradient(f.rescale(dimensionality(s['to'])), *[o for o, _, _ in sp])
        again = [again] if a.ndim == 1 else again
        m = np.abs(a).max(initial=0) * 2 / min(
            [np.abs(np.diff(mm, prepend=0)).min() if mm.ndim else abs(mm) for _, mm, _ in sp] or [1])
        for g, w in zip(got, again):
            want(mag(w) / ratio(e, s['to']), mag(g), 1e-9, 1e-12 * m + 1e-12,
                 what='gradient in other units')
    ev.tag(s['mode'], 'ndim%d' % a.ndim)
    ev.nt(bool(merge(e) or any(merge(u) for _, _, u in sp)))


@st.composite
def integrals(draw):
    shape = draw(st.sampled_from([(3,), (4,), (2, 3), (3, 2), (2, 3, 2)]))
    axis = draw(st.integers(-len(shape), len(shape) - 1))
    kw = dict(dtypes=['f8', 'f8', 'i8'], specials=False)
    s = {'axis': axis, 'mode': draw(st.sampled_from(['x1', 'x1', 'xn', 'dx', 'dx', 'none']))}
    y = draw(gen.array(shape=shape, **kw))
    s['y'] = {'a': y, 'u': draw(gen.expr())}
    if draw(st.integers(0, 3)) == 0:
        s['y'] = {'p': {'a': y, 'k': 'array'}}
    if s['mode'] in ('x1', 'xn'):
        xs = (shape[axis],) if s['mode'] == 'x1' else shape
        x = draw(gen.array(shape=xs, **kw))
    elif s['mode'] == 'dx':
        x = draw(gen.array(shape=(), dtypes=['f8'], values=gen.positive, specials=False))
    else:
        return s
    s['x'] = {'a': x, 'u': draw(gen.expr())}
    if draw(st.integers(0, 3)) == 0:
        s['x'] = {'p': {'a': x, 'k': 'array'}}
    if s['mode'] in ('x1', 'xn') and draw(st.integers(0, 3)) == 0:
        s['dx'] = {'a': {'t': 'f8', 's': [], 'd': [2.5]}, 'u': draw(gen.expr())}   # not used
    return s


def trapezoid(y, x, axis):
    """x: coordinates or one step"""
    y = np.moveaxis(np.asarray(y, 'f8'), axis, -1)
    x = np.asarray(x, 'f8')
    if x.ndim == 0:
        d = x
    elif x.ndim == 1:
        d = x[1:] - x[:-1]
    else:
        x = np.moveaxis(x, axis, -1)
        d = x[..., 1:] - x[..., :-1]
    return (d * (y[..., 1:] + y[..., :-1]) / 2).sum(-1)


def check_integrals(s, ev):
    y, a, e = operand(s['y'])
    if 'x' in s:
        x, b, u = operand(s['x'])
        kw = {'dx': x} if s['mode'] == 'dx' else {'x': x}
    else:
        b, u, kw = np.array(1.0), [], {}
    if 'dx' in s and 'x' in s:
        kw['dx'] = qty(s['dx'])
    r = pq.trapz(y, axis=s['axis'], **kw)
    exp = trapezoid(a, b, s['axis'])
    scale = np.abs(a).max(initial=0) * np.abs(b).max(initial=0) * a.size * 2
    if not isinstance(y, Quantity) and not any(isinstance(v, Quantity) for v in kw.values()):
        want(r, exp, 1e-10, 1e-11 * scale, what='trapz')
        return
    want_unit(r, times(e, u), 'trapz')
    want(mag(r), exp, 1e-10, 1e-11 * scale, what='trapz')
    ev.tag(s['mode'], 'ndim%d' % a.ndim)
    ev.nt(bool(merge(e) or merge(u)))


@st.composite
def crosses(draw):
    sa, sb = draw(st.sampled_from([((3,), (3,)), ((2, 3), (3,)), ((2, 3), (2, 3)), ((3,), (4, 3))]))
    kw = dict(dtypes=['f8', 'f8', 'i8'], specials=False)
    s = {}
    plain = draw(st.sampled_from([None, None, None, 'a', 'b', 'ab']))
    axes = draw(st.sampled_from([None, 'axis', 'separate', 'separate']))
    if axes == 'axis':      # of all three
        s['axis'] = 0
        sa = sb = draw(st.sampled_from([(3, 2), (3, 3), (3, 2, 2)]))
    elif axes:
        # where the vectors are, in a, b and the result
        sa, sb, pa, pb, pc = draw(st.sampled_from(
            [((3, 2), (2, 3), 0, 1, 0), ((3, 2), (2, 3), 0, -1, 1), ((2, 3), (3, 2), -1, 0, -1),
             ((3, 3), (3, 3), 0, 1, 0), ((3, 3), (3, 3), 1, 0, 1), ((2, 3, 4), (2, 4, 3), 1, 2, 0),
             ((3, 2, 4), (2, 3, 4), 0, 1, -1), ((3, 2), (3,), 0, -1, 0)]))
        s['axisa'], s['axisb'], s['axisc'] = pa, pb, pc
    for k, sh in (('a', sa), ('b', sb)):
        x = draw(gen.array(shape=sh, **kw))
        s[k] = {'p': {'a': x, 'k': 'array'}} if plain and k in plain \
            else {'a': x, 'u': draw(gen.expr())}
    return s


def check_crosses(s, ev):
    (qa, a, ea), (qb, b, eb) = operand(s['a']), operand(s['b'])
    kw = {k: s[k] for k in ('axis', 'axisa', 'axisb', 'axisc') if k in s}
    r = pq.cross(qa, qb, **kw)
    if 'p' in s['a'] and 'p' in s['b']:
        if isinstance(r, Quantity):
            fail('cross of plain data returned', repr(r))
    else:
        want_unit(r, times(ea, eb), 'cross')
    x = np.moveaxis(a, s.get('axis', s.get('axisa', -1)), -1)
    y = np.moveaxis(b, s.get('axis', s.get('axisb', -1)), -1)
    r = Quantity(np.moveaxis(mag(r), s.get('axis', s.get('axisc', -1)), -1))
    exp = np.stack([x[..., 1] * y[..., 2] - x[..., 2] * y[..., 1],
                    x[..., 2] * y[..., 0] - x[..., 0] * y[..., 2],
                    x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0]], -1)
    want(mag(r), exp, 1e-10, 1e-11 * np.abs(a).max() * np.abs(b).max(), what='cross')
    ev.nt(bool(merge(ea) or merge(eb)))


@st.composite
def unwraps(draw):
    shape = draw(st.sampled_from([(3,), (4,), (6,), (2, 4), (3, 2)]))
    n = gen.prod(shape)
    s = {'rad': draw(st.lists(st.integers(-200, 200).map(lambda i: i / 10), min_size=n, max_size=n)),
         's': list(shape), 'u': draw(gen.angle_name),
         'axis': draw(st.integers(-len(shape), len(shape) - 1))}
    k = draw(st.sampled_from(['default', 'default', 'plain', 'quantity', 'bad', 'badp',
                              'all plain']))
    s['k'] = k
    if k == 'plain' or k == 'all plain' and draw(st.booleans()):
        s['disc'] = draw(st.sampled_from([3.5, 4.25, 5.15]))
    elif k == 'quantity':
        s['disc'] = draw(st.sampled_from([3.55, 4.25, 5.15]))
        s['du'] = draw(gen.angle_name)
    elif k in ('bad', 'badp'):
        s['du'] = draw(st.sampled_from(gen.DIMFUL))
    return s


def check_unwraps(s, ev):
    rad = np.array(s['rad']).reshape(s['s'])
    k = FACTOR[s['u']]
    q = Quantity(rad / k, dimensionality([[s['u'], 1]]))
    if s['k'] == 'bad':
        must_raise('unwrap', pq.unwrap, q, Quantity(3.5, dimensionality([[s['du'], 1]])))
        ev.tag('rejected')
        ev.nt()
        return
    if s['k'] == 'badp':
        must_raise('unwrap', pq.unwrap, Quantity(rad, dimensionality([[s['du'], 1]])))
        ev.nt()
        return
    disc = s.get('disc', np.pi)
    d = np.abs(np.diff(rad, axis=s['axis']))
    if np.any(np.abs(d - disc) < 1e-6) or \
            np.any(np.abs(np.mod(d, 2 * np.pi) - np.pi) < 1e-6):
        return          # rounding decides
    args = []
    if s['k'] == 'all plain':
        r = pq.unwrap(rad, *([disc] if 'disc' in s else []), axis=s['axis'])
        if isinstance(r, Quantity):
            fail('unwrap of plain data returned', repr(r))
        want(r, np.unwrap(rad, disc, axis=s['axis']), 1e-12, what='unwrap')
        ev.tag(s['k'])
        return
    if s['k'] == 'plain':
        args = [disc]
    elif s['k'] == 'quantity':
        args = [Quantity(disc / FACTOR[s['du']], dimensionality([[s['du'], 1]]))]
    r = pq.unwrap(q, *args, axis=s['axis'])
    want_unit(r, [[s['u'], 1]], 'unwrap')
    want(mag(r) * k, np.unwrap(rad, disc, axis=s['axis']), 1e-9, 1e-9, what='unwrap')
    ev.tag(s['k'])
    ev.nt(s['u'] != 'radian')


SUBS = [
    Sub('elementwise', check_elementwise, elementwise, quick=2400),
    Sub('two', check_two, two, quick=1200),
    Sub('reductions', check_reductions, reductions, quick=1500),
    Sub('ediff1d', check_ediff, ediff, quick=450),
    Sub('gradient', check_gradients, gradients, quick=900),
    Sub('trapz', check_integrals, integrals, quick=750),
    Sub('cross', check_crosses, crosses, quick=300),
    Sub('unwrap', check_unwraps, unwraps, quick=600),
]
