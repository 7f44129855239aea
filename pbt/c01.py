"""Unit conversion preserves the physical amount"""
from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is a quantity (dtype, shape, memory layout, special values, unit
expression over the whole registry) and a target expression of the same (or, in
'reject', another) dimension in one of its spellings. Non-trivial: the source and
the target expression differ and, except in 'reject', the array is not empty."""

ASSUMPTIONS = ['the reviewed table pbt/golden_units.json gives SI value and '
               'dimension of each predefined unit']


def representable(r, dtype):
    """float32 conversions whose factors leave the float32 range are skipped"""
    if np.dtype(dtype) in (np.dtype('f4'), np.dtype('c8')):
        return 1e-24 < r < 1e24
    return 1e-250 < r < 1e250


def f32_safe(expr):
    """the code computes intermediate SI factors in the dtype of the data"""
    p = si_factor(expr)
    return 1e-24 < p < 1e24


@st.composite
def convert(draw):
    bare = draw(st.integers(0, 9)) == 0
    if bare:
        q = {'unit': draw(gen.unit_name)}
    else:
        q = draw(gen.quantity(dtypes=gen.EVERY, big=True))
    return {'q': q, 'to': draw(gen.compatible_expr(q_expr(q))),
            'how': draw(gen.spelling), 'ro': draw(st.integers(0, 4)) == 0,
            'via': draw(st.sampled_from(['rescale', 'rescale', 'new', 'dtype']))}


def check_convert(s, ev):
    src, dst = q_expr(s['q']), s['to']
    a = q_arr(s['q'])
    r = ratio(src, dst)
    if not representable(r, a.dtype) or (
            a.dtype.itemsize < 8 and not (f32_safe(src) and f32_safe(dst))):
        ev.tag('factor out of range')
        return
    q = qty(s['q'])
    if s['ro'] and 'unit' not in s['q']:
        q.flags.writeable = False
        ev.tag('read-only')
    target = spell(dst, s['how'])
    before = snap(q), snap(target)
    dtype = a.dtype
    if s['via'] == 'new':
        out = Quantity(q, target)
    elif s['via'] == 'dtype' and a.dtype.kind == 'f' and 'unit' not in s['q']:
        out = q.rescale(target, dtype='f8')
        dtype = np.dtype('f8') if a.dtype.itemsize <= 8 else a.dtype
        ev.tag('dtype=')
    else:
        out = q.rescale(target)
    if (snap(q), snap(target)) != before:
        fail('conversion changed its source or target')
    if type(out) is not Quantity:
        fail('type', type(out))
    want_unit(out, dst)
    with np.errstate(all='ignore'):
        exp = a.astype('c16' if a.dtype.kind == 'c' else 'f8') * r
    want(mag(out), exp, tol(a.dtype), what='converted magnitude')
    if a.dtype.kind in 'fc' and out.dtype != dtype:
        fail('dtype', a.dtype, 'became', out.dtype)
    # an independent copy
    if 'unit' not in s['q'] and s['via'] != 'new':
        if a.size and np.shares_memory(np.asarray(out), np.asarray(q)):
            fail('the result shares memory with the source')
        if out.size:
            out[...] = out[...] * 0
            if snap(q) != before[0]:
                fail('writing to the result changed the source')
    ev.tag(a.dtype.str[1:], 'ndim%d' % a.ndim, s['how'], s['via'],
           'bare' if 'unit' in s['q'] else 'units%d' % len(src))
    ev.nt(a.size and merge(src) != merge(dst))


@st.composite
def route(draw):
    u = draw(gen.expr())
    return {'a': draw(gen.array(big=True, dtypes=['f8', 'f8', 'i8', 'c16'])),
            'u': [u, draw(gen.compatible_expr(u)), draw(gen.compatible_expr(u))],
            'how': [draw(gen.spelling) for _ in range(3)]}


def check_route(s, ev):
    a, (u, v, w) = arr(s['a']), s['u']
    rs = [ratio(u, v), ratio(v, w), ratio(u, w)]
    if not all(representable(r, 'f8') for r in rs):
        return
    q = Quantity(a, dimensionality(u))
    sp = [spell(x, h) for x, h in zip(s['u'], s['how'])]
    qv = q.rescale(sp[1])
    back = qv.rescale(sp[0])
    want_unit(back, u)
    want(mag(back), a, 1e-10, what='round trip')
    direct, twice = q.rescale(sp[2]), qv.rescale(sp[2])
    want_unit(direct, w)
    want_unit(twice, w)
    want(mag(twice), mag(direct), 1e-10, what='two steps against one')
    ev.nt(a.size and merge(u) != merge(v) != merge(w))
    ev.tag('units%d' % len(u))


@st.composite
def odd(draw):
    u, v = draw(gen.odd_pair())
    return {'a': draw(gen.array(dtypes=['f8', 'f8', 'i8', 'c16'])), 'u': u, 'v': v,
            'how': draw(st.sampled_from(['string', 'quantity', 'dim']))}


def check_odd(s, ev):
    """exponents which are no dyadic fractions, and large ones"""
    u, v = s['u'], s['v']
    a = arr(s['a'])
    if not all(1e-200 < si_factor([x]) < 1e200 for x in u + v) or \
            not all(representable(x, 'f8') for x in (ratio(u, v), si_factor(u), si_factor(v))):
        ev.tag('factor out of range')
        return
    q = Quantity(a, dimensionality(u))
    r = q.rescale(spell(v, s['how']))
    want_unit(r, v)
    want(mag(r), a.astype('c16' if a.dtype.kind == 'c' else 'f8') * ratio(u, v), 1e-10,
         what='converted magnitude')
    want(mag(r.rescale(dimensionality(u))), a, 1e-10, what='round trip')
    ev.tag('units%d' % len(u), *['%.4g' % x[1] for x in u])
    ev.nt(a.size and merge(u) != merge(v))


@st.composite
def reject(draw):
    q = draw(gen.quantity(bare_units=True))
    e = q_expr(q)
    kind = draw(st.sampled_from(['expr'] * 6 + ['near'] * 3 + ['junk']))
    s = {'q': q, 'kind': kind, 'how': draw(gen.spelling),
         'via': draw(st.sampled_from(['rescale', 'new', 'dimless']))}
    if kind == 'expr':
        s['to'] = draw(gen.incompatible_expr(e))
    elif kind == 'near':    # one exponent off
        base = draw(gen.compatible_expr(e))
        n = draw(st.sampled_from(gen.DIMFUL))
        s['to'] = [list(x) for x in merge(
            base + [[n, draw(st.sampled_from([1, -1, 0.5]))]]).items()]
    else:
        s['to'] = draw(st.sampled_from(
            ['number', 'list', 'scaled', 'array', 'nosuchunit', 'float', 'bytes']))
    return s


def check_reject(s, ev):
    q = qty(s['q'])
    if s['kind'] == 'junk':
        u = unit_quantity(q_expr(s['q']))
        target = {'number': 3, 'list': ['m'], 'scaled': 2 * u,
                  'array': Quantity([1., 1.], dimensionality(q_expr(s['q']))),
                  'nosuchunit': 'nosuchunit_xyz', 'float': 1.0,
                  'bytes': b'm'}[s['to']]
        f = q.rescale
    elif s['via'] == 'dimless' and si_dims(q_expr(s['q'])):
        target = None
        f = lambda _: q.dimensionless_magnitude
    else:
        if compatible(q_expr(s['q']), s['to']):
            return
        if not s['to'] and s['via'] == 'new':
            return
        target = spell(s['to'], s['how'])
        f = q.rescale
        if s['via'] == 'new':
            f = lambda t: Quantity(q, t)
    before = snap(q)
    must_raise('conversion of %r to %r' % (q, target), f, target)
    if snap(q) != before:
        fail('a rejected conversion changed the quantity')
    ev.tag(s['kind'], s['via'])
    ev.nt()


@st.composite
def dimless(draw):
    e = draw(gen.expr())
    f = draw(gen.compatible_expr(e))
    return {'a': draw(gen.array(big=True, dtypes=['f8', 'f8', 'f4', 'i8', 'c16'])), 'u': e, 'v': f}


def check_dimless(s, ev):
    u = times(s['u'], s['v'], -1)
    r = si_factor(u)
    a = arr(s['a'])
    if not representable(r, a.dtype):
        return
    q = Quantity(a, dimensionality(u))
    before = snap(q)
    m = q.dimensionless_magnitude
    plain_data(m, 'dimensionless_magnitude')
    want(m, a.astype('c16' if a.dtype.kind == 'c' else 'f8') * r, tol(a.dtype))
    if snap(q) != before:
        fail('dimensionless_magnitude changed the quantity')
    ev.nt(u and a.size)


SUBS = [
    Sub('convert', check_convert, convert, quick=2500),
    Sub('route', check_route, route, quick=1200),
    Sub('odd', check_odd, odd, quick=900),
    Sub('reject', check_reject, reject, quick=1200),
    Sub('dimless', check_dimless, dimless, quick=600),
]
