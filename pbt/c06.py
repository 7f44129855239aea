"""Comparisons are unit-aware"""
from hypothesis import strategies as st

from . import gen
from .c04 import ok_factors, narrow
from .core import Sub
from .lib import *

RULE = """A case compares two operands (quantities, uncertain quantities, bare units,
numbers, arrays, lists) with all six operators, both ways round. Oracle: the physical
amounts by the reference table, exact where the units are the same or the conversion
factor is a whole number, undecided (and then only checked for consistency of the six
operators) where the amounts agree to 1e-9. Non-trivial: at least one element is
decided and the units differ, or the dimensions differ."""

SIX = ['==', '!=', '<', '<=', '>', '>=']
SWAP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}
# larger, smaller, whole factor: whole numbers convert without rounding
WHOLE = [('kilometer', 'meter', 1000), ('byte', 'bit', 8), ('minute', 'second', 60),
         ('hour', 'second', 3600), ('kilogram', 'gram', 1000), ('day', 'second', 86400)]


def result(r, shape, what):
    if isinstance(r, Quantity):
        fail(what, 'returned a Quantity', repr(r))
    r = np.asarray(r)
    if r.dtype != np.dtype(bool):
        fail(what, 'returned', r.dtype)
    if shape is not None and r.shape != shape:
        fail(what, 'shape', r.shape, 'instead of', shape)
    return r


def consistent(got, nan):
    """the six answers contradict each other?"""
    le, lt, ge, gt, eq, ne = (got[o] for o in ('<=', '<', '>=', '>', '==', '!='))
    if np.any(eq == ne):
        fail('== and != are not opposite')
    if np.any(le != (lt | eq)) or np.any(ge != (gt | eq)):
        fail('<= or >= disagree with <, > and ==')
    if np.any((lt.astype(int) + gt + eq)[~nan] != 1):
        fail('not exactly one of <, ==, >')


@st.composite
def pair(draw):
    sa, sb = draw(st.sampled_from(gen.SHAPE_PAIRS))
    kinds = draw(st.sampled_from([gen.REALS, gen.REALS, ['f8', 'i8'], ['c16', 'f8']]))
    if draw(st.integers(0, 6)) == 0:
        qa = {'unit': draw(gen.unit_name)}
    else:
        qa = draw(gen.quantity(shape=sa, big=True, dtypes=kinds))
    eb = draw(st.one_of(gen.compatible_expr(q_expr(qa)), st.just(q_expr(qa))))
    if len(eb) == 1 and eb[0][1] == 1 and draw(st.integers(0, 4)) == 0:
        qb = {'unit': eb[0][0]}
    else:
        qb = {'a': draw(gen.array(shape=sb, big=True, dtypes=kinds)), 'u': eb}
        if 'a' in qa and draw(st.integers(0, 2)) == 0 and sa == sb:
            # nearly or exactly the same numbers
            d = [x if draw(st.booleans()) else y
                 for x, y in zip(qa['a']['d'], qb['a']['d'])]
            if qb['a']['t'] == qa['a']['t']:
                qb['a']['d'] = d
    return {'a': qa, 'b': qb, 'uq': draw(st.integers(0, 7)) == 0}


def check_pair(s, ev):
    if not ok_factors(s['a'], s['b']):
        return
    a, b = q_arr(s['a']), q_arr(s['b'])
    ea, eb = q_expr(s['a']), q_expr(s['b'])
    qa, qb = qty(s['a']), qty(s['b'])
    if s['uq'] and 'unit' not in s['a'] and a.dtype == np.dtype('f8'):
        qa = UQ(qa, uncertainty=np.ones(a.shape))
    same = merge(ea) == merge(eb)
    cplx = 'c' in (a.dtype.kind, b.dtype.kind)
    if cplx and not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return
    ops = SIX[:2] if cplx else SIX
    shape = np.broadcast_shapes(a.shape, b.shape)
    got = {o: result(OPS[o](qa, qb), shape, o) for o in ops}
    with np.errstate(all='ignore'):
        if same:
            x, y = np.broadcast_arrays(a, b)
            decided = np.ones(shape, bool)
        else:
            r = ratio(eb, ea)
            x, y = np.broadcast_arrays(a.astype('c16' if cplx else 'f8'), b * r)
            gap = 1e-9 if not narrow(s['a'], s['b']) else 1e-4
            scale = np.fmax(np.abs(x), np.abs(y))
            decided = ~(np.abs(x - y) <= gap * scale) | ~np.isfinite(x) | ~np.isfinite(y) \
                | ((x == 0) & (y == 0))
        for o in ops:
            exp = OPS[o](x, y)
            bad = decided & (got[o] != exp)
            if np.any(bad):
                fail(o, 'gave', got[o], 'expected', exp)
            other = result(OPS[SWAP[o]](qb, qa), shape, 'swapped')
            if np.any(decided & (other != exp)):
                fail('swapped', o, 'gave', other, 'expected', exp)
    if not cplx:
        consistent(got, np.isnan(x) | np.isnan(y))
    elif np.any(got['=='] == got['!=']):
        fail('== and != are not opposite')
    ev.tag('same' if same else 'convert', 'c' if cplx else 'r',
           'bareL' if 'unit' in s['a'] else '', 'bareR' if 'unit' in s['b'] else '',
           'equal' if np.any(got['==']) else '')
    ev.nt(np.any(decided) and not same)


@st.composite
def whole(draw):
    return {'w': draw(st.integers(0, len(WHOLE) - 1)),
            'n': draw(st.integers(-10**6, 10**6)), 'off': draw(st.sampled_from([0, 0, 1, -1])),
            't': draw(st.sampled_from(['f8', 'i8'])), 'tail': draw(gen.expr(max_units=1))}


def check_whole(s, ev):
    """equality of exactly equal amounts in different units"""
    big, small, k = WHOLE[s['w']]
    x = Quantity(np.array([s['n']], s['t']), dimensionality([[big, 1]]))
    y = Quantity(np.array([s['n'] * k + s['off']], s['t']), dimensionality([[small, 1]]))
    # the exact direction: the larger unit is converted to the smaller one
    got = {o: bool(result(OPS[o](y, x), (1,), o)[0]) for o in SIX}
    for o in SIX:
        if got[o] != OPS[o](s['off'], 0):
            fail(y, o, x, 'is', got[o])
    ev.nt()
    ev.tag('equal' if not s['off'] else 'off by one')


@st.composite
def bare(draw):
    sa, sb = draw(st.sampled_from(gen.SHAPE_PAIRS))
    q = draw(gen.quantity(shape=sa, dtypes=gen.REALS, bare_units=True))
    p = draw(gen.plain(shape=sb, dtypes=['f8', 'f8', 'i8']))
    if 'a' in q and q['a']['t'] == p['a']['t'] and sa == sb and draw(st.booleans()):
        p['a']['d'] = list(q['a']['d'])
    return {'q': q, 'p': p}


def check_bare(s, ev):
    q, a = qty(s['q']), q_arr(s['q'])
    p, b = plain(s['p']), arr(s['p']['a'])
    bb = p if s['p']['k'] == 'number' else b
    shape = np.broadcast_shapes(a.shape, b.shape)
    got = {}
    for o in SIX:
        exp = OPS[o](a, bb)
        got[o] = result(OPS[o](q, p), shape, o)
        if np.any(got[o] != exp):
            fail(repr(q), o, repr(p), 'gave', got[o])
        r = result(OPS[o](p, q), shape, 'number ' + o)
        if np.any(r != OPS[o](bb, a)):
            fail(repr(p), o, repr(q), 'gave', r)
    ev.tag(s['p']['k'], 'unit' if 'unit' in s['q'] else 'quantity')
    ev.nt(a.size and b.size and q_expr(s['q']))


@st.composite
def mismatch(draw):
    sa, sb = draw(st.sampled_from(gen.SHAPE_PAIRS))
    qa = draw(gen.quantity(shape=sa, dtypes=gen.REALS, bare_units=True))
    eb = draw(gen.incompatible_expr(q_expr(qa)))
    if len(eb) == 1 and eb[0][1] == 1 and draw(st.booleans()):
        qb = {'unit': eb[0][0]}
    else:
        qb = {'a': draw(gen.array(shape=sb)), 'u': eb}
        if 'a' in qa and draw(st.booleans()):
            qb['a'] = qa['a']
    return {'a': qa, 'b': qb}


def check_mismatch(s, ev):
    if compatible(q_expr(s['a']), q_expr(s['b'])):
        return
    qa, qb = qty(s['a']), qty(s['b'])
    for x, y in ((qa, qb), (qb, qa)):
        r = result(x == y, None, '==')
        if np.any(r):
            fail(repr(x), '==', repr(y))
        n = result(x != y, None, '!=')
        if not np.all(n):
            fail('not', repr(x), '!=', repr(y))
        if r.shape != n.shape or (np.size(x) and np.size(y) and not r.size):
            fail('shapes', r.shape, n.shape)
        for o in SIX[2:]:
            must_raise('%r %s %r' % (x, o, y), OPS[o], x, y)
    ev.nt(qa.size and qb.size)
    ev.tag('bare' if 'unit' in s['a'] or 'unit' in s['b'] else '')


@st.composite
def own(draw):
    return {'q': draw(gen.quantity(big=True, dtypes=gen.ANY, bare_units=True)),
            'kind': draw(st.sampled_from(['q', 'q', 'uq', 'view', 'T', 'copy', 'array'])),
            'f': draw(st.sampled_from(['op', 'op', 'np', 'method']))}


NPCMP = {'==': 'equal', '!=': 'not_equal', '<': 'less', '<=': 'less_equal', '>': 'greater', '>=': 'greater_equal'}


def check_own(s, ev):
    """a quantity compared with itself, or with another object which shares its data"""
    q, a = qty(s['q']), q_arr(s['q'])
    if s['kind'] == 'uq' and 'a' in s['q'] and a.dtype == np.dtype('f8'):
        q = UQ(q, uncertainty=np.ones(a.shape))
    r = {'view': lambda: q[...], 'T': lambda: q.T.T, 'copy': q.copy, 'array': lambda: q.view(np.ndarray)}.get(
        s['kind'], lambda: q)()
    for o in SIX[:2] if a.dtype.kind == 'c' else SIX:
        f = OPS[o] if s['f'] == 'op' else (lambda x, y: getattr(x, '__%s__' % o_name(o))(y)) if s['f'] == 'method' \
            else getattr(np, NPCMP[o])
        if s['f'] == 'np' and s['kind'] == 'array':
            return
        got = np.asarray(f(q, r)) if s['f'] == 'np' else result(f(q, r), a.shape, o)
        exp = OPS[o](a, a)
        if not np.array_equal(got, exp):
            fail(q, o, 'itself gave', got, 'instead of', exp)
    ev.tag(s['kind'], s['f'], 'nan' if a.dtype.kind in 'fc' and np.isnan(a).any() else '')
    ev.nt(a.size and merge(q_expr(s['q'])))


def o_name(o):
    return {'==': 'eq', '!=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge'}[o]


SUBS = [
    Sub('own', check_own, own, quick=600),
    Sub('pair', check_pair, pair, quick=2700),
    Sub('whole', check_whole, whole, quick=600),
    Sub('bare', check_bare, bare, quick=1200),
    Sub('mismatch', check_mismatch, mismatch, quick=1200),
]
