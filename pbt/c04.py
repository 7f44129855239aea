"""Addition, subtraction and remainder respect units"""
from hypothesis import strategies as st

from . import gen
from .c01 import representable
from .core import Sub
from .lib import *

RULE = """A case is an operator (+ - % and in-place forms) with two operands:
quantities over the whole registry, bare unit objects, numbers, numpy scalars, lists
or arrays, with shapes that broadcast; operands of another dimension for rejections.
Oracle: the same numpy operation on magnitudes converted with the reference table.
Non-trivial: both operands hold elements and their units differ, or the operation
has to be rejected."""


def conv(b, e_from, e_to, other):
    """magnitude of b converted, in the precision the result can have"""
    if merge(e_from) == merge(e_to):
        return b
    r = ratio(e_from, e_to)
    if b.dtype.kind == 'c':
        return b.astype('c16') * r
    return b.astype('f8') * r


def check_value(op, got, a, b, e_a, e_b, exact, what='', t=None):
    """a (+-%) b with the tolerance the conversion of b deserves"""
    dt = np.result_type(a.dtype, b.dtype)
    t = t or (tol(dt) if dt.kind in 'fc' else 1e-10)
    bb = conv(b, e_b, e_a, a)
    with np.errstate(all='ignore'):
        exp = OPS[op](a, bb)
        if exact:
            want(got, exp, t, what=what)
            return
        x, y = np.broadcast_arrays(np.abs(a), np.abs(bb))
        scale = np.fmax(np.where(np.isfinite(x), x, 0), np.where(np.isfinite(y), y, 0))
        atol = t * scale
        got = np.asarray(got)
        if got.shape != exp.shape:
            fail(what, 'shape', got.shape, 'instead of', exp.shape)
        if op == '%':
            # a remainder may be off by one divisor where it jumps
            fin = np.isfinite(got) & np.isfinite(exp)
            d = np.abs(got - exp)
            near = (d <= atol) | (np.abs(d - y) <= atol) | (y <= 4 * atol)
            same = (got == exp) | (np.isnan(got) & np.isnan(exp))
            # infinite and zero divisors follow numpy
            ok = np.where(fin, near, same)
            if not np.all(ok):
                fail(what, 'got', repr(got), 'expected', repr(exp))
            return
        for g, e in ((got.real, exp.real), (got.imag, exp.imag)):
            fin = np.isfinite(g) & np.isfinite(e)
            same = (g == e) | (np.isnan(g) & np.isnan(e))
            if not np.all(np.where(fin, np.abs(g - e) <= atol, same)):
                fail(what, 'got', repr(got), 'expected', repr(exp))


@st.composite
def binary(draw):
    op = draw(st.sampled_from(['+', '+', '-', '-', '%']))
    kinds = gen.REALS if op == '%' else gen.ANY
    sa, sb = draw(st.sampled_from(gen.SHAPE_PAIRS))
    if draw(st.integers(0, 5)) == 0:
        qa = {'unit': draw(gen.unit_name)}
    else:
        qa = draw(gen.quantity(shape=sa, big=True, dtypes=kinds))
    eb = draw(gen.compatible_expr(q_expr(qa)))
    if len(eb) == 1 and eb[0][1] == 1 and draw(st.integers(0, 2)) == 0:
        qb = {'unit': eb[0][0]}
    else:
        qb = {'a': draw(gen.array(shape=sb, big=True, dtypes=kinds)), 'u': eb}
    return {'op': op, 'a': qa, 'b': qb}


def specials_with_complex(a, b):
    """nan or inf in a real operand next to a complex one: what the imaginary
    part becomes depends on when the conversion to complex happens"""
    return 'c' in (a.dtype.kind, b.dtype.kind) and not (
        np.all(np.isfinite(a)) and np.all(np.isfinite(b)))


def narrow(*specs):
    return any('a' in s and s['a']['t'] in ('f4', 'c8') for s in specs)


def ok_factors(*specs):
    es = [q_expr(s) for s in specs]
    if narrow(*specs):
        if not all(1e-20 < si_factor(e) < 1e20 for e in es):
            return False
        return 1e-18 < ratio(es[0], es[-1]) < 1e18
    return all(1e-200 < si_factor(e) < 1e200 for e in es)


def check_binary(s, ev):
    if not ok_factors(s['b'], s['a']):
        return
    op, a, b = s['op'], q_arr(s['a']), q_arr(s['b'])
    ea, eb = q_expr(s['a']), q_expr(s['b'])
    if specials_with_complex(a, b):
        return
    qa, qb = qty(s['a']), qty(s['b'])
    same = merge(ea) == merge(eb)
    r = OPS[op](qa, qb)
    if type(r) is not Quantity:
        fail('type', type(r))
    want_unit(r, ea, op)
    check_value(op, mag(r), a, b, ea, eb, same and op != '%', op)
    if same and np.result_type(a, b).kind == 'i' and r.dtype.kind != 'i':
        fail('integers became', r.dtype)
    t = 1e-9 if not narrow(s['a'], s['b']) else 1e-3
    fin = np.all(np.isfinite(a)) and np.all(np.isfinite(b))
    if op == '+' and fin:
        # the other way round: same physical amount
        w = qb + qa
        want_unit(w, eb)
        m = np.abs(np.broadcast_arrays(a, conv(b, eb, ea, a))).max(initial=0)
        want(mag(w) * ratio(eb, ea), mag(r), t, t * m, 'b + a')
        back = r - qb
        want_unit(back, ea)
        want(mag(back), np.broadcast_to(a, r.shape), t, t * m, '(a + b) - b')
    if op == '-' and fin:
        w = qb - qa
        want_unit(w, eb)
        m = np.abs(np.broadcast_arrays(a, conv(b, eb, ea, a))).max(initial=0)
        want(-mag(w) * ratio(eb, ea), mag(r), t, t * m, '-(b - a)')
    ev.tag(op, 'bareL' if 'unit' in s['a'] else '', 'bareR' if 'unit' in s['b'] else '',
           str(np.result_type(a, b)), 'same' if same else 'convert')
    ev.nt(r.size and not same)


@st.composite
def inplace(draw):
    op = draw(st.sampled_from(['+=', '-=', '%=']))
    kinds = gen.REALS if op == '%=' else gen.ANY
    sa, sb = draw(st.sampled_from(gen.INTO_PAIRS))
    qa = draw(gen.quantity(shape=sa, big=True, dtypes=kinds))
    bad = draw(st.integers(0, 3)) == 0
    if bad:
        eb = draw(gen.incompatible_expr(qa['u']))
    else:
        eb = draw(gen.compatible_expr(qa['u']))
    if len(eb) == 1 and eb[0][1] == 1 and draw(st.integers(0, 2)) == 0:
        qb = {'unit': eb[0][0]}
    else:
        qb = {'a': draw(gen.array(shape=sb, big=True, dtypes=kinds)), 'u': eb}
    return {'op': op, 'a': qa, 'b': qb, 'view': draw(st.booleans())}


def check_inplace(s, ev):
    op, a, b = s['op'], q_arr(s['a']), q_arr(s['b'])
    ea, eb = q_expr(s['a']), q_expr(s['b'])
    if not ok_factors(s['b'], s['a']) or specials_with_complex(a, b):
        return
    qa, qb = qty(s['a']), qty(s['b'])
    base = None
    if s['view'] and qa.ndim:
        base = qa
        qa = qa[...]
    target = qa
    before, bsnap = snap(qa), snap(qb)
    err = None
    try:
        qa = OPS[op](qa, qb)
    except Exception as e:
        err = e
    if snap(qb) != bsnap:
        fail('the right operand changed')
    if not compatible(ea, eb):
        if err is None:
            fail(op, 'of', eb, 'to', ea, 'gave', repr(qa))
        if snap(target) != before:
            fail('a rejected', op, 'changed the target')
        ev.tag('rejected')
        ev.nt()
        return
    dt = OPS[op[0]](np.ones(1, a.dtype), conv(np.ones(1, b.dtype), eb, ea, a)).dtype
    if not np.can_cast(dt, a.dtype, 'same_kind'):
        if err is None:
            # only fine if nothing was lost
            check_value(op[0], mag(qa), a, b, ea, eb, False, op)
        elif snap(target) != before:
            fail('a rejected', op, 'changed the target')
        ev.tag('cannot cast')
        return
    if err is not None:
        fail(op, 'raised', repr(err))
    if qa is not target:
        fail(op, 'rebinds instead of changing in place')
    want_unit(qa, ea, op)
    if qa.dtype != a.dtype:
        fail('dtype became', qa.dtype)
    exact = merge(ea) == merge(eb) and op != '%='
    if a.dtype.kind in 'iu' and b.size and np.abs(b).max() > np.iinfo(a.dtype).max // 2:
        return      # numpy wraps around
    if narrow(s['a'], s['b']):
        # the precision of the result is that of the target
        check_value(op[0], mag(qa), a, b, ea, eb, False, op, tol('f4'))
    else:
        check_value(op[0], mag(qa), a, b, ea, eb, exact, op)
    if base is not None:
        same_exact(mag(base), mag(qa), 'base of the view')
        want_unit(base, ea)
    ev.tag(op, 'view' if base is not None else 'own')
    ev.nt(a.size and merge(ea) != merge(eb))


@st.composite
def mismatch(draw):
    op = draw(st.sampled_from(['+', '-', '%']))
    sa, sb = draw(st.sampled_from(gen.SHAPE_PAIRS))
    if draw(st.integers(0, 4)) == 0:
        qa = {'unit': draw(gen.unit_name)}
    else:
        qa = draw(gen.quantity(shape=sa))
    eb = draw(gen.incompatible_expr(q_expr(qa)))
    if len(eb) == 1 and eb[0][1] == 1 and draw(st.integers(0, 1)) == 0:
        qb = {'unit': eb[0][0]}
    else:
        qb = {'a': draw(gen.array(shape=sb)), 'u': eb}
    return {'op': op, 'a': qa, 'b': qb}


def check_mismatch(s, ev):
    ea, eb = q_expr(s['a']), q_expr(s['b'])
    if compatible(ea, eb):
        return
    qa, qb = qty(s['a']), qty(s['b'])
    before = snap(qa), snap(qb)
    must_raise('%s %s %s' % (ea, s['op'], eb), OPS[s['op']], qa, qb)
    must_raise('%s %s %s' % (eb, s['op'], ea), OPS[s['op']], qb, qa)
    if (snap(qa), snap(qb)) != before:
        fail('a rejected operation changed an operand')
    ev.tag(s['op'])
    ev.nt()


PURE = [n for n in GOLD if not DIMS[n]]


@st.composite
def bare(draw):
    """one operand without units"""
    op = draw(st.sampled_from(['+', '-', '%', '+=', '-=']))
    sa, sb = draw(st.sampled_from(gen.INTO_PAIRS))
    pure = draw(st.integers(0, 2)) > 0
    if pure:
        u = draw(st.sampled_from([[], [], [['percent', 1]], [['radian', 1]],
                                  [['arcdegree', 1]], [['meter', 1], ['kilometer', -1]]]))
    else:
        u = draw(gen.expr(min_units=1))
    if draw(st.integers(0, 5)) == 0:
        # bare units, also the one without a dimension
        n = draw(st.sampled_from(['dimensionless'] * 2 + PURE) if pure else gen.unit_name)
        return {'op': op[0], 'a': {'unit': n}, 'b': draw(gen.plain(shape=sb, dtypes=['f8', 'i8'])),
                'left': draw(st.booleans())}
    return {'op': op, 'a': {'a': draw(gen.array(shape=sa, dtypes=['f8', 'f8', 'i8'])), 'u': u},
            'b': draw(gen.plain(shape=sb, dtypes=['f8', 'i8'])),
            'left': draw(st.booleans())}


def check_bare(s, ev):
    op = s['op']
    if s['a'].get('unit') == 'dimensionless':
        q, a, e = pq.dimensionless, np.array(1.0), []
    else:
        q, a, e = qty(s['a']), q_arr(s['a']), q_expr(s['a'])
    b, p = arr(s['b']['a']), plain(s['b'])
    left = s['left'] and len(op) == 1
    args = (p, q) if left else (q, p)
    before = snap(q)
    ev.tag(op, 'left' if left else 'right', s['b']['k'])
    if si_dims(e):
        if left and not np.any(b):
            # numpy itself may treat nothing as nothing: 0 + q
            return
        must_raise('number %s %s' % (op, e), OPS[op], *args)
        if snap(q) != before:
            fail('a rejected operation changed the quantity')
        ev.tag('rejected')
        ev.nt()
        return
    if len(op) == 2 and not np.can_cast(
            np.result_type(b.dtype, 'f8' if e else b.dtype), a.dtype, 'same_kind'):
        return
    try:
        r = OPS[op](*args)
    except Exception as err:
        # numpy handles a numpy scalar on the left, and a remainder of a bare
        # number, without asking the quantity
        if left and (op == '%' or isinstance(p, np.generic)):
            ev.tag('left rejected')
            return
        fail(op, 'raised', repr(err))
    if not isinstance(r, Quantity):
        fail('not a Quantity:', repr(r))
    # numbers take on the unit of the quantity
    want_unit(r, e, op)
    bb = b if not e else b / si_factor(e)
    with np.errstate(all='ignore'):
        x, y = (bb, a) if left else (a, bb)
        if op[0] == '%' and a.dtype.kind == b.dtype.kind == 'i' and not np.all(y):
            return      # 0 or nan, by the moment of the conversion
        check_value(op[0], mag(r), np.asarray(x), np.asarray(y), [], [], False, op)
    if len(op) == 2 and r is not q:
        fail('not in place')
    ev.nt(r.size)


# --------------------------------------------------------------------------
# units which look alike

@st.composite
def alike(draw):
    u = draw(gen.expr(min_units=1, max_units=2))
    return {'u': u, 'v': draw(st.sampled_from([u, u, draw(gen.compatible_expr(u)), draw(gen.incompatible_expr(u))])),
            'f': draw(st.lists(st.sampled_from([0.5, 2.0, 3.0, 12.0, 1000.0, 0.3048]), min_size=2, max_size=2,
                               unique=True)),
            'same': draw(st.sampled_from(['symbol', 'symbol', 'u_symbol', 'both'])),
            'cls': draw(st.sampled_from(['constant', 'constant', 'unit'])),
            'p': draw(st.sampled_from([1, 1, 2, -1])), 'op': draw(st.sampled_from(['+', '-', '%', '+=', '-='])),
            'x': draw(st.sampled_from([[7.0], [1.5, 40.0]])), 'y': draw(st.sampled_from([2.0, 0.25, 30.0]))}


def check_alike(s, ev):
    """two units of the same symbol are two units all the same"""
    fs = [si_factor(s[k]) * f for k, f in zip('uv', s['f'])]
    if not all(1e-60 < f < 1e60 for f in fs):
        return
    cls = pq.UnitConstant if s['cls'] == 'constant' else pq.UnitQuantity
    look = fresh('lk')
    us = []
    for k, f in zip('uv', s['f']):
        name = fresh('al')
        kw = {}
        if s['same'] in ('symbol', 'both') and s['cls'] == 'constant':
            kw['symbol'] = look
        if s['same'] in ('u_symbol', 'both') or s['cls'] == 'unit':
            kw['u_symbol'] = look
        us.append(cls(name, f * unit_quantity(s[k]), **kw))
    p = s['p']
    x = np.array(s['x'])
    a, b = x * us[0] ** p, s['y'] * us[1] ** p
    r = (fs[1] / fs[0]) ** p        # b in the unit of a
    before = a.copy()
    ev.tag(s['same'], s['cls'], s['op'])
    ev.nt()
    if not compatible(s['u'], s['v']):
        must_raise(s['op'], OPS[s['op']], a, b)
        must_raise('rescale', b.rescale, a.units)
        if (a == b).any():
            fail('equal amounts of different dimensions')
        return
    c = b.rescale(a.units)
    want(mag(c), s['y'] * r, 1e-10, what='rescale')
    if (abs(x / (s['y'] * r) - 1) > 1e-6).all():
        want(np.asarray(a == b), np.zeros(x.shape, bool), 0, what='==')
        want(np.asarray(a < b), x < s['y'] * r, 0, what='<')
    got = OPS[s['op']](a, b)
    check_value(s['op'].rstrip('='), mag(got), x, np.array(s['y'] * r), [], [], False, s['op'])
    if got.dimensionality != before.dimensionality:
        fail(s['op'], 'gave', repr(got))
    want(mag(before / b), x / s['y'], 1e-12, what='/')
    if (before / b).dimensionality == Quantity(1.0).dimensionality:
        fail('two units cancelled each other:', repr(before / b))


SUBS = [
    Sub('binary', check_binary, binary, quick=2400),
    Sub('inplace', check_inplace, inplace, quick=1500),
    Sub('mismatch', check_mismatch, mismatch, quick=900),
    Sub('bare', check_bare, bare, quick=900),
    Sub('alike', check_alike, alike, quick=300),
]
