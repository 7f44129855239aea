"""Multiplication, division and powers combine units algebraically"""
from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is an operator (* / // ** and in-place forms) with quantities over
the whole registry, bare units, numbers, numpy scalars, lists and arrays on either
side, including exponents which have to be rejected and in-place changes of views.
Oracle: the numpy operation on the magnitudes, the exponent algebra of the reference
model, and agreement with the same arithmetic in SI base units. Non-trivial: data are
not empty and a unit is involved on at least one side (for rejections: the operation
must raise)."""

NUMERIC = {'*': np.multiply, '/': np.true_divide, '//': np.floor_divide}


@st.composite
def operand(draw, shape, dtypes=gen.ANY, plain=3):
    k = draw(st.integers(0, 9))
    if k < plain:
        return {'p': draw(gen.plain(shape=shape, dtypes=dtypes))}
    if k == 9:
        return {'unit': draw(gen.unit_name)}
    return draw(gen.quantity(shape=shape, dtypes=dtypes))


def build(s):
    """(object, magnitude, expression or None)"""
    if 'p' in s:
        p = plain(s['p'])
        # a Python number adapts to the precision of the other operand
        return p, p if s['p']['k'] == 'number' else arr(s['p']['a']), None
    return qty(s), q_arr(s), q_expr(s)


def combined(op, ea, eb):
    return times(ea or [], eb or [], 1 if op == '*' else -1)


@st.composite
def binary(draw):
    op = draw(st.sampled_from(['*', '*', '/', '/', '//']))
    kinds = gen.REALS if op == '//' else gen.ANY
    sa, sb = draw(st.sampled_from(gen.SHAPE_PAIRS))
    a, b = draw(operand(sa, kinds)), draw(operand(sb, kinds))
    if 'p' in a and 'p' in b:
        b = draw(gen.quantity(shape=sb, dtypes=kinds, bare_units=True))
    if draw(st.integers(0, 3)) == 0 and 'a' in a and 'a' in b:
        # make units cancel
        b['u'] = [[n, draw(st.sampled_from([e, -e, e / 2, e + 2.0 ** -9, 2.0 ** -9 - e]))] for n, e in a['u']]
    return {'op': op, 'a': a, 'b': b}


def check_binary(s, ev):
    op = s['op']
    (qa, a, ea), (qb, b, eb) = build(s['a']), build(s['b'])
    r = OPS[op](qa, qb)
    if type(r) is not Quantity:
        fail('type', type(r))
    e = combined(op, ea, eb)
    want_unit(r, e, op)
    with np.errstate(all='ignore'):
        exp = NUMERIC[op](a, b)
    want(mag(r), exp, tol(exp.dtype), what=op)
    if r.size and r.dtype.kind != exp.dtype.kind:
        fail('dtype', r.dtype, 'instead of', exp.dtype)
    # the same in SI base units
    fa, fb = si_factor(ea or []), si_factor(eb or [])
    narrow = {'f4', 'c8'} & {np.asarray(x).dtype.str[1:] for x in (a, b, exp)}
    if op != '//' and not narrow \
            and 1e-100 < fa < 1e100 and 1e-100 < fb < 1e100 \
            and np.all(np.isfinite(exp)):
        si = r.simplified
        with np.errstate(all='ignore'):
            want(mag(si), NUMERIC[op](a * fa, b * fb), 1e-10, what='in SI units')
        x = qa.simplified if ea is not None else qa
        y = qb.simplified if eb is not None else qb
        if ea is not None or eb is not None:
            w = OPS[op](x, y)
            want(mag(w), mag(si), 1e-10, what='simplified operands')
            if unit_of(w) != unit_of(si):
                fail('simplified operands give', unit_of(w), 'not', unit_of(si))
    ev.tag(op, 'L:' + kind(s['a']), 'R:' + kind(s['b']),
           'cancels' if len(e) < len(merge((ea or []) + (eb or []))) else '')
    ev.nt(r.size and (ea or eb))


def kind(s):
    return s['p']['k'] if 'p' in s else 'unit' if 'unit' in s else 'quantity'


@st.composite
def chain(draw):
    """identities of the algebra"""
    sa, sb = draw(st.sampled_from(gen.SHAPE_PAIRS))
    return {
        'a': draw(gen.quantity(shape=sa, dtypes=['f8'], values=gen.positive, specials=False)),
        'b': draw(gen.quantity(shape=sb, dtypes=['f8'], values=gen.positive, specials=False,
                               bare_units=True)),
        'p': draw(st.sampled_from([2, 4, 0.5, 0.25, -1, -2, -0.5])),
    }


def check_chain(s, ev):
    qa, qb, p = qty(s['a']), qty(s['b']), s['p']
    a, b, ea, eb = arr(s['a']['a']), q_arr(s['b']), s['a']['u'], q_expr(s['b'])
    full = np.broadcast_to(a, np.broadcast_shapes(a.shape, b.shape))
    r = (qa * qb) / qb
    want_unit(r, ea, '(a*b)/b')
    want(mag(r), full, 1e-11, what='(a*b)/b')
    r = qa / (1 / qb)
    want_unit(r, times(ea, eb), 'a/(1/b)')
    want(mag(r), mag(qa * qb), 1e-11, what='a/(1/b)')
    r = (qa ** p) ** (1 / p)
    want_unit(r, ea, '(a**p)**(1/p)')
    want(mag(r), a, 1e-9, what='(a**p)**(1/p)')
    r = (qa * qb) ** p
    want_unit(r, power(times(ea, eb), p), '(a*b)**p')
    l = qa ** p * qb ** p
    want_unit(l, power(times(ea, eb), p), 'a**p * b**p')
    want(mag(r), mag(l), 1e-9, what='(a*b)**p')
    r = qa / qa
    want_unit(r, [], 'a/a')
    want(mag(r), np.ones(a.shape), 1e-12)
    ev.nt(full.size and ea and eb)
    ev.tag('p=%s' % p)


EXPONENTS = [0, 1, 2, 3, -1, -2, 0.5, 1.5, -0.5, 0.25, 2.0, 10, 1.0, 0.0, -1.0, 9.5,
             -8.5, 12.25, 3.75, 0.0625]


@st.composite
def powers(draw):
    p = draw(st.sampled_from(EXPONENTS))
    form = draw(st.sampled_from(
        ['number', 'number', 'npscalar', 'array0', 'array1', 'uniform', 'list',
         'quantity', 'quniform', 'npint', 'u1', 'u1array']))
    if draw(st.integers(0, 7)) == 0:
        q = {'unit': draw(gen.unit_name)}
    else:
        q = draw(gen.quantity(
            shape=draw(st.sampled_from([(), (1,), (3,), (2, 3), (0,)])),
            dtypes=['f8', 'f8', 'f4', 'i8', 'c16'], nonzero=p < 0))
    return {'q': q, 'p': p, 'form': form, 'inplace': draw(st.integers(0, 4)) == 0}


def exponent(p, form, shape):
    last = shape[-1:] if shape and shape[-1] else (2,) if not shape else (1,)
    return {
        'number': lambda: p, 'npscalar': lambda: np.float64(p),
        'npint': lambda: np.int64(p) if float(p).is_integer() else p,
        'u1': lambda: small(p), 'u1array': lambda: np.full(last, small(p)),
        'array0': lambda: np.array(p), 'array1': lambda: np.array([p]),
        'uniform': lambda: np.full(last, p), 'list': lambda: [p] * last[0],
        'quantity': lambda: Quantity(p), 'quniform': lambda: Quantity(np.full(last, p)),
    }[form]()


def small(p):
    """the exponent as a type of which further arithmetic would wrap around"""
    if float(p).is_integer():
        return np.uint8(p) if p >= 0 else np.int8(p)
    return np.float16(p)


def check_powers(s, ev):
    q, a, e = qty(s['q']), q_arr(s['q']), q_expr(s['q'])
    p = exponent(s['p'], s['form'], a.shape)
    pa = np.asarray(p)
    try:
        with np.errstate(all='ignore'):
            exp = np.power(a, pa)
    except ValueError:      # integers to negative powers
        return
    if s['inplace'] and 'unit' not in s['q']:
        if pa.size != 1 or exp.shape != a.shape or \
                not np.can_cast(exp.dtype, a.dtype, 'same_kind'):
            return
        r = q
        r **= p
        if r is not q:
            fail('not in place')
        ev.tag('in place')
    else:
        r = q ** p
    if type(r) is not Quantity:
        fail('type', type(r))
    want_unit(r, power(e, s['p']), '**')
    with np.errstate(all='ignore'):
        exp = exp.astype(r.dtype)
    want(mag(r), exp, max(tol(exp.dtype), tol(a.dtype)), what='** %s' % (p,))
    # the unit of the result takes part in further arithmetic
    want_unit(1.0 / r, power(e, -s['p']), '1 / **')
    want_unit(r * r, power(e, 2 * s['p']), '** * **')
    ev.tag(s['form'], 'p=%s' % s['p'], 'unit' if 'unit' in s['q'] else a.dtype.str[1:])
    ev.nt(r.size and e)


@st.composite
def bad_power(draw):
    k = draw(st.sampled_from(['units', 'units', 'nonuniform', 'nonuniform', 'reflected']))
    s = {'k': k, 'q': draw(gen.quantity(
        units=gen.expr(min_units=1), bare_units=k != 'nonuniform',
        shape=draw(st.sampled_from([(), (2,), (3,), (2, 3)])), dtypes=['f8', 'i8'],
        specials=False)), 'inplace': draw(st.booleans())}
    if k == 'units':
        s['p'] = draw(gen.quantity(
            shape=draw(st.sampled_from([(), (), (1,)])), dtypes=['f8'], bare_units=True,
            units=st.one_of(gen.expr(min_units=1),
                            st.sampled_from([[['percent', 1]], [['radian', 1]]])),
            values=st.sampled_from([0.0, 1.0, 2.0, 3.0]), specials=False))
    elif k == 'nonuniform':
        n = draw(st.integers(2, 4))
        few = st.sampled_from(draw(st.sampled_from(
            [[0, 1, 2, 3, 0.5, -1], [1, 2], [2, 3], [0, 1], [1, 2, 3], [-1, 1], [0.5, 2],
             [2, 2 + 1e-9], [2, 2 + 1e-6], [1, 1 + 2.0 ** -52], [0, 1e-12], [0.5, 0.5 + 1e-4],
             [-1, -1.001]])))
        p = draw(st.lists(few, min_size=n, max_size=n).filter(lambda x: len(set(x)) > 1))
        s['via'] = draw(st.sampled_from(['op', 'op', 'numpy', 'out']))
        s['p'] = p
        s['form'] = draw(st.sampled_from(['list', 'array', 'quantity']))
        s['q']['a']['s'] = [n] if draw(st.booleans()) else []
        s['q']['a'].pop('l', None)
        s['q']['a']['d'] = (s['q']['a']['d'] * n)[:n if s['q']['a']['s'] else 1]
    else:
        s['p'] = draw(gen.plain(shape=(), dtypes=['f8', 'i8'], specials=False,
                                values=gen.positive))
    return s


def check_bad_power(s, ev):
    q = qty(s['q'])
    e = q_expr(s['q'])
    if not merge(e):
        return
    before = snap(q)
    if s['k'] == 'reflected':
        must_raise('number ** %r' % (q,), OPS['**'], plain(s['p']), q)
    else:
        if s['k'] == 'units':
            if not merge(q_expr(s['p'])):
                return
            p = qty(s['p'])
        else:
            p = {'list': list, 'array': np.array,
                 'quantity': lambda x: Quantity(np.array(x, 'f8'))}[s['form']](s['p'])
        must_raise('%r ** %r' % (q, p), OPS['**'], q, p)
        if s.get('via') == 'numpy':
            must_raise('np.power(%r, %r)' % (q, p), np.power, q, p)
            must_raise('np.float_power(%r, %r)' % (q, p), np.float_power, q, p)
        elif s.get('via') == 'out':
            out = Quantity(np.zeros(np.broadcast_shapes(q.shape, np.shape(p))), q.units)
            must_raise('np.power(%r, %r, out)' % (q, p), np.power, q, p, out=out)
        if s['inplace']:
            must_raise('%r **= %r' % (q, p), OPS['**='], q, p)
    if snap(q) != before:
        fail('a rejected power changed the quantity')
    ev.tag(s['k'])
    ev.nt()


@st.composite
def inplace(draw):
    op = draw(st.sampled_from(['*=', '*=', '/=', '/=', '//=', '**=']))
    kinds = gen.REALS if op in ('//=', '**=') else gen.ANY
    sa, sb = draw(st.sampled_from(gen.INTO_PAIRS + [((3,), (2, 3)), ((2,), (3,))]))
    s = {'op': op, 'a': draw(gen.quantity(shape=sa, dtypes=kinds)),
         'view': draw(st.sampled_from([None, None, 'all', 'part', 'reshape', 'element', 'row'])),
         'own': draw(st.sampled_from(['new', 'product', 'copy', 'rescaled']))}
    if op == '**=':
        s['b'] = {'p': {'a': {'t': 'f8', 's': [], 'd': [draw(st.sampled_from(
            [1, 1, 2, 2, 0, 0.5, 3]))]}, 'k': draw(st.sampled_from(['number', 'npscalar', 'array']))}}
        if draw(st.integers(0, 3)) == 0:
            # one number, or several equal ones, in an array
            n = draw(st.sampled_from([1, sa[-1]] if sa and sa[-1] else [1]))
            s['b']['p']['a']['s'] = [n]
            s['b']['p']['a']['d'] *= n
            s['b']['p']['k'] = draw(st.sampled_from(['array', 'list']))
    else:
        s['b'] = draw(operand(sb, kinds, plain=4))
    return s


def owner(s):
    q = qty(s['a'])
    if s['own'] == 'product':
        p = arr(s['a']['a']) * unit_quantity(s['a']['u'])
        return p if p.dtype == q.dtype else q
    if s['own'] == 'copy':
        return q.copy()
    if s['own'] == 'rescaled':
        return q.rescale(dimensionality(s['a']['u']))
    return q


def check_inplace(s, ev):
    op = s['op']
    q = owner(s)
    a = arr(s['a']['a'])
    e = s['a']['u']
    qb, b, eb = build(s['b'])
    p = np.asarray(b).flat[0] if op == '**=' else None
    if op == '**=' and isinstance(qb, float) and qb.is_integer():
        qb = int(qb)
    base = None
    pick = {'all': lambda x: x[...], 'part': lambda x: x[:1],
            'reshape': lambda x: x.reshape(x.shape),
            'element': lambda x: x[(0,) * x.ndim + (Ellipsis,)],
            'row': lambda x: x[-1, ...]}.get(s['view'])
    if pick and q.ndim and (q.size or s['view'] in ('all', 'reshape')):
        base = q
        q, a = pick(base), pick(a)
        if not isinstance(q, Quantity):
            fail('a view is a', type(q))
    if op == '**=' and not np.all(np.isfinite(a)):
        return      # the square root of -inf depends on the function used
    target = q
    before = snap(q)
    whole = None if base is None else snap(base)
    changes = (merge(eb or []) if op != '**=' else merge(e) and p != 1)
    try:
        with np.errstate(all='ignore'):
            if op == '**=':
                exp = np.power(a, b if a.dtype.kind == 'f' else np.asarray(qb))
            else:
                exp = NUMERIC[op[:-1]](a, b)
    except ValueError:
        exp = None
    fits = exp is not None and exp.shape == a.shape and \
        np.can_cast(exp.dtype, a.dtype, 'same_kind')
    err = None
    try:
        q = OPS[op](q, qb)
    except Exception as x:
        err = x
    if err is not None:
        if snap(target) != before or (base is not None and snap(base) != whole):
            fail('a rejected', op, 'changed the target')
        refused = base is not None and (changes or (op == '**=' and p != 1)) or \
            (op == '**=' and np.size(b) > 1)
        if fits and not refused:
            fail(op, 'raised', repr(err))
        ev.tag('rejected', 'view' if base is not None else 'own')
        ev.nt(changes)
        return
    if base is not None and changes:
        fail(op, 'changed the unit of a view:', repr(q))
    if not fits:
        # acceptable only with the right value
        if exp is None or exp.shape != q.shape:
            fail(op, 'gave', repr(q))
    if fits and q is not target:
        fail('not in place')
    want_unit(q, power(e, float(p)) if op == '**=' else combined(op[:-1], e, eb), op)
    t = tol(a.dtype) if fits else 1e-9
    with np.errstate(all='ignore'):
        # where it does not fit, the exact result, not what is left of it
        want(mag(q), exp.astype(q.dtype) if fits else exp, t, what=op)
    if base is not None:
        want_unit(base, e, 'the owner')
        v = pick(mag(base))
        same_exact(v, mag(q), 'data of the owner')
    ev.tag(op, 'view' if base is not None else 'own', kind(s['b']))
    ev.nt(q.size and merge(e))


SUBS = [
    Sub('binary', check_binary, binary, quick=2400),
    Sub('chain', check_chain, chain, quick=900),
    Sub('powers', check_powers, powers, quick=1200),
    Sub('bad-power', check_bad_power, bad_power, quick=900),
    Sub('inplace', check_inplace, inplace, quick=1800),
]
