"""Uncertainties propagate to first order and stay non-negative"""
from hypothesis import strategies as st

from . import gen
from .core import KnownFinding, Sub
from .lib import *

RULE = """A case is an operation between uncertain quantities, or an uncertain quantity and
an exact operand (quantity, unit, number, numpy scalar, array, list) on either side, plain
or in place, with broadcasting, zero and negative values, zero uncertainties and mixed
units; a power with an exact exponent; or a chain of up to eight operations, unit changes
and selections in which every input is used once. Oracle: the first-order formula for
independent inputs on plain arrays with units converted by the reference table.
Non-trivial: some input has a non-zero uncertainty."""

ASSUMPTIONS = ['inputs have non-negative uncertainties', 'values between 1e-6 and 1e6 or zero']

VALUE = st.one_of(
    st.integers(-9, 9).map(float), st.integers(-9, 9).map(float),
    st.integers(-99999, 99999).map(lambda i: i / 100),
    st.floats(-1e5, 1e5, allow_nan=False, width=32).map(lambda x: x if abs(x) > 1e-5 else 0.0))
SIGMA = st.one_of(
    st.sampled_from([0.0, 0.1, 0.5, 1.0, 2.0, 0.01]), st.integers(0, 999).map(lambda i: i / 100),
    st.floats(0, 100, width=32).map(lambda x: x if x > 1e-4 else 0.0))


@st.composite
def uncertain(draw, shape, units=None):
    n = gen.prod(shape)
    return {'k': 'uq', 's': list(shape), 'd': draw(st.lists(VALUE, min_size=n, max_size=n)),
            'r': draw(st.lists(SIGMA, min_size=n, max_size=n)),
            'u': draw(units if units is not None else gen.expr())}


@st.composite
def exact(draw, shape, units=None, numbers=True, scalars=True):
    kinds = ['quantity', 'quantity', 'quantity']
    if numbers:
        kinds += ['list', 'array'] if shape else ['number', 'number', 'array'] + \
            (['npscalar'] if scalars else [])
    if not shape:
        kinds.append('unit')
    k = draw(st.sampled_from(kinds))
    n = gen.prod(shape)
    s = {'k': k, 's': list(shape), 'd': draw(st.lists(VALUE, min_size=n, max_size=n)), 'u': []}
    if k == 'unit':
        s['u'] = draw(units if units is not None else gen.expr(max_units=1))
        s['d'] = [1.0]
    elif k == 'quantity':
        s['u'] = draw(units if units is not None else gen.expr())
        s['t'] = draw(st.sampled_from(['f8', 'f8', 'i8']))
    elif draw(st.booleans()):
        s['t'] = 'i8'
    if s.get('t') == 'i8':
        s['d'] = [float(int(x)) for x in s['d']]
    return s


def make(s):
    a = np.array(s['d'], dtype=s.get('t', 'f8')).reshape(s['s'])
    k = s['k']
    if k == 'uq':
        return UQ(a, dimensionality(s['u']), np.array(s['r']).reshape(s['s']))
    if k == 'quantity':
        return Quantity(a, dimensionality(s['u']))
    if k == 'unit':
        return unit(s['u'][0][0]) if len(s['u']) == 1 and s['u'][0][1] == 1 \
            else Quantity(1.0, dimensionality(s['u'])).units
    if k == 'list':
        return a.tolist()
    if k == 'number':
        return a.item()
    if k == 'npscalar':
        return a[()]
    return a


def model(s):
    """value, sigma, unit"""
    a = np.array(s['d'], dtype='f8').reshape(s['s'])
    r = np.array(s['r']).reshape(s['s']) if s['k'] == 'uq' else np.zeros(s['s'])
    return a, r, merge(s['u'])


def apply(op, x, y, exact=(False, False)):
    """First-order propagation for independent inputs; exact ones contribute nothing"""
    (a, r, u), (b, t, v) = x, y

    def both(p, q):
        p = np.where(exact[0], 0.0, p)
        q = np.where(exact[1], 0.0, q)
        return np.hypot(p, q)

    with np.errstate(all='ignore'):
        if op in '+-':
            f = ratio(list(v.items()), list(u.items()))
            return (a + f * b if op == '+' else a - f * b), both(r, f * t), u
        if op == '*':
            return a * b, both(b * r, a * t), merge(times(u.items(), v.items()))
        return a / b, both(r / b, a * t / b ** 2), merge(times(u.items(), v.items(), -1))


def consistent(q, what):
    if type(q) is not UQ:
        fail(what, 'is a', type(q))
    r = q.uncertainty
    if type(r) is not Quantity:
        fail(what, 'uncertainty is a', type(r))
    if r.shape != q.shape:
        fail(what, 'uncertainty has the shape', r.shape, 'not', q.shape)
    if unit_of(r) != unit_of(q):
        fail(what, 'uncertainty has the unit', unit_of(r), 'not', unit_of(q))
    if (mag(r) < 0).any():
        fail(what, 'the uncertainty is negative:', r)


def compare(q, m, what, scale=0.0):
    consistent(q, what)
    a, r, u = m
    want_unit(q, list(u.items()), what)
    fin = np.isfinite(a)
    got, sig = mag(q), mag(q.uncertainty)
    if got.shape != a.shape:
        fail(what, 'shape', got.shape, 'instead of', a.shape)
    want(np.where(fin, got, 0), np.where(fin, a, 0), 1e-9, atol=scale, what=what + ' value')
    # the uncertainty is finite wherever the formula is
    fin = np.isfinite(r)
    want(np.where(fin, sig, 0), np.where(fin, r, 0), 1e-9, what=what + ' uncertainty')


def number_in(x, u):
    """a number is dimensionless, and sums with it have the unit of the quantity"""
    f = ratio([], list(u.items()))
    return x[0] * f, x[1] * f, u


def rounding(op, x, y):
    """an absolute tolerance for sums, where digits cancel"""
    if op not in '+-':
        return 0.0
    f = ratio(list(y[2].items()), list(x[2].items()))
    m = max([abs(v) for v in x[0].ravel()] + [abs(f * v) for v in y[0].ravel()] + [0.0],
            key=lambda v: v if np.isfinite(v) else -1)
    return 1e-11 * m


# --------------------------------------------------------------------------

@st.composite
def binary(draw):
    op = draw(st.sampled_from(['+', '-', '*', '/', '*', '/']))
    sa, sb = draw(st.sampled_from([p for p in gen.SHAPE_PAIRS if 0 not in p[0] + p[1]]))
    ua = draw(gen.expr())
    numbers = True
    ub = None
    if op in '+-':
        ub = gen.compatible_expr(ua)
        numbers = not merge(ua)
    which = draw(st.sampled_from(['both', 'left', 'right', 'right']))
    if which == 'both':
        a, b = draw(uncertain(sa, st.just(ua))), draw(uncertain(sb, ub))
    elif which == 'left':
        a, b = draw(uncertain(sa, st.just(ua))), draw(exact(sb, ub, numbers))
    else:
        # numpy scalars on the left: see the known findings
        a = draw(exact(sa, st.just(ua), numbers, scalars=False))
        if op in '+-':
            ub = gen.compatible_expr(a['u'])
        b = draw(uncertain(sb, ub))
    return {'op': op, 'a': a, 'b': b, 'inplace': which != 'right' and draw(st.booleans())}


def check_binary(s, ev):
    op, x, y = s['op'], make(s['a']), make(s['b'])
    mx, my = model(s['a']), model(s['b'])
    if s['a']['k'] not in ('uq', 'quantity', 'unit') and op in '+-':
        mx = number_in(mx, my[2])
    exp = apply(op, mx, my, [s[k]['k'] != 'uq' for k in 'ab'])
    sc = rounding(op, mx, my)
    if s['inplace']:
        if exp[0].shape != mx[0].shape:
            return
        r = OPS[op + '='](x, y)
        if r is not x:
            fail(op + '=', 'is not in place')
        ev.tag('in place')
    else:
        r = OPS[op](x, y)
    compare(r, exp, '%s %s %s' % (s['a']['k'], op, s['b']['k']), sc)
    # the nominal value is that of plain quantities
    px = Quantity(make(s['a'])) if s['a']['k'] == 'uq' else make(s['a'])
    px = x_plain(s['a'])
    p = OPS[op](px, x_plain(s['b']))
    want_unit(r, list(unit_of(p).items()), 'nominal')
    if np.isfinite(mag(p)).all():
        want(mag(r), mag(p), 1e-12, atol=sc)
    ev.tag(op, s['a']['k'] + ' ' + s['b']['k'])
    ev.tag('negative' if (mx[0] < 0).any() or (my[0] < 0).any() else 'positive')
    ev.nt(mx[1].any() or my[1].any())


def x_plain(s):
    return make(dict(s, k='quantity')) if s['k'] == 'uq' else make(s)


@st.composite
def powers(draw):
    shape = draw(st.sampled_from([(), (1,), (3,), (2, 2)]))
    p = draw(st.sampled_from([0, 1, 2, 3, -1, -2, 0.5, -0.5, 1.5, 2.0, 0.0, 1.0, 4, -3]))
    s = draw(uncertain(shape))
    s['u'] = [x for x in s['u'] if abs(x[1] * p) < 20]
    if p % 1:
        s['d'] = [abs(x) for x in s['d']]
    return {'q': s, 'p': p, 'inplace': draw(st.booleans()),
            'form': draw(st.sampled_from(['number', 'number', 'npscalar', 'array', 'quantity', 'list']))}


def check_powers(s, ev):
    q, p = make(s['q']), s['p']
    a, r, u = model(s['q'])
    with np.errstate(all='ignore'):
        if p == 0:
            d = np.zeros_like(a)
        elif p == 1:
            d = np.ones_like(a)
        else:
            d = p * a ** (p - 1.0)
        exp = a ** float(p), np.abs(d) * r, merge(power(list(u.items()), p))
        sig = np.where(r == 0, np.where(np.isfinite(d), 0.0, np.nan), exp[1])
    x = {'number': p, 'npscalar': np.float64(p), 'array': np.array(p), 'quantity': Quantity(p),
         'list': [p] * (a.shape[-1] if a.ndim else 1)}[s['form']]
    if s['form'] == 'list' and (not a.ndim or s['inplace']):
        x = p
    if s['inplace']:
        k = q
        q **= x
        if q is not k:
            fail('**= is not in place')
        res = q
        ev.tag('in place')
    else:
        res = q ** x
    compare(res, (exp[0], sig, exp[2]), '** %r' % (p,))
    ev.tag('p=%s' % p, s['form'], *['zero' for x in a.ravel() if x == 0],
           *['negative' for x in a.ravel() if x < 0])
    ev.nt(r.any())


@st.composite
def unary(draw):
    shape = draw(st.sampled_from([(), (1,), (3,), (2, 2), (0,)]))
    return {'q': draw(uncertain(shape)), 'f': draw(st.sampled_from(['neg', 'negneg', 'square', 'sqrt', 'inv']))}


def check_unary(s, ev):
    q = make(s['q'])
    a, r, u = model(s['q'])
    f = s['f']
    with np.errstate(all='ignore'):
        if f == 'neg':
            res, exp = -q, (-a, r, u)
        elif f == 'negneg':
            res, exp = -(-q), (a, r, u)
        elif f == 'square':
            res, exp = q ** 2, (a ** 2, abs(2 * a) * r, merge(power(u.items(), 2)))
        elif f == 'sqrt':
            a = np.abs(a) + 1
            q = UQ(a, dimensionality(s['q']['u']), r)
            res, exp = q.sqrt(), (a ** 0.5, r / (2 * a ** 0.5), merge(power(u.items(), 0.5)))
        else:
            res, exp = 1.0 / q, (1 / a, r / a ** 2, merge(power(u.items(), -1)))
    compare(res, exp, f)
    ev.tag(f)
    ev.nt(r.any())


# --------------------------------------------------------------------------
# the physical result does not depend on the units of the inputs

@st.composite
def invariance(draw):
    op = draw(st.sampled_from(['+', '-', '*', '/', '**']))
    shape = draw(st.sampled_from([(), (2,), (2, 2)]))
    a = draw(uncertain(shape, gen.expr(min_units=1, max_units=2)))
    b = draw(st.one_of(uncertain(shape, gen.compatible_expr(a['u']) if op in '+-' else gen.expr(max_units=2)),
                       exact(shape, gen.compatible_expr(a['u']) if op in '+-' else gen.expr(max_units=2),
                             numbers=False)))
    return {'op': op, 'a': a, 'b': b, 'ua': draw(gen.compatible_expr(a['u'])),
            'ub': draw(gen.compatible_expr(b['u'])), 'p': draw(st.sampled_from([2, -1, 3])),
            'how': draw(st.sampled_from(['rescale', 'set', 'simplified']))}


def change(q, u, how):
    if isinstance(q, pq.UnitQuantity) or how == 'rescale':
        return q.rescale(dimensionality(u))
    if how == 'set':
        q = q.copy()
        q.units = dimensionality(u)
        return q
    return q.simplified


def check_invariance(s, ev):
    x, y = make(s['a']), make(s['b'])
    if isinstance(y, Quantity) and y.dtype.kind == 'i':
        y = y.astype('f8')
    x2, y2 = change(x, s['ua'], s['how']), change(y, s['ub'], s['how'])
    if s['op'] == '**':
        r, r2 = x ** s['p'], x2 ** s['p']
    else:
        r, r2 = OPS[s['op']](x, y), OPS[s['op']](x2, y2)
    consistent(r2, 'after a change of units')
    e1 = [[n, v] for n, v in unit_of(r).items()]
    e2 = [[n, v] for n, v in unit_of(r2).items()]
    f = ratio(e2, e1)
    if not 1e-200 < f < 1e200:
        return
    a, b = mag(r), mag(r2) * f
    sa, sb = mag(r.uncertainty), mag(r2.uncertainty) * f
    big = 0.0
    if s['op'] in '+-':
        big = 1e-9 * max([float(abs(v)) for v in mag(x).ravel()] +
                         [float(abs(v)) for v in mag(y.rescale(x.units)).ravel()])
    ok = np.isfinite(a) & np.isfinite(b)
    want(np.where(ok, b, 0), np.where(ok, a, 0), 1e-8, atol=big, what='value')
    ok = np.isfinite(sa) & np.isfinite(sb)
    want(np.where(ok, sb, 0), np.where(ok, sa, 0), 1e-8, what='uncertainty')
    ev.tag(s['op'], s['how'], s['b']['k'])
    ev.nt(np.asarray(s['a']['r']).any())


# --------------------------------------------------------------------------
# chains

@st.composite
def chain(draw):
    shape = draw(st.sampled_from([(), (2,), (3,), (2, 2)]))
    q = draw(uncertain(shape, gen.expr(min_units=0, max_units=2)))
    steps, u = [], merge(q['u'])
    for _ in range(draw(st.integers(2, 8))):
        o = draw(st.sampled_from(['+', '-', '*', '/', '+r', '-r', '*r', '/r', '**', 'neg', 'rescale',
                                  'set', 'simplified', 'index', 'copy', 'reshape', '+=', '-=', '*=', '/=']))
        st_ = {'o': o}
        if o[0] in '+-*/' and o != '**':
            sh = draw(st.sampled_from([shape, shape, ()]))
            same = gen.compatible_expr(list([n, x] for n, x in u.items())) if o[0] in '+-' else \
                gen.expr(min_units=0, max_units=1)
            st_['b'] = draw(st.one_of(uncertain(sh, same), exact(
                sh, same, numbers=o[0] in '*/' or not u, scalars=not o.endswith('r'))))
            v = merge(st_['b']['u'])
            if o[0] == '*':
                u = merge(times(u.items(), v.items()))
            elif o == '/r':
                u = merge(times(v.items(), u.items(), -1))
            elif o[0] == '/':
                u = merge(times(u.items(), v.items(), -1))
            elif o[-1] == 'r' and st_['b']['k'] in ('uq', 'quantity', 'unit'):
                u = v
        elif o == '**':
            st_['p'] = draw(st.sampled_from([2, -1, 1, 3]))
            if any(abs(x * st_['p']) > 6 for x in u.values()):
                continue
            u = merge(power(u.items(), st_['p']))
        elif o in ('rescale', 'set'):
            st_['u'] = draw(gen.compatible_expr([[n, x] for n, x in u.items()]))
            u = merge(st_['u'])
        elif o == 'simplified':
            u = {BASE_OF[k]: float(v) for k, v in si_dims(u.items()).items()}
        if any(abs(x) > 8 for x in u.values()) or len(u) > 5:
            break
        steps.append(st_)
    return {'q': q, 'steps': steps}


def check_chain(s, ev):
    q, m = make(s['q']), model(s['q'])
    noisy = m[1].any()
    for t in s['steps']:
        o = t['o']
        with np.errstate(all='ignore'):
            err = 0.0
            if 'b' in t:
                y, my = make(t['b']), model(t['b'])
                noisy = noisy or my[1].any()
                op = o[0]
                number = t['b']['k'] in ('number', 'npscalar', 'array', 'list')
                if o.endswith('r'):
                    if number and op in '+-':
                        my = number_in(my, m[2])
                    err = rounding(op, my, m)
                    m = apply(op, my, m)
                    q = OPS[op](y, q)
                elif o.endswith('='):
                    err = rounding(op, m, my)
                    m = apply(op, m, my)
                    if isinstance(q.base, Quantity):
                        q = q.copy()
                    q = OPS[o](q, y)
                else:
                    err = rounding(op, m, my)
                    m = apply(op, m, my)
                    q = OPS[op](q, y)
            elif o == '**':
                p = t['p']
                a, r, u = m
                m = a ** float(p), np.abs(p * a ** (p - 1.0)) * r, merge(power(u.items(), p))
                q = q ** p
            elif o == 'neg':
                m = -m[0], m[1], m[2]
                q = -q
            elif o in ('rescale', 'set', 'simplified'):
                u = merge(t['u']) if 'u' in t else {
                    BASE_OF[k]: float(v) for k, v in si_dims(m[2].items()).items()}
                f = ratio(m[2].items(), u.items())
                m = m[0] * f, m[1] * f, u
                if o == 'rescale':
                    q = q.rescale(dimensionality(t['u']))
                elif o == 'set':
                    q = q.copy()
                    q.units = dimensionality(t['u'])
                else:
                    q = q.simplified
            elif o == 'index':
                i = (Ellipsis,) if not m[0].ndim else (slice(None, None, -1),)
                m = m[0][i], m[1][i], m[2]
                q = q[i]
            elif o == 'reshape':
                m = m[0].T, m[1].T, m[2]
                q = q.T
            else:
                q = q.copy()
        big = np.abs(np.concatenate([m[0].ravel(), m[1].ravel()]))
        if not np.isfinite(big).all() or (big > 1e150).any() or \
                (big[big > 0] < 1e-150).any():
            return
        compare(q, m, 'after ' + o, err + 1e-12 * big[:m[0].size].max() if o[0] in '+-' else 0.0)
        # digits which cancel do not accumulate: go on from the actual values
        m = mag(q).copy(), mag(q.uncertainty).copy(), m[2]
    ev.tag(*[t['o'] for t in s['steps']])
    ev.nt(noisy and len(s['steps']) > 1)


@st.composite
def np_left(draw):
    op = draw(st.sampled_from(['+', '-', '*', '/']))
    return {'op': op, 'x': draw(VALUE), 'q': draw(uncertain(
        draw(st.sampled_from([(), (2,)])), gen.expr() if op in '*/' else st.just([]))),
        't': draw(st.sampled_from(['f8', 'f4', 'i8']))}


def check_np_left(s, ev):
    q = make(s['q'])
    x = np.dtype(s['t']).type(s['x'])
    m = apply(s['op'], (np.asarray(float(x)), np.zeros(()), {}), model(s['q']))
    with np.errstate(all='ignore'):
        r = OPS[s['op']](x, q)
    ev.nt(np.any(s['q']['r']))
    if type(r) is UQ and not mag(r.uncertainty).any():
        raise KnownFinding('numpy scalar on the left')
    compare(r, m, 'numpy scalar ' + s['op'], 1e-11 * abs(float(x)) + 1e-11 * np.abs(m[0]).max()
            if s['op'] in '+-' else 0.0)


@st.composite
def special(draw):
    s = draw(binary())
    for k in 'ab':
        x = s[k]
        if x['k'] != 'unit' and x.get('t', 'f8') == 'f8':
            for i in range(len(x['d'])):
                if draw(st.integers(0, 2)) == 0:
                    x['d'][i] = draw(st.sampled_from([float('inf'), float('-inf'), float('nan'), 0.0, 1e8]))
        for i in range(len(x.get('r', []))):
            if draw(st.integers(0, 3)) == 0:
                x['r'][i] = draw(st.sampled_from([1e-200, 1e200, 0.0]))
    return s


SUBS = [
    Sub('special', check_binary, special, quick=900),
    Sub('binary', check_binary, binary, quick=4500),
    Sub('powers', check_powers, powers, quick=1800),
    Sub('unary', check_unary, unary, quick=600),
    Sub('invariance', check_invariance, invariance, quick=1500),
    Sub('chain', check_chain, chain, quick=2100),
    Sub('numpy scalar left', check_np_left, np_left, quick=150),
]
