"""NumPy universal functions follow dimensional rules"""
from hypothesis import strategies as st

from . import gen
from .core import KnownFinding, Sub
from .lib import *

RULE = """A case applies a ufunc (all those of numpy, the ones with dimensional rules
more often) to quantities over the registry, bare units, numbers and arrays in every
position, with and without an output quantity. Oracle: a table of rules written down
here: plain numpy on the magnitudes plus the expected unit, or 'must raise'; where a
conversion could be made (compatible but different units, percent for a pure number)
raising and the physically correct result are both accepted. Non-trivial: the data
are not empty and an operand has a unit."""

ANGLE = {'sin', 'cos', 'tan'}
HYPER = {'sinh', 'cosh', 'tanh'}
ARC = {'arcsin', 'arccos', 'arctan'}
ARCH = {'arcsinh', 'arccosh', 'arctanh'}
PURE1 = {'log', 'log10', 'log2', 'log1p', 'exp', 'exp2', 'expm1'}
KEEP = {'fabs', 'absolute', 'conjugate', 'negative', 'rint', 'floor', 'ceil'}
KEEP_OPT = {'positive', 'trunc', 'spacing'}        # not supported today
NOUNIT_OPT = {'sign', 'signbit', 'logical_not'}
IS = {'isnan', 'isinf', 'isfinite'}
ADDLIKE = {'add', 'subtract', 'maximum', 'minimum', 'hypot', 'mod', 'fmod', 'remainder'}
ADDLIKE_OPT = {'fmax', 'fmin', 'nextafter'}
COMPARE = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'}
LOGICAL = {'logical_and', 'logical_or', 'logical_xor'}
REMAINDER = {'mod', 'fmod', 'remainder'}

MAIN1 = sorted(KEEP | IS | PURE1 | ANGLE | HYPER | ARC | ARCH |
               {'square', 'sqrt', 'reciprocal', 'degrees', 'radians'})
MAIN2 = sorted((ADDLIKE | COMPARE | {'multiply', 'divide', 'true_divide', 'floor_divide',
                                     'arctan2', 'power', 'logaddexp', 'logaddexp2'})
               - {'mod'})
OTHER1 = sorted({'cbrt', 'deg2rad', 'rad2deg', 'modf', 'frexp', 'invert'} | KEEP_OPT
                | NOUNIT_OPT)
OTHER2 = sorted(ADDLIKE_OPT | LOGICAL | {'divmod', 'float_power', 'copysign', 'heaviside',
                                         'matmul', 'ldexp', 'gcd', 'bitwise_and'})
if hasattr(np, 'vecdot'):
    OTHER2.append('vecdot')
# no rule at all: there is no dimensionally correct answer to accept
ONLY_RAISE = {'modf', 'frexp', 'invert', 'divmod', 'copysign', 'heaviside', 'matmul',
              'vecdot', 'ldexp', 'gcd', 'bitwise_and'}


class Rule:
    """What a call may do: the list of acceptable (values, unit) results, where the
    unit None stands for plain data, and whether raising is acceptable"""

    def __init__(self, may_raise=False):
        self.may_raise = may_raise
        self.accept = []

    def value(self, v, unit, scale=None, jumps=False):
        self.accept.append((v, unit, scale, jumps))
        return self


RAISE = Rule(True)


def pure(e):
    return not si_dims(e)


def bare_pure(e):
    return not merge(e)


def rule1(n, a, e):
    f = getattr(np, n)
    if n in IS:
        return Rule().value(f(a), None)
    if n in KEEP:
        return Rule().value(f(a), e)
    if n in KEEP_OPT:
        return Rule(True).value(f(a), e)
    if n in NOUNIT_OPT:
        return Rule(True).value(f(a), [])
    if n == 'square':
        return Rule().value(f(a), power(e, 2))
    if n == 'reciprocal':
        return Rule().value(f(a), power(e, -1))
    if n == 'sqrt':
        return Rule().value(f(a), power(e, 0.5))
    if n == 'cbrt':
        return Rule(True).value(f(a), power(e, 1 / 3))
    x = a * si_factor(e)        # as a pure number
    if n in PURE1:
        if bare_pure(e):
            return Rule().value(f(a), [])
        return Rule(True).value(f(x), []) if pure(e) else RAISE
    if n in ANGLE | HYPER:
        if merge(e) == {'radian': 1} or bare_pure(e):
            return Rule().value(f(a), [])
        return Rule(True).value(f(x), []) if pure(e) else RAISE
    if n in ARC | ARCH:
        r = Rule(not bare_pure(e))
        if pure(e):
            r.value(f(x), [['radian', 1]])
            if n in ARCH:
                r.value(f(x), [])
        return r
    if n in ('degrees', 'rad2deg'):
        r = Rule(n == 'rad2deg' or merge(e) != {'radian': 1})
        return r.value(np.degrees(x), [['arcdegree', 1]]) if pure(e) else r
    if n in ('radians', 'deg2rad'):
        r = Rule(n == 'deg2rad' or merge(e) != {'arcdegree': 1})
        return r.value(x, [['radian', 1]]) if pure(e) else r
    return RAISE


def both(a, b):
    x, y = np.broadcast_arrays(np.abs(a), np.abs(b))
    return np.fmax(np.where(np.isfinite(x), x, 0), np.where(np.isfinite(y), y, 0))


def rule2(n, a, ea, b, eb):
    """ea or eb is None for plain operands"""
    f = getattr(np, n)
    if n in ('multiply', 'divide', 'true_divide', 'floor_divide'):
        return Rule().value(f(a, b), times(ea or [], eb or [], 1 if n == 'multiply' else -1))
    if n in ADDLIKE | ADDLIKE_OPT | COMPARE | LOGICAL:
        opt = n in ADDLIKE_OPT | LOGICAL
        flat = n in COMPARE | LOGICAL
        if ea is not None and eb is not None:
            if n in LOGICAL:
                return Rule(True).value(f(a, b), [])
            if merge(ea) == merge(eb):
                return Rule(opt).value(f(a, b), [] if flat else ea)
            if not compatible(ea, eb):
                if n in ('equal', 'not_equal'):
                    return Rule(True).value(
                        np.full(np.broadcast(a, b).shape, n == 'not_equal'), [])
                return RAISE
            bb = b * ratio(eb, ea)
            r = Rule(True)
            if flat:
                near = np.abs(a - bb) <= 1e-9 * both(a, bb)
                return r if np.any(near) else r.value(f(a, bb), [])
            return r.value(f(a, bb), ea, both(a, bb), n in REMAINDER)
        e = ea if ea is not None else eb
        p = b if ea is not None else a
        if n in LOGICAL:
            return Rule(True).value(f(a, b), [])
        if bare_pure(e):
            return Rule(opt).value(f(a, b), [])
        r = Rule(True)
        if flat:
            return r.value(f(a, b), [])      # compared with the magnitude
        if not np.any(p):
            r.value(f(a, b), e)
        if pure(e):
            k = si_factor(e)
            x, y = (a, b / k) if ea is not None else (a / k, b)
            r.value(f(x, y), e, both(x, y), n in REMAINDER)
        return r
    if n in ('logaddexp', 'logaddexp2'):
        r = Rule(not (bare_pure(ea or []) and bare_pure(eb or [])))
        if pure(ea or []) and pure(eb or []):
            r.value(f(a * si_factor(ea or []), b * si_factor(eb or [])), [])
        return r
    if n == 'arctan2':
        if ea is not None and eb is not None:
            if not compatible(ea, eb):
                return RAISE
            r = Rule(merge(ea) != merge(eb))
            bb = b * ratio(eb, ea)
        else:
            e = ea if ea is not None else eb
            p = b if ea is not None else a
            if not pure(e) and np.any(p):
                return RAISE
            r = Rule(not bare_pure(e))
            if pure(e):
                a, bb = a * si_factor(ea or []), b * si_factor(eb or [])
            else:
                bb = b
        return r.value(f(a, bb), []).value(f(a, bb), [['radian', 1]])
    if n in ('power', 'float_power'):
        if eb is not None and merge(eb):
            if not pure(eb):
                return RAISE
            b = b * si_factor(eb)
            r = Rule(True)
        else:
            r = Rule(n == 'float_power' or b.ndim > 0 or eb is not None and ea is None)
        if b.size == 0:
            return RAISE
        if merge(ea or []):
            if not np.all(b == b.flat[0]):
                return RAISE
            return r.value(f(a, b), power(ea, float(b.flat[0])))
        if not np.all(b == b.flat[0]):
            r = Rule(True)
        return r.value(f(a, b), [])
    return RAISE


def judge(what, r, rule):
    """does the result match one of the acceptable ones?"""
    why = []
    for exp, e, scale, jumps in rule.accept:
        exp = np.asarray(exp)
        try:
            if isinstance(r, Quantity):
                want_unit(r, e or [], what)
            elif e is None or not e:
                plain_data(r, what)
            else:
                fail(what, 'lost the unit', e)
            got = mag(r)
            t = max(tol(exp.dtype), tol(got.dtype))
            if exp.dtype.kind == 'b' and got.dtype.kind != 'b':
                fail(what, 'gives', got.dtype, 'instead of bool')
            if scale is None:
                want(got, exp, t, what=what)
            else:
                if got.shape != exp.shape:
                    fail(what, 'shape', got.shape)
                d = np.abs(got - exp)
                ok = (d <= 1e-9 * scale) | (got == exp) | (np.isnan(got) & np.isnan(exp))
                if not np.all(ok) and not jumps:
                    fail(what, 'got', repr(got), 'expected', repr(exp))
            return
        except Fail as x:
            why.append(str(x))
    if not rule.accept:
        fail(what, 'returned', repr(r), 'instead of raising an error')
    fail(why[0])


PURES = [[], [], [['radian', 1]], [['radian', 1]], [['percent', 1]], [['arcdegree', 1]],
         [['meter', 1], ['kilometer', -1]], [['turn', 1]]]


@st.composite
def unit_for(draw, n):
    angular = n in (ANGLE | HYPER | ARC | ARCH | PURE1 |
                    {'degrees', 'radians', 'rad2deg', 'deg2rad', 'logaddexp', 'logaddexp2'})
    if draw(st.integers(0, 9)) < (7 if angular else 1):
        return draw(st.sampled_from(PURES))
    return draw(gen.expr())


@st.composite
def unary(draw):
    n = draw(st.sampled_from(MAIN1 * 4 + OTHER1))
    kinds = ['f8', 'f8', 'f8', 'f4', 'i8'] if n not in ('conjugate', 'square', 'negative',
                                                        'absolute', 'exp', 'sqrt') else gen.ANY
    if draw(st.integers(0, 9)) == 0:
        q = {'unit': draw(st.one_of(gen.unit_name, st.sampled_from(
            ['radian', 'arcdegree', 'dimensionless', 'percent'])))}
    else:
        q = draw(gen.quantity(units=unit_for(n), dtypes=kinds,
                              values=gen.positive if draw(st.booleans()) else None))
    return {'f': n, 'q': q, 'out': draw(out_spec())}


@st.composite
def out_spec(draw):
    return draw(gen.expr()) if draw(st.integers(0, 3)) == 0 else None


def call(n, args, out_expr):
    """(result, the output array or None); numpy decides dtype and shape of out"""
    f = getattr(np, n)
    if out_expr is None or n in ONLY_RAISE:
        return f(*args), None
    raw = [np.asarray(mag(x)) for x in args]
    ref = f(*raw)
    out = Quantity(np.zeros(np.shape(ref), np.asarray(ref).dtype), dimensionality(out_expr))
    return f(*args, out=out), out


def run_case(s, args, mags, rule, ev):
    n = s['f']
    if s['out'] == 'plain':
        return into_plain(n, args, mags, rule, ev)
    try:
        with np.errstate(all='ignore'):
            getattr(np, n)(*mags)
    except Exception:
        return              # numpy itself cannot do this
    what = 'np.%s' % n
    try:
        with np.errstate(all='ignore'):
            r, out = call(n, args, s['out'])
    except Exception as x:
        if not rule.may_raise:
            fail(what, 'of', args, 'raised', repr(x))
        ev.tag(n, 'raises')
        return
    if out is not None and r is not out:
        fail(what, 'did not return the output array')
    judge(what, r, rule)
    ev.tag(n, 'out' if out is not None else 'value')


def check_unary(s, ev):
    q, a, e = qty(s['q']), q_arr(s['q']), q_expr(s['q'])
    if a.dtype.itemsize <= 4 and not 1e-20 < si_factor(e) < 1e20:
        return
    with np.errstate(all='ignore'):
        try:
            rule = RAISE if s['f'] in ONLY_RAISE else rule1(s['f'], a, e)
        except TypeError:
            return          # numpy cannot do this at all
    run_case(s, [q], [a], rule, ev)
    ev.nt(a.size and merge(e))


@st.composite
def binary(draw):
    n = draw(st.sampled_from(MAIN2 * 4 + OTHER2))
    kinds = ['f8', 'f8', 'f8', 'i8']
    if n in ('multiply', 'divide', 'add', 'subtract', 'equal'):
        kinds = ['f8', 'f8', 'f8', 'i8', 'c16']
    sa, sb = draw(st.sampled_from([x for x in gen.SHAPE_PAIRS if 0 not in x[0] + x[1]]))
    u = draw(unit_for(n))
    rel = draw(st.sampled_from(['same', 'same', 'compatible', 'other', 'plain', 'plain',
                                'zero', 'cancel', 'bare']))
    kw = dict(dtypes=kinds, specials=False)
    qa = {'a': draw(gen.array(shape=sa, **kw)), 'u': u}
    if n in ('power', 'float_power'):
        qa = {'a': draw(gen.array(shape=sa, dtypes=['f8'], values=gen.positive,
                                  specials=False)), 'u': u}
        p = draw(st.sampled_from([0, 1, 2, -1, 0.5, 3, -2, 1.5]))
        d = [p] * gen.prod(sb)
        if d and draw(st.integers(0, 3)) == 0:
            d[-1] = p + 1
        b = {'t': 'f8', 's': list(sb), 'd': d}
        rel = draw(st.sampled_from(['plain', 'plain', 'plain', 'pure', 'other', 'swap']))
        if rel == 'plain':
            qb = {'p': {'a': b, 'k': draw(st.sampled_from(['array', 'list'] if sb else
                                                          ['number', 'npscalar']))}}
        elif rel == 'pure':
            qb = {'a': b, 'u': []}
        elif rel == 'other':
            qb = {'a': b, 'u': draw(unit_for('exp'))}
        else:
            qb = {'a': b, 'u': draw(unit_for('exp'))}
            qa = {'p': {'a': qa['a'], 'k': 'array'}}
        return {'f': n, 'a': qa, 'b': qb, 'out': draw(out_spec())}
    if rel == 'bare':
        qb = {'unit': draw(gen.unit_name)}
    elif rel in ('plain', 'zero', 'cancel'):
        qb = {'p': draw(gen.plain(shape=sb, **kw))}
        if rel == 'cancel':
            # not zero, though the sum is
            if qb['p']['a']['t'] == 'c16':
                qb['p']['a']['t'] = 'f8'
            d = qb['p']['a']['d']
            x = draw(st.sampled_from([1, 1, 2.5, -3]))
            x = int(x) if qb['p']['a']['t'][0] in 'iu' else x
            d[:] = [0] * len(d)
            if len(d) > 1 and qb['p']['a']['t'][0] not in 'u':
                d[0], d[-1] = x, -x
        if rel == 'zero':
            qb['p']['a']['d'] = [0] * len(qb['p']['a']['d'])
            qb['p']['a']['t'] = 'f8'
    else:
        eb = {'same': lambda: u, 'compatible': lambda: draw(gen.compatible_expr(u)),
              'other': lambda: draw(gen.incompatible_expr(u))}[rel]()
        qb = {'a': draw(gen.array(shape=sb, **kw)), 'u': eb}
    if draw(st.booleans()):
        qa, qb = qb, qa
    return {'f': n, 'a': qa, 'b': qb, 'out': draw(out_spec())}


def operand(s):
    if 'p' in s:
        return plain(s['p']), arr(s['p']['a']), None
    return qty(s), q_arr(s), q_expr(s)


def check_binary(s, ev):
    n = s['f']
    (qa, a, ea), (qb, b, eb) = operand(s['a']), operand(s['b'])
    if any(not 1e-100 < si_factor(e) < 1e100 for e in (ea or [], eb or [])):
        return
    with np.errstate(all='ignore'):
        try:
            rule = RAISE if n in ONLY_RAISE else rule2(n, a, ea, b, eb)
        except (TypeError, ValueError):
            return          # numpy cannot do this at all
    run_case(s, [qa, qb], [a, b], rule, ev)
    ev.nt(a.size and b.size and (ea or eb))


def plain_out(case):
    return case.map(lambda s: dict(s, out='plain'))


def into_plain(n, args, mags, rule, ev):
    """an output array which cannot hold a unit: raising is always fine, and so is the right result
    where it has no unit"""
    f = getattr(np, n)
    what = 'np.%s with a plain output array' % n
    with np.errstate(all='ignore'):
        try:
            ref = f(*mags)
            if isinstance(ref, tuple):
                return
            out = np.zeros(np.shape(ref), np.asarray(ref).dtype)
        except Exception:
            return          # numpy itself cannot do this
        try:
            r = f(*args, out=out)
        except Exception:
            ev.tag('raises')
            return
    ok = [x for x in rule.accept if not merge(x[1] or [])]
    if ok:
        good = Rule()
        good.accept = ok
        try:
            judge(what, r, good)
            ev.tag('right')
            return
        except Fail:
            pass
    # numpy 2 does not tell the library about outputs which are no quantities
    if r is out and type(r) is np.ndarray and equal(r, ref, tol(r.dtype)):
        raise KnownFinding('plain output array')
    judge(what, r, rule)


SUBS = [
    Sub('unary', check_unary, unary, quick=4500),
    Sub('binary', check_binary, binary, quick=6000),
    Sub('unary, plain output', check_unary, lambda: plain_out(unary()), quick=600),
    Sub('binary, plain output', check_binary, lambda: plain_out(binary()), quick=600),
]
