"""Operations never modify their operands and failures leave no trace"""
import copy
import pickle

from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is a pool of two to five operands (quantities of several dtypes and memory layouts,
views of each other, uncertain quantities, predefined, user-defined and compound units, constants,
dimension expressions, plain arrays and lists, read-only arrays) and a history of up to ten
operations drawn from about 250 (arithmetic, comparisons, ufuncs, methods, package functions,
conversions, formatting, construction, copies, the documented in-place forms, and rejected
definitions, registrations and selections of default units) applied to members of the pool, whether
they fit or not. Oracle: after each operation everything observable about every member (data, dtype,
unit, uncertainty, names) is as before, apart from the target of a successful in-place form and
what shares its memory; results own their memory and are then overwritten; the registry and the
selected defaults are as before. Non-trivial: an operation succeeded or was rejected on a member
with a unit."""

ASSUMPTIONS = ['views are: indexing, iteration, view, reshape, ravel, transpose, swapaxes, squeeze, diagonal, '
               'real, imag, magnitude, uncertainty (also that of like-shaped arrays), asarray and Quantity(q) without conversion, and rounding of '
               'integers and conjugation of real data (as in numpy)',
               'dot and inner do not support units or uncertainties',
               'an explicitly passed output array may have been written when the call fails']

SAMPLE = ['meter', 'kilogram', 'second', 'ampere', 'kelvin', 'degree', 'inch', 'newton', 'eV', 'percent', 'ml',
          'radian', 'dimensionless', 'cd', 'bit']


# --------------------------------------------------------------------------
# members of the pool

@st.composite
def member(draw, i):
    k = draw(st.sampled_from(['q', 'q', 'q', 'q', 'q', 'view', 'view', 'uq', 'uq', 'unit', 'compound', 'constant',
                              'user', 'dim', 'plain', 'list', 'number', 'readonly', 'like', 'like', 'angle'] if i
                             else ['q', 'q', 'q', 'uq', 'unit', 'angle']))
    s = {'k': k}
    shape = draw(st.sampled_from([(), (3,), (3,), (2, 3), (2, 3), (2, 2), (1,), (0,)]))
    if k in ('q', 'readonly', 'plain', 'list', 'number', 'like'):
        s['a'] = draw(gen.array(dtypes=['f8', 'f8', 'f8', 'f4', 'i8', 'c16'] if k == 'q' else ['f8', 'f8', 'i8'],
                                shape=() if k == 'number' else shape, specials=k == 'q'))
    if k in ('q', 'readonly', 'dim'):
        s['u'] = draw(gen.expr())
    if k == 'angle':
        s['k'] = 'q'
        s['u'] = [[draw(gen.angle_name), 1]]
        s['a'] = draw(gen.array(dtypes=['f8'], shape=shape, specials=False))
    if k == 'uq':
        s['u'] = draw(gen.expr())
        s['a'] = draw(gen.array(dtypes=['f8'], shape=shape, specials=False))
    if k in ('view', 'like'):
        s['of'] = draw(st.integers(0, i - 1)) if i else 0
        s['how'] = draw(st.integers(0, 4))
        s['c'] = draw(st.integers(0, 50))
    if k in ('unit', 'user'):
        s['n'] = draw(gen.unit_name)
    if k == 'compound':
        s['t'] = draw(st.sampled_from(['m/s', 'pc/cm**3', 'kg*m**2', 'm*%']))
    if k == 'constant':
        s['n'] = draw(st.sampled_from(['hbar', 'electron_mass', 'Boltzmann_constant', 'elementary_charge']))
    return s


def build(s, pool):
    k = s['k']
    if k in ('q', 'readonly'):
        a = arr(s['a'])
        q = Quantity(a, dimensionality(s['u']))
        if k == 'readonly':
            q.flags.writeable = False
        return q
    if k == 'uq':
        a = arr(s['a'])
        return UQ(a, dimensionality(s['u']), np.abs(a) / 8 + 0.5)
    if k == 'view':
        of = pool[s['of']]
        if not isinstance(of, np.ndarray) or of.ndim == 0 or isinstance(of, pq.UnitQuantity):
            return of
        return [lambda: of[...], lambda: of[::2], lambda: of.T, lambda: of[1:], lambda: of.reshape(-1)][s['how']]()
    if k == 'like':
        # something which fits another member
        of = pool[s['of']]
        if not isinstance(of, Quantity):
            return arr(s['a'])
        e = [[n, x] for n, x in unit_of(of).items()] if all(n in GOLD for n in unit_of(of)) else []
        names = [CLASS.get(dims_key(DIMS[n]), [n]) for n, x in e]
        e = [[c[s['c'] % len(c)], x] for c, (n, x) in zip(names, e)]
        a = np.ones(of.shape) * 2.5
        if s['how'] == 4:
            return UQ(a, dimensionality(e), a / 8)
        return Quantity(a if s['how'] else 3.5, dimensionality(e))
    if k == 'unit':
        return unit(s['n'])
    if k == 'user':
        n = fresh('pur')
        return pq.UnitQuantity(n, 2.5 * unit(s['n']), symbol=n + 's')
    if k == 'compound':
        return pq.CompoundUnit(s['t'])
    if k == 'constant':
        return getattr(pq.constants, s['n'], pq.meter)
    if k == 'dim':
        return dimensionality(s['u'])
    a = arr(s['a'])
    if k == 'list':
        return a.tolist() if a.ndim else [a.item()]
    if k == 'number':
        return a.item()
    return a


def look(x):
    """everything observable"""
    s = snap(x)
    if isinstance(x, pq.UnitQuantity):
        d = x.definition
        return s + (x.name, x.symbol, x.u_symbol, x.__doc__, hash(x), mag(d).tobytes(), tuple(sorted(names_of(d.dimensionality).items())))
    if isinstance(x, Quantity):
        return s + (x.flags.writeable, x.strides, x.ndim)
    return s


# --------------------------------------------------------------------------
# operations

def m(name, *args, **kwargs):
    return lambda x, y: getattr(x, name)(*args, **kwargs)


def my(name):
    return lambda x, y: getattr(x, name)(y)


def np1(name):
    return lambda x, y: getattr(np, name)(x)


def np2(name):
    return lambda x, y: getattr(np, name)(x, y)


PURE = {}
for _o in ('+', '-', '*', '/', '//', '%', '==', '!=', '<', '<=', '>', '>='):
    PURE[_o] = lambda x, y, o=_o: OPS[o](x, y)
for _n in (0, 0.0, 1, 1.0, None, '', []):
    # the neutral elements: the result is no view either
    for _o in ('+', '-', '*', '/', '**', '//', '%'):
        PURE['x %s %r' % (_o, _n)] = lambda x, y, o=_o, n=_n: OPS[o](x, n)
        PURE['%r %s x' % (_n, _o)] = lambda x, y, o=_o, n=_n: OPS[o](n, x)
PURE['sum([x])'] = lambda x, y: sum([x])
PURE['sum([x, y])'] = lambda x, y: sum([x, y])
PURE['divmod'] = lambda x, y: divmod(x, y)
for _p in (0, 1, 2, -1, 3, 0.5, -0.5):
    PURE['**%s' % _p] = lambda x, y, p=_p: x ** p
PURE['x**y'] = lambda x, y: x ** y
PURE['2**x'] = lambda x, y: 2 ** x
PURE['-x'] = lambda x, y: -x
PURE['+x'] = lambda x, y: +x
PURE['abs'] = lambda x, y: abs(x)
PURE['~'] = lambda x, y: ~x
for _n in ('float', 'int', 'bool', 'len', 'str', 'repr', 'hash', 'complex'):
    PURE[_n] = lambda x, y, f=getattr(__import__('builtins'), _n): f(x)
PURE['format'] = lambda x, y: format(x, '.2f')
PURE['fstring'] = lambda x, y: '%s %r {}'.format(x) % (x, x)
for _n in ('add', 'subtract', 'multiply', 'true_divide', 'floor_divide', 'power', 'maximum', 'minimum', 'hypot',
           'arctan2', 'fmod', 'remainder', 'equal', 'less', 'greater_equal', 'logaddexp', 'copysign',
           'fmax', 'fmin', 'outer', 'array_equal', 'allclose', 'broadcast_arrays', 'vstack_',
           'searchsorted', 'logical_and', 'divmod', 'nextafter', 'heaviside', 'kron', 'isin'):
    if hasattr(np, _n) and _n != 'broadcast_arrays':
        PURE['np.' + _n] = np2(_n)
for _n in ('sqrt', 'square', 'sin', 'cos', 'tan', 'arcsin', 'exp', 'log', 'log10', 'isnan', 'isfinite', 'floor',
           'ceil', 'rint', 'trunc', 'sign', 'reciprocal', 'conjugate', 'fabs', 'absolute', 'negative', 'deg2rad',
           'rad2deg', 'degrees', 'sinh', 'arctanh', 'cbrt', 'expm1', 'log1p', 'signbit', 'modf', 'frexp',
           'logical_not', 'sum', 'mean', 'std', 'var', 'max', 'min', 'prod', 'cumsum', 'cumprod', 'median', 'sort',
           'argsort', 'argmax', 'nonzero', 'nansum', 'nanmean', 'nanmax', 'nanmin', 'diff', 'ediff1d',
           'unwrap', 'unique', 'roll_', 'copy', 'trace', 'any', 'all', 'nan_to_num',
           'average', 'ptp', 'nanstd', 'count_nonzero', 'tril', 'iscomplexobj', 'shape', 'size'):
    if hasattr(np, _n):
        PURE['np.' + _n] = np1(_n)
PURE.update({
    'np.tile': lambda x, y: np.tile(x, 2),
    'np.repeat': lambda x, y: np.repeat(x, 2), 'np.concatenate': lambda x, y: np.concatenate([x, y]),
    'np.stack': lambda x, y: np.stack([x, x]), 'np.where': lambda x, y: np.where(np.asarray(x) > 0, x, y),
    'np.clip': lambda x, y: np.clip(x, y, y), 'np.cross': lambda x, y: np.cross(x, y),
    'np.linspace': lambda x, y: np.linspace(x, y, 3), 'np.interp': lambda x, y: np.interp(1.5, x, y),
    'np.array': lambda x, y: np.array(x),
    'np.mean axis': lambda x, y: np.mean(x, axis=0), 'np.sum axis': lambda x, y: np.sum(x, axis=-1),
})
for _n in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh',
           'arctanh', 'sum', 'nansum', 'prod', 'cumsum', 'cumprod', 'diff', 'ediff1d', 'gradient', 'unwrap', 'trapz'):
    PURE['pq.' + _n] = lambda x, y, n=_n: getattr(pq, n)(x)
for _n in ('hypot', 'arctan2', 'cross', 'trapz', 'gradient', 'ediff1d'):
    PURE['pq.%s(x, y)' % _n] = lambda x, y, n=_n: getattr(pq, n)(x, y)
PURE['pq.trapz dx'] = lambda x, y: pq.trapz(x, dx=y)
PURE['pq.unwrap discont'] = lambda x, y: pq.unwrap(x, y)
for _n in ('sum', 'mean', 'std', 'var', 'max', 'min', 'ptp', 'prod', 'cumsum', 'cumprod', 'argmax', 'argmin',
           'argsort', 'nonzero', 'tolist', 'nansum', 'nanmean', 'nanstd', 'nanmin', 'nanmax', 'nanargmin',
           'nanargmax', 'trace', 'copy', 'flatten', 'all', 'any', 'item', 'tobytes',
           'rescale', 'rescale_preferred', '__deepcopy__', 'sqrt', 'nanargmax'):
    PURE['.' + _n] = m(_n) if _n != '__deepcopy__' else m(_n, {})
for _n in ('sum', 'mean', 'std', 'var', 'max', 'min', 'ptp', 'prod', 'cumsum', 'argmax', 'argsort', 'nansum',
           'nanmean', 'nanmax', 'repeat_', 'nanstd'):
    if not _n.endswith('_'):
        PURE['.%s(axis=0)' % _n] = lambda x, y, n=_n: getattr(x, n)(axis=0)
PURE.update({
    '.round(2)': lambda x, y: x.round(2) if x.dtype.kind not in 'iub' else None,
    '.clip': lambda x, y: x.clip(y), '.clip2': lambda x, y: x.clip(y, y), '.searchsorted': my('searchsorted'),
    '.take': m('take', [0]), '.take scalar': m('take', 0), '.repeat': m('repeat', 2),
    '.compress': m('compress', [True]),
    '.astype': m('astype', 'f8'), '.astype c': m('astype', 'c16'),
    '.rescale(y.units)': lambda x, y: x.rescale(y.units), '.rescale(y)': lambda x, y: x.rescale(y),
    '.rescale(own units)': lambda x, y: x.rescale(x.units),
    '.rescale(own dims)': lambda x, y: x.rescale(x.dimensionality),
    '.rescale(y.dims)': lambda x, y: x.rescale(y.dimensionality),
    '.rescale(bad)': lambda x, y: x.rescale('no such unit'), '.rescale(3)': lambda x, y: x.rescale(3),
    '.rescale dtype': lambda x, y: x.rescale(y.units, dtype='f4'),
    '.simplified': lambda x, y: x.simplified, '.units': lambda x, y: x.units,
    '.dimensionality': lambda x, y: x.dimensionality,
    '.dimensionless_magnitude': lambda x, y: x.dimensionless_magnitude,
    '.magnitude copy': lambda x, y: np.array(x.magnitude), '.relative_uncertainty': lambda x, y: x.relative_uncertainty,
    '.definition': lambda x, y: x.definition, '.fancy': lambda x, y: x[[0, -1]],
    '.mask': lambda x, y: x[np.ones(np.shape(x), bool)], '.bad index': lambda x, y: x[99],
    'Quantity(x, y)': lambda x, y: Quantity(x, y) if isinstance(x, Quantity) else Quantity(np.array(x), y),
    'Quantity(x.magnitude copy, y)': lambda x, y: Quantity(np.array(x), y),
    'Quantity(x, y.dims)': lambda x, y: Quantity(x, y.dimensionality) if isinstance(x, Quantity) else None,
    'UQ(x, y.units)': lambda x, y: UQ(x, y.units, 0.5 * np.ones(x.shape)) if isinstance(x, Quantity) else None,
    'UQ bad': lambda x, y: UQ(np.array(x), y, [1, 2, 3, 4, 5, 6, 7]),
    'copy.copy': lambda x, y: copy.copy(x), 'copy.deepcopy': lambda x, y: copy.deepcopy(x),
    'pickle': lambda x, y: pickle.loads(pickle.dumps(x)), 'pickle both': lambda x, y: pickle.loads(pickle.dumps([x, y])),
    'deepcopy both': lambda x, y: copy.deepcopy((x, y)),
    'latex': lambda x, y: (x.dimensionality.latex, x.dimensionality.html, x.dimensionality.unicode),
    'dim *': lambda x, y: x.dimensionality * y.dimensionality, 'dim /': lambda x, y: x.dimensionality / y.dimensionality,
    'dim **': lambda x, y: x.dimensionality ** 2, 'dim +': lambda x, y: x.dimensionality + y.dimensionality,
    'dim -': lambda x, y: x.dimensionality - y.dimensionality, 'dim ==': lambda x, y: x.dimensionality == y.dimensionality,
    'dim self /': lambda x, y: x.dimensionality / x.dimensionality, 'dim **0': lambda x, y: x.dimensionality ** 0,
    'dim **1': lambda x, y: x.dimensionality ** 1, 'dim simplified': lambda x, y: x.dimensionality.simplified,
    'D *': lambda x, y: dims(x) * dims(y), 'D **1': lambda x, y: dims(x) ** 1, 'D copy': lambda x, y: dims(x).copy(),
    'D simplified': lambda x, y: dims(x).simplified,
    'D quantity': lambda x, y: Quantity([1.0, 2.0], dims(x)), 'D uq': lambda x, y: UQ([1.0, 2.0], dims(x), [1., 2.]),
    'D rescale': lambda x, y: Quantity([1.0, 2.0], dims(x)).rescale(dims(y)),
    'x * y.units': lambda x, y: x * y.units, 'x.units * y': lambda x, y: x.units * y,
    'sum of list': lambda x, y: sum([x, x], x * 0), 'in': lambda x, y: x in [y],
    'sorted': lambda x, y: len(sorted(x)), 'CompoundUnit': lambda x, y: pq.CompoundUnit(str(x.dimensionality)),
    'np.sin out': lambda x, y: np.sin(x, out=np.zeros(np.shape(x))),
    'np.add out': lambda x, y: np.add(x, y, out=Quantity(np.zeros(np.shape(x)), 'm')),
    'np.sqrt out': lambda x, y: np.sqrt(x, out=Quantity(np.zeros(np.shape(x)), 's')),
    '.sum out': lambda x, y: x.sum(out=Quantity(0.0, 's')), '.max out': lambda x, y: x.max(out=Quantity(0.0, 's')),
    '.clip out': lambda x, y: x.clip(y, y, out=Quantity(np.zeros(x.shape), 's')),
    # numpy crashes for scalars
    '.cumsum out': lambda x, y: x.cumsum(0, out=Quantity(np.zeros(x.shape), 's')) if x.ndim else None,
    '.round out': lambda x, y: x.round(1, out=Quantity(np.zeros(x.shape), 's')),
    '.sum bad out': lambda x, y: x.sum(out=np.zeros(())), 'np.add.reduce': lambda x, y: np.add.reduce(x),
    'definition of a unit': lambda x, y: pq.UnitQuantity(fresh('pud'), x), 'of a unit 2': lambda x, y: pq.UnitQuantity(fresh('pud'), 2 * x),
    'unit of length': lambda x, y: pq.UnitLength(fresh('pud'), x), 'unit constant': lambda x, y: pq.UnitConstant(fresh('pud'), x),
})

VIEWS = {
    'x[...]': lambda x, y: x[...], 'x[0]': lambda x, y: x[0], 'iter': lambda x, y: [i for i in x], '.T': lambda x, y: x.T,
    '.view': m('view'), '.reshape': m('reshape', -1), '.ravel': m('ravel'), '.transpose': m('transpose'),
    '.squeeze': m('squeeze'), '.swapaxes': m('swapaxes', 0, -1), '.diagonal': m('diagonal'),
    '.magnitude': lambda x, y: x.magnitude, '.real': lambda x, y: x.real, '.imag': lambda x, y: x.imag,
    '.uncertainty': lambda x, y: x.uncertainty, 'np.asarray': np1('asarray'), 'np.asanyarray': np1('asanyarray'),
    'Quantity(x)': lambda x, y: Quantity(x), 'UQ(x)': lambda x, y: UQ(x), 'UQ(x, unc)': lambda x, y: UQ(x, uncertainty=y),
    '.round int': m('round'), 'round': lambda x, y: round(x, 1), '.conjugate': m('conjugate'), 'list': lambda x, y: list(x), 'np.around': np1('around'), 'np.real': np1('real'), 'np.squeeze': np1('squeeze'),
    'np.transpose': np1('transpose'), 'np.broadcast_to': lambda x, y: np.broadcast_to(x, (2,) + np.shape(x)),
    'np.atleast_1d': np1('atleast_1d'), 'np.flip': np1('flip'), '.flat': lambda x, y: list(x.flat),
    'np.split': lambda x, y: np.array_split(x, 2), 'np.ravel': np1('ravel'), 'np.diag': np1('diag'),
    'max()': lambda x, y: max(x, y), 'np.full_like': lambda x, y: np.full_like(x, 1), 'np.ones_like': np1('ones_like'),
    'np.zeros_like': np1('zeros_like'), 'np.gradient': np1('gradient'), 'np.roll': lambda x, y: np.roll(x, 1), 'np.expand_dims': lambda x, y: np.expand_dims(x, 0),
}


def setitem(x, y):
    x[0] = y


def setall(x, y):
    x[...] = y


def setunits(x, y):
    x.units = y.units


def setunits2(x, y):
    x.units = y


def setbad(x, y):
    x.units = 'no such unit'


def setunc(x, y):
    x.uncertainty = y


def setreal(x, y):
    x.real = y


def setimag(x, y):
    x.imag = y


INPLACE = {o: (lambda x, y, o=o: OPS[o](x, y)) for o in ('+=', '-=', '*=', '/=', '//=', '%=')}
INPLACE.update({'**=%s' % p: (lambda x, y, p=p: OPS['**='](x, p)) for p in (0, 1, 2, -1, 0.5)})
INPLACE.update({
    '**=y': lambda x, y: OPS['**='](x, y), 'x[0]=': setitem, 'x[...]=': setall, 'units=y.units': setunits,
    'units=y': setunits2, 'units=bad': setbad, 'uncertainty=': setunc, 'fill': lambda x, y: x.fill(y),
    'put': lambda x, y: x.put([0], y), 'put bad': lambda x, y: x.put([99], y), 'sort': lambda x, y: x.sort(),
    'real=': setreal, 'imag=': setimag, '*= self': lambda x, y: OPS['*='](x, x), '/= self': lambda x, y: OPS['/='](x, x),
    '+= self': lambda x, y: OPS['+='](x, x), '-= self': lambda x, y: OPS['-='](x, x),
    '*= y.units': lambda x, y: OPS['*='](x, y.units), 'x[99]=': lambda x, y: x.__setitem__(99, y),
    'x[mask]=': lambda x, y: x.__setitem__(np.ones(np.shape(x), bool), y),
})


def bad_definition(x, y):
    pq.UnitQuantity('meter', 3 * pq.second, symbol=fresh('bad'))


def bad_alias(x, y):
    n = fresh('bad')
    try:
        pq.UnitQuantity(n, 3 * pq.m, symbol=n + 's', aliases=['second'])
    finally:
        for t in (n, n + 's'):
            must_raise('a rejected definition registered ' + t, lambda: unit_registry[t])


def bad_register(x, y):
    unit_registry['m'] = x if isinstance(x, pq.UnitQuantity) and x is not pq.m else pq.s


REJECTED = {
    'definition': bad_definition, 'alias': bad_alias, 'register': bad_register,
    'defaults': lambda x, y: pq.set_default_units(length='s'), 'system': lambda x, y: pq.set_default_units('imperial'),
    'defaults2': lambda x, y: pq.set_default_units(mass='g', length='s'),
    'defaults of x': lambda x, y: pq.set_default_units(currency=pq.m),
    'default unit': lambda x, y: pq.UnitLength.set_default_unit(pq.s),
    'unknown': lambda x, y: unit_registry[fresh('nope')], 'malformed': lambda x, y: unit_registry['m**'],
    'call': lambda x, y: unit_registry['m.rescale("s")'], 'compound': lambda x, y: pq.CompoundUnit('m*' + fresh('nope')),
    'unit name': lambda x, y: pq.UnitQuantity(3, 2 * pq.m),
}
ALL = dict(PURE)
ALL.update({'view ' + k: f for k, f in VIEWS.items()})
ALL.update({'in-place ' + k: f for k, f in INPLACE.items()})
ALL.update({'rejected ' + k: f for k, f in REJECTED.items()})
DEFS = ['defaults: cgs', 'defaults: SI', 'defaults: km', 'unicode', 'preferred']
NAMES_PURE, NAMES_IN = sorted(PURE), ['in-place ' + k for k in sorted(INPLACE)]
NAMES_REST = ['view ' + k for k in sorted(VIEWS)] + ['rejected ' + k for k in sorted(REJECTED)] + DEFS


def dims(x):
    return x if isinstance(x, Dimensionality) else x.dimensionality


@st.composite
def history(draw):
    n = draw(st.integers(2, 5))
    pool = [draw(member(i)) for i in range(n)]
    names = st.one_of(st.sampled_from(NAMES_PURE), st.sampled_from(NAMES_PURE), st.sampled_from(NAMES_IN),
                      st.sampled_from(NAMES_REST))
    steps = draw(st.lists(st.tuples(names, st.integers(0, n - 1), st.integers(0, n - 1)).map(list),
                          min_size=1, max_size=10))
    return {'p': pool, 's': steps}


def flat(r):
    if isinstance(r, (list, tuple)):
        return [z for i in r for z in flat(i)]
    return [r]


def overwrite(r):
    """change everything about a result which can be changed"""
    if isinstance(r, Dimensionality):
        r[pq.candela] = 9
        r.clear()
        return
    if not isinstance(r, np.ndarray) or isinstance(r, pq.UnitQuantity) or r.dtype.kind not in 'fciub':
        return
    try:
        if isinstance(r, Quantity):
            r *= pq.candela
            r.units = 'mcd'
    except Exception:
        pass
    a = r.view(np.ndarray)
    if a.flags.writeable:
        a[...] = 77 if a.dtype.kind != 'b' else ~a
    if isinstance(r, UQ):
        a = r.uncertainty.view(np.ndarray)
        if a.flags.writeable:
            a[...] = 55


def memory(x):
    if isinstance(x, UQ):
        return [x.view(np.ndarray), x.uncertainty.view(np.ndarray)]
    if isinstance(x, np.ndarray):
        return [x.view(np.ndarray)]
    return []


def sharing(x, y):
    return any(np.shares_memory(a, b) for a in memory(x) for b in memory(y))


def registry_now():
    return [id(unit_registry[t]) for t in SAMPLE]


def check_history(s, ev):
    pool = []
    for x in s['p']:
        pool.append(build(x, pool))
    names = [x['n'] for x in s['p'] if x['k'] == 'unit']
    reg = registry_now()
    named = [(n, look(unit(n))) for n in names]
    defaults = defaults_now()
    kinds = set()
    worked = 0
    for name, i, j in s['s']:
        if name in DEFS:
            if name == 'unicode':
                pq.markup.config.use_unicode = not pq.markup.config.use_unicode
            elif name == 'preferred':
                qmod.PREFERRED = [x for x in pool if isinstance(x, pq.UnitQuantity)] + [pq.mm, pq.hour]
            else:
                if name.endswith('km'):
                    pq.set_default_units(length='km', time=pq.hour)
                else:
                    pq.set_default_units(name.split()[1])
            defaults = defaults_now()
            continue
        x, y = pool[i], pool[j]
        if name.startswith('in-place x[') and not isinstance(x, np.ndarray) or \
                name.startswith('in-place') and isinstance(x, list):
            continue
        if name == 'in-place **=y' and sharing(x, y):
            continue                    # the exponent changes while it is used
        before = [look(z) for z in pool]
        preferred = list(qmod.PREFERRED)
        r = None
        try:
            with np.errstate(all='ignore'):
                r = ALL[name](x, y)
            ok = True
        except Fail:
            raise
        except Exception:
            ok = False
        where = '%s on %d, %d (%s)' % (name, i, j, 'done' if ok else 'failed')
        allowed = set()
        if name.startswith('in-place') and ok:
            allowed = {k for k, z in enumerate(pool) if z is x or sharing(z, x)}
            if isinstance(x, (pq.UnitQuantity, Dimensionality)) or not isinstance(x, np.ndarray):
                # units never change; numbers and lists are rebound
                allowed = {k for k in allowed if pool[k] is x} if isinstance(x, Dimensionality) else set()
        if name.startswith('rejected') and ok:
            fail(where, 'was accepted')
        for k, z in enumerate(pool):
            if k in allowed:
                continue
            now = look(z)
            if now != before[k]:
                fail(where, 'changed member', k, 'from', before[k], 'to', now)
        if defaults_now() != defaults:
            fail(where, 'changed the default units')
        if len(preferred) != len(qmod.PREFERRED) or any(a is not b for a, b in zip(preferred, qmod.PREFERRED)):
            fail(where, 'changed the preferred units')
        if ok and name in PURE:
            for z in flat(r):
                if isinstance(z, (pq.UnitQuantity, Dimensionality)):
                    continue
                for k, p in enumerate(pool):
                    if sharing(z, p) and not (isinstance(p, pq.UnitQuantity) and not z.flags.writeable):
                        fail(where, 'the result shares the memory of member', k)
            for z in flat(r):
                # numpy's functions may give an operand without a dtype itself
                if not (isinstance(z, Dimensionality) and name.startswith(('np.', 'pq.'))):
                    overwrite(z)
            for k, z in enumerate(pool):
                if look(z) != before[k]:
                    fail(where, 'overwriting the result changed member', k, 'from', before[k], 'to', look(z))
            if defaults_now() != defaults:
                fail(where, 'overwriting the result changed the default units')
        kinds.add('%s %s' % (name.split()[0] if name not in PURE else 'pure', 'done' if ok else 'failed'))
        worked += isinstance(x, (Quantity, Dimensionality))
    if registry_now() != reg:
        fail('the registry was changed')
    for n, l in named:
        if look(unit(n)) != l:
            fail('the unit', n, 'was changed')
    ev.tag(*sorted(kinds))
    ev.nt(worked)


# every operation on every kind of operand

KINDS = [
    {'k': 'q', 'a': {'t': 'f8', 's': [2, 2], 'd': [1.5, -2.0, 0.25, 4.0]}, 'u': [['meter', 1]]},
    {'k': 'q', 'a': {'t': 'f8', 's': [3], 'd': [0.5, 0.25, 1.0]}, 'u': []},
    {'k': 'q', 'a': {'t': 'f8', 's': [3], 'd': [0.5, 0.25, 1.0]}, 'u': [['arcdegree', 1]]},
    {'k': 'q', 'a': {'t': 'i8', 's': [3], 'd': [1, 2, 3]}, 'u': [['kilometer', 1]]},
    {'k': 'q', 'a': {'t': 'f8', 's': [], 'd': [2.5]}, 'u': [['meter', 1], ['second', -1]]},
    {'k': 'q', 'a': {'t': 'c16', 's': [2], 'd': [[1.0, 2.0], [0.5, -1.0]]}, 'u': [['volt', 1]]},
    {'k': 'q', 'a': {'t': 'f4', 's': [3], 'd': [1.0, 2.0, 3.0]}, 'u': [['inch', 1]]},
    {'k': 'uq', 'a': {'t': 'f8', 's': [3], 'd': [1.0, 2.0, 4.0]}, 'u': [['meter', 1]]},
    {'k': 'uq', 'a': {'t': 'f8', 's': [], 'd': [2.0]}, 'u': []},
    {'k': 'unit', 'n': 'meter'}, {'k': 'unit', 'n': 'hour'}, {'k': 'unit', 'n': 'radian'},
    {'k': 'compound', 't': 'm/s'}, {'k': 'constant', 'n': 'hbar'}, {'k': 'user', 'n': 'foot'},
    {'k': 'dim', 'u': [['meter', 1], ['second', -2]]},
    {'k': 'plain', 'a': {'t': 'f8', 's': [3], 'd': [1.0, 2.0, 3.0]}},
    {'k': 'list', 'a': {'t': 'f8', 's': [3], 'd': [1.0, 2.0, 3.0]}},
    {'k': 'number', 'a': {'t': 'f8', 's': [], 'd': [2.0]}},
    {'k': 'readonly', 'a': {'t': 'f8', 's': [3], 'd': [1.0, 2.0, 3.0]}, 'u': [['meter', 1]]},
]


def every_operation():
    for i, a in enumerate(KINDS):
        for b in KINDS:
            # all operations, each on fresh operands would be slow: pure ones together
            yield {'p': [a, b], 's': [[n, 0, 1] for n in NAMES_PURE]}
            yield {'p': [a, b], 's': [[n, 0, 1] for n in NAMES_REST if n not in DEFS]}
            for n in NAMES_IN:
                yield {'p': [a, b], 's': [[n, 0, 1]]}


SUBS = [
    Sub('history', check_history, history, quick=1600),
    Sub('every operation', check_history, cases=every_operation, shards=16),
]
