"""Hypothesis strategies which produce the specs of lib.py"""
from hypothesis import strategies as st

from . import lib

COMMON = [
    'meter', 'kilometer', 'millimeter', 'centimeter', 'micrometer', 'inch',
    'foot', 'mile', 'yard', 'second', 'millisecond', 'minute', 'hour', 'day',
    'kilogram', 'gram', 'pound', 'ampere', 'milliampere', 'Kelvin', 'mole',
    'newton', 'joule', 'watt', 'volt', 'millivolt', 'pascal', 'bar', 'hertz',
    'coulomb', 'liter', 'milliliter', 'arcdegree', 'radian', 'candela', 'bit',
    'byte', 'electron_volt', 'ohm', 'farad', 'tesla', 'gauss',
]
COMMON = [n for n in COMMON if n in lib.GOLD]
ALL = [n for n in lib.NAMES if n != 'dimensionless']
DIMFUL = [n for n in ALL if lib.DIMS[n]]
PURE = [n for n in ALL if not lib.DIMS[n]]      # radian, percent, ...
DENSE = [n for n in ALL if len(lib.CLASS[lib.dims_key(lib.DIMS[n])]) > 1]

unit_name = st.one_of(
    st.sampled_from(COMMON), st.sampled_from(ALL), st.sampled_from(DENSE))

INTEXP = [1, 1, 1, 2, -1, -1, -2, 3, -3]
FRACEXP = [0.5, -0.5, 1.5, 0.25, 2.5]
RAREEXP = [4, -4, 5, -5, 6, 7, 3.5, -2.5, 0.75, 0.25 + 2.0 ** -9, -0.5 - 2.0 ** -9]
exponent = st.one_of(
    st.sampled_from(INTEXP), st.sampled_from(INTEXP), st.sampled_from(INTEXP + FRACEXP),
    st.sampled_from(INTEXP), st.sampled_from(INTEXP + FRACEXP + RAREEXP))


@st.composite
def expr(draw, min_units=0, max_units=3, names=unit_name, exps=exponent):
    n = draw(st.sampled_from(
        [k for k in (1, 1, 1, 1, 2, 2, 2, 3, 3, 0, 4) if min_units <= k <= max_units]
        or list(range(min_units, max_units + 1))))
    ns = draw(st.lists(names, min_size=n, max_size=n, unique=True))
    return [[x, draw(exps)] for x in ns]


# exponents for expressions in which no two units share a base dimension: the sums of
# such numbers would depend on rounding
ODDEXP = [1 / 3, -1 / 3, 2 / 3, 0.1, 0.7, -1.3, 0.125, 4, -4, 5, 6, -7, 1.05, -0.01, 1 / 7, 12]


@st.composite
def odd_pair(draw):
    """two compatible expressions with unusual exponents"""
    a, b, seen = [], [], set()
    for _ in range(draw(st.integers(1, 3))):
        n = draw(unit_name)
        d = set(lib.dim(n))
        if d & seen:
            continue
        seen |= d
        e = draw(st.sampled_from(ODDEXP))
        m = draw(st.sampled_from(lib.CLASS.get(lib.dims_key(lib.dim(n)), [n])))
        a.append([n, e])
        b.append([m, e])
    return a, draw(st.permutations(b)) if len(b) > 1 else b


@st.composite
def compatible_expr(draw, e):
    """Another expression of the dimensions of e"""
    how = draw(st.sampled_from(['swap', 'swap', 'swap', 'pair', 'pair', 'base', 'swap', 'same']))
    if how == 'same':
        return [list(x) for x in e]
    if how == 'base':
        out = [[lib.BASE_OF[k], float(v) if v.denominator > 1 else int(v)]
               for k, v in lib.si_dims(e).items()]
        return [list(x) for x in draw(st.permutations(out))] if out else out
    out = []
    for n, x in e:
        cls = lib.CLASS.get(lib.dims_key(lib.dim(n)), [n])
        out.append([draw(st.sampled_from(cls)), x])
    if how == 'pair':
        a = draw(st.sampled_from(DENSE))
        b = draw(st.sampled_from(lib.CLASS[lib.dims_key(lib.DIMS[a])]))
        out += [[a, 1], [b, -1]]
    return [list(x) for x in lib.merge(out).items()]


@st.composite
def expr_pair(draw, **kw):
    a = draw(expr(**kw))
    return a, draw(compatible_expr(a))


@st.composite
def incompatible_expr(draw, e, **kw):
    d = lib.si_dims(e)
    b = draw(expr(**kw))
    if lib.si_dims(b) == d:
        n = draw(st.sampled_from(DIMFUL))
        b = [list(x) for x in lib.merge(b + [[n, 1]]).items()]
    return b


SHAPES = [(), (), (1,), (2,), (3,), (4,), (2, 2), (2, 3), (1, 3), (2, 1, 2),
          (0,), (2, 0), (40,), (1100,), (35, 3)]
FULL_SHAPES = [s for s in SHAPES if 0 not in s]
# pairs which broadcast
SHAPE_PAIRS = [
    ((), ()), ((), ()), ((3,), (3,)), ((3,), ()), ((), (3,)), ((2, 3), (3,)),
    ((3,), (2, 3)), ((2, 1), (1, 3)), ((2, 3), (2, 3)), ((1,), (3,)),
    ((2, 3), ()), ((0,), (1,)), ((0,), (0,)), ((2,), (2,)), ((2,), (1,)),
    ((40,), (40,)), ((1100,), ()), ((35, 3), (3,)), ((0, 1), (1, 3)), ((1,), (2, 0)),
]
# pairs where the second broadcasts into the first
INTO_PAIRS = [
    ((), ()), ((3,), (3,)), ((3,), ()), ((2, 3), (3,)), ((2, 3), (2, 3)),
    ((3,), (1,)), ((2, 3), (2, 1)), ((2,), ()), ((2,), (2,)), ((0,), ()),
    ((40,), (40,)), ((1100,), ()), ((35, 3), (3,)),
]

nice = st.one_of(
    st.integers(-9, 9).map(float),
    st.integers(-99999, 99999).map(lambda i: i / 100),
    st.floats(-1e6, 1e6, allow_nan=False, width=32).map(
        lambda x: x if abs(x) > 1e-6 else 0.0),
    st.sampled_from([0.0, 1.0, -1.0, 0.5, 2.0, 1e-3, 1e3, 10.0]),
)
positive = st.one_of(
    st.integers(1, 9).map(float),
    st.integers(1, 99999).map(lambda i: i / 100),
    st.floats(2.0 ** -10, 1e5, allow_nan=False, width=32),
)
special = st.sampled_from(['nan', 'inf', '-inf', '-0'])


def _clean(x):
    """JSON-able and without a distinction between 0.0 and -0.0"""
    return x + 0.0 if isinstance(x, float) else x


@st.composite
def elements(draw, dtype, n, values=None, specials=True, nonzero=False, big=False):
    k = dtype[0]
    n = min(n, 12)      # longer arrays repeat themselves
    if k == 'b':
        el = st.integers(0, 1)
    elif k == 'i':
        el = st.integers(-9, 9)
        if nonzero:
            el = el.filter(lambda x: x)
        if values is not None:
            el = st.integers(1, 9)
        if big and draw(st.integers(0, 3)) == 0:
            el = st.one_of(el, st.sampled_from(LARGE[dtype]))
    elif k == 'u':
        el = st.integers(1 if nonzero or values is not None else 0, 9)
        if big and draw(st.integers(0, 3)) == 0:
            el = st.one_of(el, st.sampled_from(LARGE[dtype]))
    else:
        el = values if values is not None else nice
        el = el.map(_clean)
        if nonzero:
            el = el.filter(lambda x: abs(x) > 1e-9)
        if specials and k != 'c' and draw(st.integers(0, 5)) == 0:
            el = st.one_of(el, special)
        if k == 'c':
            el = st.tuples(el, el).map(list)
    return draw(st.lists(el, min_size=n, max_size=n))


# close to the limits of the integer types (and exact in double precision)
LARGE = {'i8': [10 ** 15, -10 ** 15, 3 * 10 ** 9], 'i4': [2 * 10 ** 9, -2 * 10 ** 9, 70000],
         'i2': [32000, -32000, 300], 'i1': [127, -128, 100], 'u1': [255, 200], 'u2': [65000],
         'u4': [4 * 10 ** 9], 'u8': [10 ** 15]}


def prod(s):
    n = 1
    for i in s:
        n *= i
    return n


FLOATS = ['f8', 'f8', 'f8', 'f4']
REALS = ['f8', 'f8', 'f8', 'f4', 'i8', 'i4']
ANY = ['f8', 'f8', 'f8', 'f4', 'i8', 'i4', 'c16']
EVERY = ['f8', 'f8', 'f4', 'i8', 'i4', 'u1', 'i2', 'c16', 'c8']
LAYOUTS = ['C', 'C', 'C', 'F', 'neg', 'step', 'T']


@st.composite
def array(draw, dtypes=REALS, shapes=SHAPES, shape=None, values=None,
          specials=True, nonzero=False, layouts=LAYOUTS, big=False):
    t = draw(st.sampled_from(dtypes))
    s = draw(st.sampled_from(shapes)) if shape is None else shape
    spec = {'t': t, 's': list(s),
            'd': draw(elements(t, prod(s), values, specials, nonzero, big))}
    lay = draw(st.sampled_from(layouts)) if s else 'C'
    if lay != 'C':
        spec['l'] = lay
    return spec


@st.composite
def quantity(draw, units=None, bare_units=False, **kw):
    if bare_units and draw(st.integers(0, 5)) == 0:
        return {'unit': draw(unit_name)}
    u = draw(units if units is not None else expr())
    return {'a': draw(array(**kw)), 'u': u}


@st.composite
def plain(draw, **kw):
    """an operand without units"""
    a = draw(array(**kw))
    kinds = ['array', 'list'] if a['s'] else ['number', 'npscalar', 'array']
    return {'a': a, 'k': draw(st.sampled_from(kinds))}


spelling = st.sampled_from(
    ['string', 'string', 'quantity', 'dim', 'unit', 'unit', 'string1', 'string2'])

angle_name = st.sampled_from(
    [n for n in ('radian', 'degree', 'arcminute', 'arcsecond', 'turn', 'grad',
                 'milliradian', 'gon', 'revolution', 'circle', 'arcdegree')
     if n in lib.GOLD])
