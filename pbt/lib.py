"""Reference model of units, builders of cases from specs, generators."""
import contextlib
import functools
import json
import math
import operator
import os
from fractions import Fraction

import numpy as np

import quantities as pq
from quantities import quantity as qmod
from quantities.dimensionality import Dimensionality
from quantities.registry import unit_registry
from quantities import unitquantity as uqmod

from .core import Fail, fail

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'golden_units.json'), encoding='utf-8') as _f:
    GOLD = json.load(_f)

UQ = pq.UncertainQuantity
Quantity = pq.Quantity

# --------------------------------------------------------------------------
# global state

BASE_CLASSES = [getattr(uqmod, n) for n in (
    'UnitMass', 'UnitLength', 'UnitTime', 'UnitCurrent',
    'UnitLuminousIntensity', 'UnitSubstance', 'UnitTemperature',
    'UnitInformation', 'UnitCurrency')]
DEFAULTS = [(c, c.get_default_unit()) for c in BASE_CLASSES]


@contextlib.contextmanager
def clean_state():
    reset_state()
    try:
        yield
    finally:
        reset_state()


def reset_state():
    for c, u in DEFAULTS:
        if c.get_default_unit() is not u:
            c._default_unit = u
    pq.markup.config.use_unicode = False
    qmod.PREFERRED = []


def defaults_now():
    return [id(c.get_default_unit()) for c in BASE_CLASSES]


# --------------------------------------------------------------------------
# the reference model: unit -> (SI factor, dimensions)

def frac(x):
    return Fraction(x).limit_denominator(10**6)


DIMS = {n: {k: frac(v) for k, v in e['dims'].items()} for n, e in GOLD.items()}
FACTOR = {n: e['factor'] for n, e in GOLD.items()}
COMPOUND = [n for n, e in GOLD.items() if e['cls'] == 'CompoundUnit']
NAMES = [n for n in GOLD if n not in COMPOUND]
BASE_OF = {'kg': 'kilogram', 'm': 'meter', 's': 'second', 'A': 'ampere',
           'cd': 'candela', 'mol': 'mole', 'K': 'Kelvin', 'bit': 'bit'}


def dims_key(d):
    return tuple(sorted((k, v) for k, v in d.items() if v))


CLASS = {}
for _n in NAMES:
    CLASS.setdefault(dims_key(DIMS[_n]), []).append(_n)

# user-defined units of the running case: name -> (factor, dims, object)
EXTRA = {}


def fac(name):
    return EXTRA[name][0] if name in EXTRA else FACTOR[name]


def dim(name):
    return EXTRA[name][1] if name in EXTRA else DIMS[name]


def merge(expr):
    """canonical {unit name: exponent} of an expression"""
    out = {}
    for n, e in expr:
        out[n] = out.get(n, 0) + e
    out.pop('dimensionless', None)
    return {n: e for n, e in out.items() if e}


def si_factor(expr):
    """inf where a factor leaves the range of floats"""
    f = 1.0
    for n, e in expr:
        try:
            f *= fac(n) ** e
        except (OverflowError, ZeroDivisionError):
            return np.inf
    return f


def si_dims(expr):
    out = {}
    for n, e in expr:
        for k, v in dim(n).items():
            out[k] = out.get(k, 0) + v * frac(e)
    return {k: v for k, v in out.items() if v}


def compatible(a, b):
    return si_dims(a) == si_dims(b)


def ratio(a, b):
    """how many b make one a"""
    return si_factor(a) / si_factor(b)


def times(a, b, sign=1):
    return [list(x) for x in merge(list(a) + [[n, sign * e] for n, e in b]).items()]


def power(a, p):
    return [list(x) for x in merge([[n, e * p] for n, e in a]).items()]


# --------------------------------------------------------------------------
# builders

_ATTR = {n: (e['attrs'][0] if e['attrs'] else None) for n, e in GOLD.items()}


def unit(name):
    """the unit object"""
    if name in EXTRA:
        return EXTRA[name][2]
    return getattr(pq, _ATTR[name])


def fmt_exp(e):
    return repr(int(e)) if float(e).is_integer() else repr(float(e))


def label(name, i=0):
    """a text which denotes the unit"""
    if name in EXTRA:
        return name
    ls = GOLD[name]['labels'] or [name]
    return ls[i % len(ls)]


def expr_text(expr, i=0):
    """The text of a unit expression"""
    parts = []
    for n, e in expr:
        s = label(n, i)
        if not s.isidentifier() and s != '%':
            s = n
        parts.append(s if e == 1 else '%s**%s' % (s, fmt_exp(e)))
    return '*'.join(parts) if parts else 'dimensionless'


def unit_quantity(expr):
    """a Quantity of magnitude one, built with the operators"""
    q = None
    for n, e in expr:
        u = unit(n)
        e = int(e) if float(e).is_integer() else e
        p = u if e == 1 else u ** e
        q = p if q is None else q * p
    return pq.dimensionless if q is None else q


def dimensionality(expr):
    return Dimensionality({unit(n): e for n, e in merge(expr).items()})


SPELLINGS = ('string', 'quantity', 'dim', 'unit')


def spell(expr, how='string'):
    """The expression as an argument of the library"""
    if how == 'string':
        return expr_text(expr)
    if how.startswith('string'):
        return expr_text(expr, int(how[6:]))
    if how == 'dim':
        return dimensionality(expr)
    if how == 'unit' and len(expr) == 1 and expr[0][1] == 1:
        return unit(expr[0][0])
    return unit_quantity(expr)


_SPECIAL = {'nan': math.nan, 'inf': math.inf, '-inf': -math.inf, '-0': -0.0}


def num(x):
    if isinstance(x, str):
        return _SPECIAL[x]
    if isinstance(x, list):
        return complex(num(x[0]), num(x[1]))
    return x


def arr(spec):
    """ndarray from {'t': dtype, 's': shape, 'd': flat data, 'l': layout}"""
    a = np.array([num(x) for x in spec['d']], dtype=spec['t'])
    a = a.reshape(spec['s']) if a.size == math.prod(spec['s']) else np.resize(a, spec['s'])
    lay = spec.get('l', 'C')
    if a.ndim == 0 or lay == 'C':
        return a
    if lay == 'F':
        return np.asfortranarray(a)
    if lay == 'neg':
        return np.ascontiguousarray(a[::-1])[::-1]
    if lay == 'step':
        big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if lay == 'T':
        return np.ascontiguousarray(a.T).T
    raise ValueError(lay)


def qty(spec, cls=None):
    """Quantity from {'a': array spec, 'u': expr}, or a bare unit {'unit': n}"""
    if 'unit' in spec:
        return unit(spec['unit'])
    return (cls or Quantity)(arr(spec['a']), dimensionality(spec['u']))


def q_expr(spec):
    return [[spec['unit'], 1]] if 'unit' in spec else spec['u']


def q_arr(spec):
    return np.array(1.0) if 'unit' in spec else arr(spec['a'])


def plain(spec):
    """Things without units: number, numpy scalar, list, array"""
    a = arr(spec['a'])
    kind = spec.get('k', 'array')
    if kind == 'list' and (a.size or a.ndim == 1):
        # the others have no list of their shape
        return a.tolist()
    if kind == 'npscalar' and a.ndim == 0:
        return a[()]
    if kind == 'number' and a.ndim == 0:
        return a.item()
    return a


# --------------------------------------------------------------------------
# looking at results

def names_of(d):
    """{unit name: exponent} of a Dimensionality"""
    if not isinstance(d, Dimensionality):
        fail('not a Dimensionality:', type(d))
    return {u.name: float(e) for u, e in d.items()}


def unit_of(q):
    if not isinstance(q, Quantity):
        fail('not a Quantity:', type(q), repr(q))
    return names_of(q.dimensionality)


def mag(q):
    if isinstance(q, Quantity):
        return np.asarray(q.magnitude)
    return np.asarray(q)


def want_unit(q, expr, what=''):
    want = {n: float(e) for n, e in merge(expr).items()}
    got = unit_of(q)
    if got != want:
        fail(what, 'unit is', got, 'instead of', want)


def no_units(r, what=''):
    """plain data, or a dimensionless quantity"""
    if isinstance(r, Quantity) and r.dimensionality:
        fail(what, 'carries the unit', r.dimensionality)


def plain_data(r, what=''):
    if isinstance(r, Quantity):
        fail(what, 'is a Quantity:', repr(r))


def tol(dtype):
    k = np.dtype(dtype)
    if k.kind in 'fc':
        eps = np.finfo(k).eps
        return max(64 * eps, 1e-11) if eps < 1e-10 else 256 * eps
    return 1e-11


def equal(a, b, rtol=1e-10, atol=0.0):
    """Elementwise closeness as a single bool; shapes must agree"""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind not in 'fc' and b.dtype.kind not in 'fc':
        return bool(np.all(a == b))
    wide = 'c16' if 'c' in (a.dtype.kind, b.dtype.kind) else 'f8'
    a = a.astype(wide)
    b = b.astype(wide)
    if wide == 'c16':
        return _eq(a.real, b.real, rtol, atol, np.abs(b)) and \
            _eq(a.imag, b.imag, rtol, atol, np.abs(b))
    return _eq(a, b, rtol, atol, np.abs(b))


def _eq(a, b, rtol, atol, scale):
    fin = np.isfinite(a) & np.isfinite(b)
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    with np.errstate(all='ignore'):
        scale = np.where(np.isfinite(scale), scale, 0.0)
        near = np.abs(a - b) <= rtol * scale + atol
    return bool(np.all(np.where(fin, near, same)))


def want(a, b, rtol=1e-10, atol=0.0, what=''):
    if not equal(a, b, rtol, atol):
        fail(what, 'got', repr(np.asarray(a)), 'expected', repr(np.asarray(b)))


def same_exact(a, b, what=''):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.dtype != b.dtype:
        fail(what, 'dtype', a.dtype, 'instead of', b.dtype)
    if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'):
        fail(what, 'got', repr(a), 'expected', repr(b))


def snap(x):
    """Everything observable about an operand"""
    if isinstance(x, Quantity):
        m = np.asarray(x.magnitude)
        s = (type(x).__name__, str(m.dtype), m.shape, m.tobytes(),
             tuple(sorted(unit_of(x).items())))
        if isinstance(x, UQ):
            s += (snap(x.uncertainty),)
        return s
    if isinstance(x, Dimensionality):
        return ('dim', tuple(sorted(names_of(x).items())))
    if isinstance(x, np.ndarray):
        return ('ndarray', str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(i) for i in x])
    return (type(x).__name__, repr(x))


def raises(f, *args, **kwargs):
    """The exception of a call which has to raise one; None if it does not"""
    try:
        f(*args, **kwargs)
    except Exception as e:
        return e
    return None


def must_raise(what, f, *args, **kwargs):
    try:
        r = f(*args, **kwargs)
    except Exception:
        return
    fail(what, 'returned', repr(r), 'instead of raising an error')


OPS = {
    '+': operator.add, '-': operator.sub, '*': operator.mul,
    '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
    '**': operator.pow,
    '+=': operator.iadd, '-=': operator.isub, '*=': operator.imul,
    '/=': operator.itruediv, '//=': operator.ifloordiv, '%=': operator.imod,
    '**=': operator.ipow,
    '==': operator.eq, '!=': operator.ne, '<': operator.lt,
    '<=': operator.le, '>': operator.gt, '>=': operator.ge,
}

_counter = [0]


def fresh(prefix='vfy'):
    """A label no other case of this process has used"""
    _counter[0] += 1
    return '%s_%d_%s' % (prefix, _counter[0], 'u')
