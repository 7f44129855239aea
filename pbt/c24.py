"""Subclasses of Quantity behave as quantities"""
import copy
import pickle

from hypothesis import strategies as st

from . import c21, gen
from .core import Sub
from .lib import *

RULE = """'twins': a pool of operands is built twice, once of plain (uncertain) quantities and once of
instances of a user's subclass (a bare one, one with a constructor argument and an attribute handled in
__array_finalize__, one with a higher array priority, a subclass of a subclass), and the same history
of up to ten operations out of about 250 (those of C21) runs on both. Oracle: the plain twin; after
every step both have succeeded or both have failed, the results agree in value, dtype, shape and unit, and so
do all members. 'kept': operations on an instance give the class (and views its attribute); the value and the
unit come from the model of units. Non-trivial: an operation succeeded on an instance of a subclass, and in
'kept' the array is not empty."""

ASSUMPTIONS = ['conversions, reductions, deep copies, single elements and results of uncertain quantities are plain (uncertain) quantities',
               'the constructor accepts (data, units, dtype)']


class Bare(Quantity):
    pass


class Tagged(Quantity):

    def __new__(cls, data, units='', dtype=None, copy=None, tag='none'):
        ret = Quantity.__new__(cls, data, units, dtype)
        ret.tag = tag
        return ret

    def __array_finalize__(self, obj):
        super().__array_finalize__(obj)
        self.tag = getattr(obj, 'tag', 'none')


class Prior(Quantity):
    __array_priority__ = 30


class Deeper(Tagged):

    def twice(self):
        return self * 2


class Uncertain(UQ):
    pass


KINDS = {'bare': Bare, 'tagged': Tagged, 'prior': Prior, 'deeper': Deeper}
# these look at the class, at the identity of objects or do not depend on the class at all
SKIP = {'repr', 'fstring', 'hash', 'str', '.tobytes', '.uncertainty', 'in-place uncertainty='}
NAMES = sorted(set(c21.NAMES_PURE) - SKIP)
NAMES_IN = sorted(set(c21.NAMES_IN) - SKIP)
NAMES_VIEW = ['view ' + k for k in sorted(c21.VIEWS)]


@st.composite
def twins(draw):
    n = draw(st.integers(1, 4))
    pool = [draw(c21.member(i)) for i in range(n)]
    which = [draw(st.integers(0, 3)) > 0 for _ in pool]
    which[0] = True
    names = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(NAMES_IN),
                      st.sampled_from(NAMES_VIEW))
    return {'p': pool, 'w': which, 'k': draw(st.sampled_from(sorted(KINDS))),
            's': draw(st.lists(st.tuples(names, st.integers(0, n - 1), st.integers(0, n - 1)).map(list),
                               min_size=1, max_size=10))}


def become(x, cls):
    """the same data as an instance of the subclass"""
    if type(x) is Quantity:
        r = x.view(cls)
    elif type(x) is UQ:
        r = Uncertain(np.array(x.magnitude), x.dimensionality, np.array(x.uncertainty.magnitude), dtype=x.dtype)
    else:
        return x
    r.flags.writeable = x.flags.writeable
    return r


def build(s, pool, cls):
    x = c21.build(s, pool)
    if cls is None or s['k'] == 'view':
        return x
    if type(x) is Quantity and s['k'] in ('q', 'readonly', 'like'):
        return new(cls, x)
    return become(x, cls)


def new(cls, q):
    r = cls(np.asarray(q.magnitude), q.dimensionality)
    r.flags.writeable = q.flags.writeable
    if type(r) is not cls:
        fail('the constructor of the subclass gave', type(r))
    return r


def dims_of(q):
    # complex exponents are not of interest, but complex() takes all of them
    return {u.name: complex(e) for u, e in q.dimensionality.items()}


def alike(a, b, where, depth=0):
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            fail(where, 'gave', type(b), 'instead of', type(a))
        for x, y in zip(a, b):
            alike(x, y, where)
        return
    if isinstance(a, Quantity) or isinstance(b, Quantity):
        if not (isinstance(a, Quantity) and isinstance(b, Quantity)):
            fail(where, 'gave', type(b), repr(b), 'instead of', type(a), repr(a))
        if isinstance(a, UQ) != isinstance(b, UQ):
            fail(where, 'gave', type(b), 'instead of', type(a))
        same_exact(mag(b), mag(a), where)
        if dims_of(a) != dims_of(b) and not (isinstance(a, pq.UnitQuantity) and a.name.startswith('pu')):
            fail(where, 'has the unit', unit_of(b), 'instead of', unit_of(a))
        if isinstance(a, UQ):
            alike(a.uncertainty, b.uncertainty, where + ' (uncertainty)')
        return
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, np.generic):
        if type(a) is not type(b):
            fail(where, 'gave', type(b), 'instead of', type(a))
        if a.dtype.kind == 'O':
            return
        same_exact(b, a, where)
        return
    if isinstance(a, Dimensionality):
        if names_of(a) != names_of(b):
            fail(where, 'gave', b, 'instead of', a)
        return
    if type(a) is not type(b):
        fail(where, 'gave', type(b), 'instead of', type(a))
    if isinstance(a, (int, float, complex, str)) and not (a == b or a != a):
        fail(where, 'gave', b, 'instead of', a)


def check_twins(s, ev):
    cls = KINDS[s['k']]
    plain_, sub = [], []
    for x, w in zip(s['p'], s['w']):
        plain_.append(build(x, plain_, None))
        # units do not change, so that both share them
        sub.append(plain_[-1] if isinstance(plain_[-1], pq.UnitQuantity) else build(x, sub, cls if w else None))
    worked = 0
    for name, i, j in s['s']:
        x, y = plain_[i], plain_[j]
        if name.startswith('in-place') and not isinstance(x, np.ndarray) or isinstance(x, pq.UnitQuantity):
            continue
        if name == 'in-place **=y' and c21.sharing(x, y):
            continue
        if isinstance(x, UQ) != isinstance(y, UQ) and i != j and isinstance(x, Quantity) and isinstance(y, Quantity):
            # which of two classes python and numpy ask first depends on the classes
            continue
        if 'np.' in name and (isinstance(x, UQ) or isinstance(y, UQ)):
            continue                    # these do not support uncertainties
        out = []
        for pool in (plain_, sub):
            try:
                with np.errstate(all='ignore'):
                    out.append((True, c21.ALL[name](pool[i], pool[j])))
            except Fail:
                raise
            except Exception as e:
                out.append((False, e))
        where = '%s on %d, %d of %s' % (name, i, j, s['k'])
        if out[0][0] != out[1][0]:
            fail(where, 'gave', repr(out[1][1]), 'where plain quantities give', repr(out[0][1]))
        if out[0][0] and name in ('==', '!=') and np.shape(out[0][1]) != np.shape(out[1][1]):
            # between different dimensions: the shape is that of the operand which python asks first
            if np.size(out[0][1]) and np.size(out[1][1]) and \
                    np.unique(np.asarray(out[0][1])).tolist() != np.unique(np.asarray(out[1][1])).tolist():
                fail(where, 'gave', out[1][1], 'instead of', out[0][1])
        elif out[0][0]:
            alike(out[0][1], out[1][1], where)
            worked += isinstance(sub[i], (tuple(KINDS.values()) + (Uncertain,)))
            ev.tag(name.split()[0] if name.startswith(('view', 'in-place')) else 'pure')
        for k, (a, b) in enumerate(zip(plain_, sub)):
            if isinstance(a, np.ndarray):
                alike(a, b, where + ': member %d' % k)
    ev.tag(s['k'])
    ev.nt(worked)


# --------------------------------------------------------------------------

VIEWS = {
    '[...]': lambda q: q[...], '[1:]': lambda q: q[1:], '[::-1]': lambda q: q[::-1], '.T': lambda q: q.T,
    '.reshape': lambda q: q.reshape(-1), '.ravel': lambda q: q.ravel(), '.view': lambda q: q.view(),
    '[None]': lambda q: q[None], '.swapaxes': lambda q: q.swapaxes(0, -1), '[mask]': lambda q: q[np.ones(q.shape, bool)],
    '[[0]]': lambda q: q[[0]], '.copy': lambda q: q.copy(), '.flatten': lambda q: q.flatten(),
    'copy': lambda q: copy.copy(q), '.transpose': lambda q: q.transpose(),
}
# operation: (on quantities, on arrays, unit rule)
KEEP = {
    'q + r': (lambda q, r, e: q + r, lambda a, b, e: a + b, 1), 'q - r': (lambda q, r, e: q - r, lambda a, b, e: a - b, 1),
    'q % r': (lambda q, r, e: q % abs(r), lambda a, b, e: a % np.abs(b), 1),
    'q * 2': (lambda q, r, e: q * 2, lambda a, b, e: a * 2, 1), '2 * q': (lambda q, r, e: 2 * q, lambda a, b, e: a * 2, 1),
    'q / 2': (lambda q, r, e: q / 2, lambda a, b, e: a / 2, 1), '1 / q': (lambda q, r, e: 1 / q, lambda a, b, e: 1 / a, -1),
    'q * q': (lambda q, r, e: q * q, lambda a, b, e: a * a, 2), 'q / q': (lambda q, r, e: q / q, lambda a, b, e: a / a, 0),
    'q ** e': (lambda q, r, e: q ** e, lambda a, b, e: a ** float(e), 'e'), '-q': (lambda q, r, e: -q, lambda a, b, e: -a, 1),
    'abs': (lambda q, r, e: abs(q), lambda a, b, e: np.abs(a), 1),
    'array * q': (lambda q, r, e: np.ones(q.shape) * q, lambda a, b, e: a, 1),
    'np.square': (lambda q, r, e: np.square(q), lambda a, b, e: a * a, 2),
    'np.sqrt': (lambda q, r, e: np.sqrt(abs(q)), lambda a, b, e: np.sqrt(np.abs(a)), .5),
    'np.maximum': (lambda q, r, e: np.maximum(q, -q), lambda a, b, e: np.abs(a), 1),
    'np.floor': (lambda q, r, e: np.floor(q), lambda a, b, e: np.floor(a), 1),
    'np.add': (lambda q, r, e: np.add(q, q), lambda a, b, e: a + a, 1),
    'astype': (lambda q, r, e: q.astype('f4').astype('f8'), lambda a, b, e: a.astype('f4').astype('f8'), 1),
    'pickle': (lambda q, r, e: pickle.loads(pickle.dumps(q, max(0, int(e)))), lambda a, b, e: a, 1),
    '+=': (lambda q, r, e: OPS['+='](q, r), lambda a, b, e: a + b, 1),
    '*=': (lambda q, r, e: OPS['*='](q, 2.), lambda a, b, e: a * 2, 1),
    'new': (lambda q, r, e: type(q)(q), lambda a, b, e: a, 1),
}


@st.composite
def kept(draw):
    u = draw(gen.expr())
    return {'k': draw(st.sampled_from(sorted(KINDS))), 'u': u, 'v': draw(gen.compatible_expr(u)),
            'a': draw(gen.array(dtypes=['f8'], shapes=[(), (1,), (3,), (4,), (2, 2), (2, 3)], specials=False)),
            'op': draw(st.sampled_from(sorted(KEEP))), 'view': draw(st.lists(st.sampled_from(sorted(VIEWS)), max_size=3)),
            'e': draw(st.sampled_from([0, 1, 2, -1, 0.5])), 'tag': draw(st.integers(0, 9))}


def check_kept(s, ev):
    cls = KINDS[s['k']]
    a = arr(s['a'])
    r = ratio(s['v'], s['u'])
    if not 1e-100 < r < 1e100:
        return
    tagged = issubclass(cls, Tagged)
    kw = {'tag': s['tag']} if tagged else {}
    q = cls(np.array(a), dimensionality(s['u']), **kw)
    other = Quantity(np.array(a) / 4 + 1, dimensionality(s['v']))
    if not isinstance(q.rescale(dimensionality(s['v'])), Quantity):
        fail('conversion gave', type(q.rescale(dimensionality(s['v']))))
    want(mag(q.rescale(dimensionality(s['v']))), a / r, 1e-10, what='conversion')
    for v in s['view']:
        if not a.ndim and v in ('[1:]', '[::-1]', '.swapaxes', '[[0]]') or v == '[1:]' and q.shape[0] < 2:
            continue
        q, a, other = VIEWS[v](q), np.asarray(VIEWS[v](a)), VIEWS[v](other)
        if type(q) is not cls:
            fail(v, 'gave', type(q), 'instead of', cls)
        want_unit(q, s['u'], v)
        same_exact(mag(q), a, v)
        if tagged and q.tag != s['tag']:
            fail(v, 'lost the attribute')
        ev.tag(v)
    base = isinstance(q.base, Quantity)
    f, g, rule = KEEP[s['op']]
    e = s['e']
    with np.errstate(all='ignore'):
        x, w = f(q, other, e), g(a, mag(other) * r, e)
    if type(x) is not cls:
        fail(s['op'], 'gave', type(x), 'instead of', cls)
    want_unit(x, power(s['u'], e if rule == 'e' else rule), s['op'])
    if s['op'] == 'q % r':
        m = np.abs(mag(other) * r)
        d = np.abs(mag(x) - w)
        if np.any(np.minimum(d, np.abs(d - m)) > 1e-9 * (np.abs(a) + m)):
            fail('remainder', mag(x), 'instead of', w)
    else:
        want(mag(x), w, 1e-10, 1e-10 * float(np.max(np.abs(np.concatenate(
            [a.ravel(), (mag(other) * r).ravel(), [0]])))), what=s['op'])
    ev.tag(s['op'], s['k'])
    ev.nt(a.size)


SUBS = [
    Sub('twins', check_twins, twins, quick=2400),
    Sub('kept', check_kept, kept, quick=2000),
]
