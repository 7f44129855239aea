"""NumPy's composite functions and Python's built-ins keep the units"""
import builtins
import math

from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is a NumPy function which NumPy itself composes of the operations of its argument (medians,
percentiles, averages, linspace, meshgrid, kron, trapezoid, differences, tiles, parts, templates) or a built-in of
Python (sum, max, min, sorted, abs, in, index, count, float, ...) applied to quantities over the registry. Oracle: the same
function of the magnitudes (for several units: of the converted ones), and the unit rule. Arguments stay as they were. Non-trivial: the data
are not empty and have a unit."""

# f(x, axis, n): the unit of the argument is kept
KEEP = {
    'median': lambda x, ax, n: np.median(x, axis=ax),
    'median keepdims': lambda x, ax, n: np.median(x, axis=ax, keepdims=True),
    'percentile': lambda x, ax, n: np.percentile(x, 10 * n, axis=ax),
    'percentiles': lambda x, ax, n: np.percentile(x, [0, 7 * n, 50, 100], axis=ax),
    'percentile nearest': lambda x, ax, n: np.percentile(x, 10 * n, axis=ax, method='nearest'),
    'percentile midpoint': lambda x, ax, n: np.percentile(x, 10 * n, axis=ax, method='midpoint'),
    'percentile median_unbiased': lambda x, ax, n: np.percentile(x, 10 * n, axis=ax, method='median_unbiased'),
    'quantile': lambda x, ax, n: np.quantile(x, n / 10, axis=ax),
    'quantile keepdims': lambda x, ax, n: np.quantile(x, n / 10, axis=ax, keepdims=True),
    'nanpercentile': lambda x, ax, n: np.nanpercentile(x, 10 * n, axis=ax),
    'nanquantile': lambda x, ax, n: np.nanquantile(x, [n / 10, 0.5], axis=ax),
    'average': lambda x, ax, n: np.average(x, axis=ax),
    'average weighted': lambda x, ax, n: np.average(x, axis=ax, weights=np.arange(1., x.size + 1).reshape(x.shape)),
    'amax': lambda x, ax, n: np.amax(x, axis=ax), 'amin': lambda x, ax, n: np.amin(x, axis=ax),
    'diff': lambda x, ax, n: np.diff(x, axis=-1 if ax is None else ax),
    'diff 2': lambda x, ax, n: np.diff(x, 2, axis=-1 if ax is None else ax),
    'ediff1d': lambda x, ax, n: np.ediff1d(x),
    'gradient': lambda x, ax, n: np.gradient(x, axis=-1 if ax is None else ax),
    'gradient by number': lambda x, ax, n: np.gradient(x, n + 0.5, axis=-1 if ax is None else ax),
    'trapezoid': lambda x, ax, n: TRAPEZOID(x, axis=-1 if ax is None else ax),
    'trapezoid by number': lambda x, ax, n: TRAPEZOID(x, dx=n + 0.5, axis=-1 if ax is None else ax),
    'tile': lambda x, ax, n: np.tile(x, n % 4),
    'tiles': lambda x, ax, n: np.tile(x, (2, n % 3, 1)),
    'unique': lambda x, ax, n: np.unique(x),
    'unique with more': lambda x, ax, n: np.unique(x, return_index=True, return_counts=True)[0],
    'rot90': lambda x, ax, n: np.rot90(x, n),
    'flip': lambda x, ax, n: np.flip(x, ax),
    'roll': lambda x, ax, n: np.roll(x, n, ax),
    'sort': lambda x, ax, n: np.sort(x, axis=ax),
    'partition': lambda x, ax, n: np.partition(x, 0, axis=-1 if ax is None else ax),
    'take_along_axis': lambda x, ax, n: np.take_along_axis(
        x, np.argsort(np.asarray(x), -1 if ax is None else ax), -1 if ax is None else ax),
    'array_split': lambda x, ax, n: np.array_split(x, 1 + n % 4, axis=ax or 0),
    'hsplit': lambda x, ax, n: np.hsplit(x, [1]),
    'diag': lambda x, ax, n: np.diag(x, n % 3 - 1) if x.ndim == 2 else np.diagonal(x),
    'apply_along_axis': lambda x, ax, n: np.apply_along_axis(np.sum, -1 if ax is None else ax, x),
    'apply_along_axis rows': lambda x, ax, n: np.apply_along_axis(np.sort, -1 if ax is None else ax, x),
    'meshgrid': lambda x, ax, n: np.meshgrid(x.ravel(), x.ravel()[:n], indexing='ij', sparse=n > 5),
    'linspace': lambda x, ax, n: np.linspace(x.ravel()[0], x.ravel()[-1], n + 2, endpoint=n % 2 == 0),
    'linspace rows': lambda x, ax, n: np.linspace(x, x[::-1], n),
    'linspace step': lambda x, ax, n: np.linspace(x.ravel()[0], x.ravel()[-1], n + 2, retstep=True)[1],
    'zeros_like': lambda x, ax, n: np.zeros_like(x), 'ones_like': lambda x, ax, n: np.ones_like(x),
    'full_like': lambda x, ax, n: np.full_like(x, n), 'copy': lambda x, ax, n: np.array(x, subok=True),
    'fix': lambda x, ax, n: np.fix(x), 'real_if_close': lambda x, ax, n: np.real_if_close(x),
    'extract': lambda x, ax, n: np.extract(np.asarray(x) > 0, x),
    'trim_zeros': lambda x, ax, n: np.trim_zeros(x.ravel()),
    'piecewise': lambda x, ax, n: np.piecewise(x, [np.asarray(x) > 0], [lambda y: 2 * y, lambda y: y]),
    'abs': lambda x, ax, n: abs(x), 'round': lambda x, ax, n: round(x.ravel()[0], n % 6 - 3),
    'sum of parts': lambda x, ax, n: builtins.sum(x[1:], x[0]),
    'reversed': lambda x, ax, n: list(reversed(x)),
    'tuple': lambda x, ax, n: tuple(x),
    'star': lambda x, ax, n: [*x],
    'max': lambda x, ax, n: max(x.ravel()), 'min': lambda x, ax, n: min(x.ravel()),
    'max by key': lambda x, ax, n: max(x.ravel(), key=lambda y: -y),
    'sorted': lambda x, ax, n: sorted(x.ravel()), 'sorted down': lambda x, ax, n: sorted(x.ravel(), reverse=True),
}
TRAPEZOID = getattr(np, 'trapezoid', None) or np.trapz
# no units in the result
NONE = {
    'isreal': lambda x, ax, n: np.isreal(x), 'iscomplex': lambda x, ax, n: np.iscomplex(x),
    'count_nonzero': lambda x, ax, n: np.count_nonzero(x), 'flatnonzero': lambda x, ax, n: np.flatnonzero(x),
    'unique inverse': lambda x, ax, n: np.unique(x, return_inverse=True)[1].ravel(),
    'unique counts': lambda x, ax, n: np.unique(x, return_counts=True)[1],
    'float': lambda x, ax, n: float(x.ravel()[n % x.size]), 'int': lambda x, ax, n: int(x.ravel()[n % x.size]),
    'complex': lambda x, ax, n: complex(x.ravel()[n % x.size]), 'bool': lambda x, ax, n: bool(x.ravel()[n % x.size]),
    'len': lambda x, ax, n: len(x), 'size': lambda x, ax, n: np.size(x), 'shape': lambda x, ax, n: np.shape(x),
    'any': lambda x, ax, n: any(x.ravel()), 'all': lambda x, ax, n: all(x.ravel()),
}
NAN = {'nanpercentile', 'nanquantile'}


@st.composite
def single(draw):
    f = draw(st.sampled_from(sorted(KEEP) * 2 + sorted(NONE)))
    shape = draw(st.sampled_from([(1,), (2,), (3,), (4,), (5,), (2, 3), (3, 2), (3, 3), (2, 1, 3)]))
    specials = f in NAN
    s = {'f': f, 'q': {'a': draw(gen.array(dtypes=['f8', 'f8', 'f4', 'i8'], shape=shape, specials=specials)),
                       'u': draw(gen.expr())},
         'axis': draw(st.sampled_from([None] + list(range(-len(shape), len(shape))))),
         'n': draw(st.integers(0, 9))}
    return s


def compare(r, exp, e, what, t):
    """results may be lists and tuples"""
    if isinstance(exp, (list, tuple)):
        if type(r) is not type(exp) or len(r) != len(exp):
            fail(what, 'gave', type(r), 'instead of', type(exp))
        for x, y in zip(r, exp):
            compare(x, y, e, what, t)
        return
    if e is None:
        no_units(r, what)
    else:
        want_unit(r, e, what)
    want(mag(r), np.asarray(exp), t, what=what)
    if what in KEEP and np.asarray(mag(r)).dtype.kind != np.asarray(exp).dtype.kind:
        fail(what, 'gave', np.asarray(mag(r)).dtype, 'instead of', np.asarray(exp).dtype)


def check_single(s, ev):
    f, q, a, e = s['f'], qty(s['q']), q_arr(s['q']), q_expr(s['q'])
    g = KEEP.get(f) or NONE[f]
    ax, n = s['axis'], s['n']
    try:
        with np.errstate(all='ignore'):
            exp = g(a, ax, n)
    except Exception:
        return          # numpy itself cannot do this
    if f in NAN and np.any(np.isnan(exp)):
        return          # nothing but nan in a row: numpy makes the answer itself
    before = snap(q)
    with np.errstate(all='ignore'):
        r = g(q, ax, n)
    if f == 'trapezoid by number' or 'percentile' in f or 'quantile' in f or f in ('median', 'average', 'linspace'):
        t = max(tol(a.dtype), 1e-9)
    else:
        t = tol(a.dtype)
    if f in ('diff', 'diff 2', 'gradient', 'ediff1d', 'gradient by number') or t > 1e-8:
        # relative to the largest value: these subtract
        exp_ = np.concatenate([np.ravel(x) for x in exp]) if isinstance(exp, (list, tuple)) else np.asarray(exp)
        if isinstance(exp, (list, tuple)) or exp_.dtype.kind != 'f':
            compare(r, exp, e if f in KEEP else None, f, t)
        else:
            if f in KEEP:
                want_unit(r, e, f)
            else:
                no_units(r, f)
            top = np.abs(a[np.isfinite(a)]).max(initial=0)
            want(mag(r), exp_, t, atol=t * float(top), what=f)
    else:
        compare(r, exp, e if f in KEEP else None, f, t)
    if snap(q) != before:
        fail(f, 'changed its argument')
    ev.tag(f)
    ev.nt(a.size and merge(e))


# --------------------------------------------------------------------------
# two arguments

# f(x, y): numbers of one-dimensional arrays; rule: the unit of the result, 'same': both must have one unit
PAIR = {
    'kron': (lambda x, y: np.kron(x, y), 1),
    'trapezoid x': (lambda x, y: TRAPEZOID(x, x=y), 1),
    'trapezoid dx': (lambda x, y: TRAPEZOID(x, dx=y[0]), 1),
    'average': (lambda x, y: np.average(x, weights=y), 'left'),
    'average sum': (lambda x, y: np.average(x, weights=y, returned=True)[1], 'right'),
    'meshgrid 0': (lambda x, y: np.meshgrid(x, y)[0], 'left'),
    'meshgrid 1': (lambda x, y: np.meshgrid(x, y)[1], 'right'),
    'linspace': (lambda x, y: np.linspace(x, y, 4), 'same'),
    'linspace ends': (lambda x, y: np.linspace(x[0], y[-1], 3, endpoint=False), 'same'),
}


@st.composite
def pairs(draw):
    f = draw(st.sampled_from(sorted(PAIR)))
    n = draw(st.sampled_from([2, 3, 4]))
    u = draw(gen.expr())
    rel = draw(st.sampled_from(['same', 'compatible', 'other', 'plain', 'plain left']))
    v = {'same': lambda: u, 'compatible': lambda: draw(gen.compatible_expr(u)),
         'other': lambda: draw(gen.incompatible_expr(u))}.get(rel, lambda: None)()
    kw = dict(dtypes=['f8', 'f8', 'i8'], shape=(n,), values=gen.positive, specials=False)
    a, b = draw(gen.array(**kw)), draw(gen.array(**kw))
    return {'f': f, 'a': a, 'b': b, 'u': None if rel == 'plain left' else u, 'v': u if rel == 'plain left' else v}


def check_pairs(s, ev):
    f = s['f']
    g, rule = PAIR[f]
    u, v, a, b = s['u'], s['v'], arr(s['a']), arr(s['b'])
    if any(not 1e-100 < si_factor(e or []) < 1e100 for e in (u, v)):
        return
    x = Quantity(a.copy(), dimensionality(u)) if u is not None else a.copy()
    y = Quantity(b.copy(), dimensionality(v)) if v is not None else b.copy()
    before = snap([x, y])
    exp = np.asarray(g(a, b))
    ue, ve = u or [], v or []
    if rule == 'same':
        try:
            r = g(x, y)
        except Exception:
            if merge(ue) == merge(ve):
                raise
            if snap([x, y]) != before:
                fail(f, 'failed and changed its arguments')
            ev.tag(f, 'raises')
            ev.nt(ue or ve)
            return
        # accepted: the amounts have to be right
        if not compatible(ue, ve):
            fail(f, 'of', ue, 've', ve, 'returned', repr(r), 'instead of raising an error')
        got = merge(ue) if unit_of(r) == {k: float(z) for k, z in merge(ue).items()} else merge(ve)
        e = [[k, z] for k, z in got.items()]
        want_unit(r, e, f)
        exp = np.asarray(g(a * ratio(ue, e), b * ratio(ve, e)))
        want(mag(r), exp, 1e-9, atol=1e-9 * float(np.abs(exp).max(initial=0)), what=f)
    else:
        r = g(x, y)
        e = {1: times(ue, ve), 'left': ue, 'right': ve}[rule]
        if merge(e):
            want_unit(r, e, f)
        else:
            no_units(r, f)
        want(mag(r), exp, 1e-10, atol=1e-10 * float(np.abs(exp).max(initial=0)), what=f)
    if snap([x, y]) != before:
        fail(f, 'changed its arguments')
    ev.tag(f)
    ev.nt(ue or ve)


# --------------------------------------------------------------------------
# the built-ins on Python lists of quantities in several units

@st.composite
def lists(draw):
    u = draw(gen.expr(min_units=1))
    n = draw(st.integers(1, 5))
    els = []
    for _ in range(n):
        els.append([draw(gen.nice), u if draw(st.integers(0, 2)) == 0 else draw(gen.compatible_expr(u))])
    if draw(st.integers(0, 4)) == 0:
        els.insert(draw(st.integers(0, n)), [draw(gen.positive), draw(gen.incompatible_expr(u))])
    return {'f': draw(st.sampled_from(['max', 'min', 'sorted', 'sum', 'sum0', 'in', 'index', 'count', 'chain', 'fsum'])),
            'l': els}


def check_lists(s, ev):
    f = s['f']
    els = s['l']
    qs = [Quantity(x, dimensionality(e)) for x, e in els]
    base = els[-1 if f in ('in', 'index', 'count') else 0][1]
    ok = all(compatible(e, base) for _, e in els)
    if any(not 1e-60 < si_factor(e) < 1e60 for _, e in els):
        return
    before = snap(qs)
    v = [x * ratio(e, base) if compatible(e, base) else math.nan for x, e in els]
    top = max((abs(x) for x in v if x == x), default=0)
    near = any(i < j and abs(v[i] - v[j]) <= 1e-9 * (abs(v[i]) + abs(v[j])) for i in range(len(v)) for j in range(len(v)))
    if f in ('max', 'min', 'sorted'):
        g = {'max': max, 'min': min, 'sorted': sorted}[f]
        if not ok:
            if len(qs) > 1:
                must_raise(f + ' of different dimensions', g, qs)
        else:
            r = g(qs)
            if near:
                return
            order = sorted(range(len(v)), key=v.__getitem__)
            if f == 'sorted':
                if [id(x) for x in r] != [id(qs[i]) for i in order]:
                    fail('sorted gave', r, 'for', qs)
            elif r is not qs[order[-1 if f == 'max' else 0]]:
                fail(f, 'gave', r, 'for', qs)
    elif f in ('sum', 'sum0', 'chain'):
        if f == 'sum':
            g = lambda: sum(qs[1:], qs[0])
        elif f == 'sum0':
            g = lambda: sum(qs, Quantity(0.0, dimensionality(base)))
        else:
            def g():
                t = qs[0] - qs[0]
                for x in qs:
                    t = t + x
                return t
        if not ok:
            must_raise('sum of different dimensions', g)
        else:
            r = g()
            want_unit(r, base, f)
            want(mag(r), np.array(sum(v)), 1e-9, atol=1e-9 * top, what=f)
    elif f == 'fsum':
        if ok:
            r = math.fsum(float(x.rescale(dimensionality(base))) for x in qs)
            want(r, math.fsum(v), 1e-9, atol=1e-9 * top, what=f)
    else:
        # equality of the amounts, for the whole list and the last of its elements
        if near:
            return
        probe = qs[-1].rescale(dimensionality(els[-1][1]))
        n = len(qs) - 1
        if f == 'in':
            if probe not in qs:
                fail(probe, 'is not in', qs)
            if Quantity(els[-1][0] + 2 * (abs(els[-1][0]) + 1), dimensionality(els[-1][1])) in qs[-1:]:
                fail('another amount is in', qs[-1:])
        elif f == 'index':
            if qs.index(probe) != n:
                fail(probe, 'is at', qs.index(probe), 'in', qs)
        elif qs.count(probe) != 1:
            fail(probe, 'is', qs.count(probe), 'times in', qs)
    if snap(qs) != before:
        fail(f, 'changed the list')
    ev.tag(f, 'one dimension' if ok else 'several dimensions')
    ev.nt(len(qs) > 1)


SUBS = [
    Sub('one argument', check_single, single, quick=4500),
    Sub('two arguments', check_pairs, pairs, quick=2500),
    Sub('lists of quantities', check_lists, lists, quick=2000),
]
