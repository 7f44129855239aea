"""Assigning units in place converts in place or changes nothing"""
from hypothesis import strategies as st

from . import gen
from .c01 import representable
from .core import Sub
from .lib import *

RULE = """A case is a quantity and a history of unit assignments (compatible,
incompatible, not a unit; as text, unit, quantity, expression) mixed with creating
views, assigning through views, freezing and thawing the data. After each step
magnitude, unit and the data seen through every view are compared with a model.
Non-trivial: at least one assignment that converts and one that has to be rejected
or is observed through a view."""


@st.composite
def history(draw):
    e = draw(gen.expr())
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(
            ['set', 'set', 'set', 'set', 'bad', 'bad', 'junk', 'view', 'setview',
             'freeze', 'thaw', 'write', 'same']))
        op = {'k': k, 'how': draw(gen.spelling)}
        if k in ('set', 'setview'):
            op['u'] = draw(gen.compatible_expr(e))
        elif k == 'bad':
            op['u'] = draw(gen.incompatible_expr(e))
        elif k == 'junk':
            op['j'] = draw(st.sampled_from(['nosuchunit_xyz', 3, None, 'scaled', 'm+m']))
        elif k == 'view':
            op['v'] = draw(st.sampled_from(['all', 'half', 'rev', 'reshape', 'T', 'uncertain', 'subclass']))
        ops.append(op)
    return {'a': draw(gen.array(big=True, dtypes=['f8', 'f8', 'f8', 'f4', 'i8', 'i2', 'u1', 'i4', 'c16'])),
            'u': e, 'ops': ops, 'own': draw(st.booleans())}


class Sub_(Quantity):
    pass


def view(q, kind):
    if kind == 'half':
        return q[:1] if q.ndim else q[...]
    if kind == 'rev':
        return q[::-1] if q.ndim else q[...]
    if kind == 'reshape':
        return q.reshape(-1)
    if kind == 'uncertain':
        return q.view(UQ) if isinstance(q, Quantity) else q[...]
    if kind == 'subclass':
        return q.view(Sub_) if isinstance(q, Quantity) else q[...]
    if kind == 'T':
        return q.T
    return q[...]


def check_history(s, ev):
    a = arr(s['a'])
    expr = s['u']
    if s['own']:
        q = Quantity(a.copy(), dimensionality(expr))
    else:
        q = a.copy() * unit_quantity(expr)
        if q.dtype != a.dtype:
            q = Quantity(a.copy(), dimensionality(expr))
    model = a.copy()
    t = tol(a.dtype)
    views = []
    frozen = False
    converted = rejected = 0
    for op in s['ops']:
        k = op['k']
        if k in ('set', 'same'):
            u = op['u'] if k == 'set' else expr
            r = ratio(expr, u)
            if not representable(r, a.dtype):
                continue
            changes = merge(u) != merge(expr)
            err = raises(setattr, q, 'units', spell(u, op['how']))
            if err is None:
                if frozen and changes:
                    fail('units of read-only data were assigned')
                if a.dtype.kind in 'iu' and changes:
                    # only acceptable if it is exact
                    exact = model * r
                    lim = np.iinfo(a.dtype)
                    if not np.array_equal(exact, np.rint(exact)) or \
                            (exact < lim.min).any() or (exact > lim.max).any():
                        fail('integer data cannot hold the result')
                    model = np.rint(exact).astype(a.dtype)
                else:
                    with np.errstate(all='ignore'):
                        model = model * a.dtype.type(r) if changes else model
                expr = u
                converted += changes
            else:
                if not frozen and (a.dtype.kind not in 'iu' or not changes):
                    fail('assignment of', u, 'raised', repr(err))
                rejected += 1
        elif k in ('bad', 'junk'):
            if k == 'bad':
                target = spell(op['u'], op['how'])
            else:
                target = op['j']
                if target == 'scaled':
                    target = 2 * unit_quantity(expr)
            if k == 'bad' and compatible(op['u'], expr):
                continue
            must_raise('assignment of units %r' % (target,), setattr, q, 'units', target)
            rejected += 1
        elif k == 'view':
            # a view keeps the unit it was created with, but sees the data
            views.append((view(q, op['v']), op['v'], expr))
        elif k == 'setview' and views:
            v, how, vexpr = views[-1]
            if v.base is None or not np.shares_memory(np.asarray(v), np.asarray(q)):
                continue
            if merge(op['u']) == merge(vexpr):
                continue
            must_raise('assignment of units to a view', setattr, v, 'units',
                       spell(op['u'], op['how']))
            if unit_of(v) != {n: float(x) for n, x in merge(vexpr).items()}:
                fail('a rejected assignment changed the unit of a view')
            rejected += 1
        elif k == 'freeze':
            q.flags.writeable = False
            frozen = True
        elif k == 'thaw':
            if raises(setattr, q.flags, 'writeable', True) is None:
                frozen = False
        elif k == 'write' and not frozen and q.size:
            q[...] = q[...] * 2
            model = model * 2
        want_unit(q, expr, 'after ' + k)
        want(mag(q), model, 8 * t, what='data after ' + k)
        if q.dtype != a.dtype:
            fail('dtype became', q.dtype)
        want(mag(q.rescale(dimensionality(expr))), model, 8 * t)
        for v, how, _ in views:
            if np.shares_memory(np.asarray(v), np.asarray(q)):
                same_exact(mag(v), view(mag(q), how), 'data seen through a view')
    ev.tag(a.dtype.str[1:], 'ndim%d' % a.ndim, 'frozen' if frozen else 'thawed')
    ev.nt(a.size and converted and (rejected or views))


@st.composite
def single(draw):
    u, v = draw(gen.expr_pair())
    return {'a': draw(gen.array(dtypes=['f8', 'f8', 'f4', 'c16'])), 'u': u, 'v': v,
            'how': draw(gen.spelling)}


def check_single(s, ev):
    a = arr(s['a'])
    if not representable(ratio(s['u'], s['v']), a.dtype):
        return
    q = Quantity(a, dimensionality(s['u']))
    copy = q.rescale(spell(s['v'], s['how']))
    data = q.magnitude
    q.units = spell(s['v'], s['how'])
    want_unit(q, s['v'])
    want(mag(q), mag(copy), tol(a.dtype), what='in place against a copy')
    want(data, mag(q), 0, what='the data are converted in place')
    if q.dtype != a.dtype:
        fail('dtype', q.dtype)
    ev.nt(a.size and merge(s['u']) != merge(s['v']))


def check_unit(s, ev):
    u = unit(s['n'])
    before = snap(u), u.name, u.symbol
    must_raise('assigning units to a unit', setattr, u, 'units', spell(s['v'], s['how']))
    if (snap(u), u.name, u.symbol) != before:
        fail('the unit changed')
    ev.nt()


@st.composite
def on_unit(draw):
    n = draw(gen.unit_name)
    return {'n': n, 'v': draw(gen.compatible_expr([[n, 1]])), 'how': draw(gen.spelling)}


SUBS = [
    Sub('history', check_history, history, quick=1800),
    Sub('single', check_single, single, quick=900),
    Sub('unit', check_unit, on_unit, quick=300),
]
