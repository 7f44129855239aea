"""Preferred units select the first compatible unit and only that"""
from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is a history of up to ten steps: replacing or editing the preferred list
(units, unit quantities of products and powers, compound units, user-defined units, with
several entries of one dimension), selecting default units (also rejected selections), the
Unicode setting, and rescaling plain and uncertain quantities and units without a target,
through both entry points. Oracle: the first entry whose dimensions in the reference table
agree, and the ratio of SI factors. Non-trivial: a rescaling which changes the unit, or
which has to raise because nothing fits."""

ASSUMPTIONS = ['entries of the list are units (magnitude one)']

FEW = ['meter', 'kilometer', 'foot', 'inch', 'second', 'millisecond', 'hour', 'kilogram', 'pound',
       'volt', 'millivolt', 'ampere', 'milliampere', 'joule', 'electron_volt', 'newton', 'radian',
       'arcdegree', 'hertz', 'liter', 'pascal', 'bar', 'Kelvin', 'coulomb', 'percent', 'byte']
FEW = [n for n in FEW if n in GOLD]
name = st.one_of(st.sampled_from(FEW), st.sampled_from(FEW), gen.unit_name)


@st.composite
def entry(draw):
    e = draw(gen.expr(min_units=1, names=name))
    how = draw(st.sampled_from(['unit', 'unit', 'quantity', 'compound', 'user']))
    return {'e': [[e[0][0], 1]] if how == 'unit' else e, 'how': how,
            'x': draw(st.sampled_from([1, 2.5, 1000, 0.01]))}


@st.composite
def histories(draw):
    entries = draw(st.lists(entry(), max_size=5))
    # further entries which are compatible with an earlier one
    for _ in range(draw(st.integers(0, 3))):
        if entries:
            e = draw(gen.compatible_expr(draw(st.sampled_from(entries))['e']))
            if e:
                entries.append({'e': e, 'how': draw(st.sampled_from(['quantity', 'compound', 'user'])), 'x': 3.0})
    entries = draw(st.permutations(entries))
    steps = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(['q', 'q', 'q', 'q', 'list', 'edit', 'default', 'unicode']))
        s = {'k': k}
        if k == 'q':
            hows = entries and draw(st.integers(0, 3)) > 0
            e = draw(gen.compatible_expr(draw(st.sampled_from(entries))['e'])) if hows else \
                draw(gen.expr(names=name))
            s['q'] = {'a': draw(gen.array(dtypes=['f8', 'f8', 'f4', 'i8'], specials=False)), 'u': e}
            s['kind'] = draw(st.sampled_from(['q', 'q', 'q', 'uq', 'unit']))
            s['how'] = draw(st.sampled_from(['rescale', 'rescale', 'rescale_preferred', 'none']))
        elif k in ('list', 'edit'):
            s['i'] = draw(st.lists(st.integers(0, 7), max_size=6))
            s['edit'] = draw(st.sampled_from(['append', 'insert', 'pop', 'reverse', 'clear', 'extend']))
        elif k == 'default':
            s['d'] = draw(st.sampled_from(
                ['SI', 'cgs', {'length': 'ft', 'mass': 'lb'}, {'time': 'h'}, {'mass': 'm'},
                 {'temperature': 'degF', 'length': 'um'}, {'current': 'mA', 'information': 'byte'}]))
        else:
            s['on'] = draw(st.booleans())
        steps.append(s)
    return {'e': entries, 's': steps}


def build(s, extra):
    if s['how'] == 'unit':
        return unit(s['e'][0][0]), s['e']
    if s['how'] == 'quantity':
        return unit_quantity(s['e']), s['e']
    n = fresh()
    if s['how'] == 'compound':
        text = expr_text(s['e'])
        u = pq.CompoundUnit(text)
        n = u.name
        if n in GOLD:
            n = u.name
        EXTRA[n] = (si_factor(s['e']), si_dims(s['e']), u)
    else:
        u = pq.UnitQuantity(n, s['x'] * unit_quantity(s['e']))
        EXTRA[n] = (s['x'] * si_factor(s['e']), si_dims(s['e']), u)
    return u, [[n, 1]]


def check(s, ev):
    try:
        _check(s, ev)
    finally:
        EXTRA.clear()


def _check(s, ev):
    pool = []
    for e in s['e']:
        if not 1e-60 < abs(si_factor(e['e'])) < 1e60:
            return
        pool.append(build(e, EXTRA))
    model = []
    qmod.PREFERRED = now = []
    if pool:
        qmod.PREFERRED = now = [u for u, _ in pool]
        model = list(pool)
    for step in s['s']:
        k = step['k']
        if k == 'list':
            model = [pool[i % len(pool)] for i in step['i']] if pool else []
            qmod.PREFERRED = now = [u for u, _ in model]
        elif k == 'edit':
            x = [pool[i % len(pool)] for i in step['i']] if pool else []
            if step['edit'] == 'append' and x:
                now.append(x[0][0])
                model.append(x[0])
            elif step['edit'] == 'insert' and x:
                now.insert(0, x[0][0])
                model.insert(0, x[0])
            elif step['edit'] == 'pop' and now:
                now.pop(0)
                model.pop(0)
            elif step['edit'] == 'reverse':
                now.reverse()
                model.reverse()
            elif step['edit'] == 'clear':
                now[:] = []
                model[:] = []
            elif step['edit'] == 'extend':
                now.extend(i[0] for i in x)
                model.extend(x)
        elif k == 'default':
            d = step['d']
            raises(lambda: pq.set_default_units(d) if isinstance(d, str) else pq.set_default_units(**d))
        elif k == 'unicode':
            pq.markup.config.use_unicode = step['on']
        else:
            ask(step, now, model, ev)
        ev.tag(k)


def ask(step, now, model, ev):
    # the names of compound units depend on the notation
    uni, pq.markup.config.use_unicode = pq.markup.config.use_unicode, False
    e = step['q']['u']
    a = arr(step['q']['a'])
    if step['kind'] == 'unit' and len(e) == 1 and e[0][1] == 1:
        q, a = unit(e[0][0]), np.array(1.0)
    elif step['kind'] == 'uq':
        a = a.astype('f8')
        q = UQ(a, dimensionality(e), np.full(a.shape, 0.5))
    else:
        q = Quantity(a, dimensionality(e))
    before = snap(q)
    fit = [x for x in model if compatible(x[1], e)]
    pq.markup.config.use_unicode = uni
    f = {'rescale': lambda: q.rescale(), 'none': lambda: q.rescale(None),
         'rescale_preferred': lambda: q.rescale_preferred()}[step['how']]
    if not fit:
        must_raise('without a preferred unit', f)
        ev.nt()
        ev.tag('nothing fits')
    else:
        r = f()
    pq.markup.config.use_unicode = False
    if fit:
        u, x = fit[0]
        g = ratio(e, x)
        want_unit(r, x, 'preferred')
        if np.shares_memory(np.asarray(r), np.asarray(q)) or isinstance(q, UQ) and \
                np.shares_memory(np.asarray(r.uncertainty), np.asarray(q.uncertainty)):
            fail('the result shares the memory of the quantity')
        if 1e-30 < abs(g) < 1e30:
            want(mag(r), a * g, tol(a.dtype), what='preferred')
            if isinstance(q, UQ):
                if type(r) is not UQ:
                    fail('is a', type(r))
                want(mag(r.uncertainty), 0.5 * np.full(a.shape, abs(g)), 1e-10, what='uncertainty')
                want_unit(r.uncertainty, x, 'uncertainty')
        ev.nt(merge(x) != merge(e))
        ev.tag('%d fit' % min(len(fit), 3))
    if snap(q) != before:
        fail('the quantity has changed', before, snap(q))
    if qmod.PREFERRED is not now or len(now) != len(model) or \
            any(i is not j[0] for i, j in zip(now, model)):
        fail('the list has changed')
    pq.markup.config.use_unicode = uni


SUBS = [Sub('histories', check, histories, quick=2400)]
