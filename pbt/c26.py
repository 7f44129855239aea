"""Wrapped functions see base units and return the declared ones"""
from hypothesis import strategies as st

from quantities.decorators import quantitizer

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is a numeric function of two arguments (with one result, a tuple or a list of results) wrapped by
quantities.decorators.quantitizer, two arguments (quantities over the whole registry, units, plain numbers and
arrays, passed by position or keyword), a declaration of the units of its results (any compatible unit, or none) and a
selection of default units. Oracle: the magnitudes the function sees are those of the model of units in the
selected base units; the results are the physical amounts in the declared units, or as the function gave them. Arguments stay as they were.
A second family calls functions of up to seven arguments of every kind (quantities, uncertain ones, subclasses, units,
numbers, arrays, texts, containers), positional and keyword, with more or fewer declarations than results.
Non-trivial: an argument and a declaration with units, not empty; two arguments with units."""

DEFAULTS = {'SI': {}, 'cgs': {'meter': 'centimeter', 'kilogram': 'gram'},
            'own': {'meter': 'kilometer', 'second': 'hour', 'kilogram': 'pound'}}


def select(d):
    if d == 'own':
        pq.set_default_units(length='km', time=pq.hour, mass='lb')
    else:
        pq.set_default_units(d)


def base_factor(expr, d):
    f = si_factor(expr)
    for k, e in si_dims(expr).items():
        n = BASE_OF[k]
        f /= si_factor([[DEFAULTS[d].get(n, n), 1]]) ** float(e)
    return f


RESULTS = {
    'product': (lambda a, b: a * b, lambda u, v: times(u, v)),
    'quotient': (lambda a, b: a / b, lambda u, v: times(u, power(v, -1))),
    'square': (lambda a, b: a * a, lambda u, v: power(u, 2)),
    'first': (lambda a, b: a + 0 * b * 0, lambda u, v: u),
    'second': (lambda a, b: 3 * b, lambda u, v: v),
    'mean': (lambda a, b: np.asarray(a).mean(), lambda u, v: u),
    'inverse': (lambda a, b: 1 / (a * b), lambda u, v: power(times(u, v), -1)),
}


@st.composite
def calls(draw):
    a = {'q': draw(gen.quantity(dtypes=['f8', 'f8', 'i8'], values=gen.positive, specials=False, nonzero=True,
                                bare_units=True, shapes=gen.FULL_SHAPES))}
    if draw(st.integers(0, 4)) == 0:
        b = {'p': draw(gen.plain(dtypes=['f8'], shape=(), values=gen.positive, specials=False))}
    else:
        b = {'q': draw(gen.quantity(dtypes=['f8'], shape=(), values=gen.positive, specials=False, bare_units=True))}
    u, v = q_expr(a['q']), q_expr(b['q']) if 'q' in b else []
    form = draw(st.sampled_from(['single', 'tuple', 'tuple', 'list']))
    names = draw(st.lists(st.sampled_from(sorted(RESULTS)), min_size=1, max_size=1 if form == 'single' else 3))
    targets = []
    for n in names:
        k = draw(st.integers(0, 6))
        e = RESULTS[n][1](u, v)
        targets.append(None if k == 0 else draw(gen.compatible_expr(e)))
    return {'a': a, 'b': b, 'form': form, 'f': names, 't': targets, 'def': draw(st.sampled_from(sorted(DEFAULTS))),
         'kw': draw(st.sampled_from(['', 'b', 'ab'])), 'scale': draw(st.sampled_from([1.0, 2.5, 'dim']))}


def check_calls(s, ev):
    qa = qty(s['a']['q'])
    u = q_expr(s['a']['q'])
    a = q_arr(s['a']['q'])
    if 'q' in s['b']:
        qb, v, b = qty(s['b']['q']), q_expr(s['b']['q']), q_arr(s['b']['q'])
    else:
        qb, v = plain(s['b']['p']), []
        b = np.asarray(qb)
    fa, fb = base_factor(u, s['def']), base_factor(v, s['def'])
    exprs = [RESULTS[n][1](u, v) for n in s['f']]
    for e in [u, v] + exprs + [t for t in s['t'] if t]:
        if not (1e-60 < si_factor(e) < 1e60 and 1e-60 < base_factor(e, s['def']) < 1e60):
            return
    seen, asked = [], []

    def function(a, b):
        """what it does"""
        seen.append((a, b))
        r = [RESULTS[n][0](a, b) for n in s['f']]
        return r[0] if s['form'] == 'single' else tuple(r) if s['form'] == 'tuple' else r

    def declare(a, b):
        asked.append(snap(a) == snap(qa) and snap(b) == snap(qb))
        r = tuple(1.0 if t is None else
                  Quantity(s['scale'] if s['scale'] != 'dim' else 1.0, dimensionality(t)) for t in s['t'])
        return r[0] if s['form'] == 'single' else r if s['form'] == 'tuple' else list(r)

    wrapped = quantitizer(function, declare)
    select(s['def'])
    before = snap(qa), snap(qb), defaults_now()
    kw = {'b': qb} if s['kw'] == 'b' else {'a': qa, 'b': qb} if s['kw'] else {}
    args = () if s['kw'] == 'ab' else (qa,) if s['kw'] else (qa, qb)
    r = wrapped(*args, **kw)
    if (snap(qa), snap(qb), defaults_now()) != before:
        fail('the arguments changed')
    if not all(asked) or not asked:
        fail('the handler was not given the arguments')
    if len(seen) != 1:
        fail('the function was called', len(seen), 'times')
    x, y = seen[0]
    plain_data(x, 'first argument')
    plain_data(y, 'second argument')
    want(x, a * fa, 1e-11, what='first argument')
    want(y, b * fb, 1e-11, what='second argument')
    if s['form'] == 'single':
        r = (r,)
    elif not isinstance(r, (tuple, list)):
        fail('result is', type(r))
    if len(r) != len(s['f']):
        fail('number of results', len(r))
    for z, n, e, t in zip(r, s['f'], exprs, s['t']):
        exp = RESULTS[n][0](a * fa, b * fb)
        if t is None:
            plain_data(z, 'undeclared result')
            want(z, exp, 1e-10, what=n)
        else:
            want_unit(z, t, n)
            want(mag(z), np.asarray(RESULTS[n][0](a * si_factor(u), b * si_factor(v))) / si_factor(t), 1e-9, what=n)
    ev.tag(s['form'], s['def'], 'keyword' if s['kw'] else 'position', *s['f'])
    ev.nt(merge(u) and any(s['t']))


@st.composite
def many(draw):
    items = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(['q', 'q', 'q', 'q', 'unit', 'uq', 'sub', 'plain', 'other']))
        it = {'k': k, 'kw': draw(st.booleans())}
        if k in ('q', 'uq', 'sub'):
            it['q'] = draw(gen.quantity(dtypes=['f8', 'f8', 'i8', 'f4'], values=gen.positive, specials=False))
        elif k == 'unit':
            it['n'] = draw(gen.unit_name)
        elif k == 'plain':
            it['p'] = draw(gen.plain(dtypes=['f8', 'i8'], values=gen.positive, specials=False))
        else:
            it['o'] = draw(st.sampled_from(['text', None, True, 'list', 'dict', 'm', 'qlist']))
        items.append(it)
    return {'i': items, 'def': draw(st.sampled_from(sorted(DEFAULTS))), 'form': draw(st.sampled_from(['tuple', 'list'])),
            'short': draw(st.integers(-2, 2)), 'declare': draw(st.lists(st.booleans(), min_size=7, max_size=7)),
            'order': draw(st.permutations(range(7)))}


class Own(Quantity):
    pass


def check_many(s, ev):
    """any number of arguments of every kind; the function gives them back"""
    values, units, mags = [], [], []
    for it in s['i']:
        k = it['k']
        if k in ('q', 'uq', 'sub'):
            e, a = q_expr(it['q']), q_arr(it['q'])
            if a.dtype.itemsize < 8:
                a = a.astype('f8')
            x = Quantity(a.astype('f8'), dimensionality(e))
            x = x.view(Own) if k == 'sub' else UQ(a.astype('f8'), dimensionality(e)) if k == 'uq' else x
        elif k == 'unit':
            e, a, x = [[it['n'], 1]], np.array(1.0), unit(it['n'])
        elif k == 'plain':
            x = plain(it['p'])
            e, a = None, None
        else:
            x = {'list': [1.0, 2.0], 'dict': {'a': 1}, 'qlist': [1 * pq.m]}.get(it['o'], it['o']) \
                if isinstance(it['o'], str) else it['o']
            e, a = None, None
        if e is not None and not (1e-60 < si_factor(e) < 1e60 and 1e-60 < base_factor(e, s['def']) < 1e60):
            return
        values.append(x)
        units.append(e)
        mags.append(a)
    names = ['p%d' % i for i in range(len(values))]
    # positional ones first
    pos = [i for i, it in enumerate(s['i']) if not it['kw']]
    kws = [i for i in s['order'] if i < len(values) and s['i'][i]['kw']]
    seen = []

    def function(*args, **kwargs):
        seen.append((args, kwargs))
        r = list(args) + [kwargs[names[i]] for i in sorted(kws)]
        return tuple(r) if s['form'] == 'tuple' else r

    def declare(*args, **kwargs):
        r = list(args) + [kwargs[names[i]] for i in sorted(kws)]
        n = max(0, len(r) + s['short'])
        return tuple(x.units if isinstance(x, Quantity) and d else None for x, d in zip(r + r, s['declare'] + [0] * 9))[:n]

    wrapped = quantitizer(function, declare)
    select(s['def'])
    before = [snap(x) if isinstance(x, Quantity) else None for x in values], defaults_now()
    kw = {names[i]: values[i] for i in kws}
    r = wrapped(*[values[i] for i in pos], **kw)
    if ([snap(x) if isinstance(x, Quantity) else None for x in values], defaults_now()) != before:
        fail('the arguments changed')
    if len(kw) != len(kws) or any(kw[names[i]] is not values[i] for i in kws):
        fail('the keywords of the caller changed')
    if len(seen) != 1:
        fail('the function was called', len(seen), 'times')
    args, kwargs = seen[0]
    if len(args) != len(pos) or sorted(kwargs) != sorted(kw):
        fail('the function was given', len(args), 'and', sorted(kwargs))
    order = pos + sorted(kws)
    if not isinstance(r, (tuple, list)) or len(r) != len(order):
        fail('the result is', r)
    given = list(args) + [kwargs[names[i]] for i in sorted(kws)]
    n = max(0, len(order) + s['short'])
    for j, (i, x, z) in enumerate(zip(order, given, r)):
        e, what = units[i], 'argument %d of %s' % (i, s['i'][i]['k'])
        if e is None:
            if any(type(y) is not type(values[i]) or repr(y) != repr(values[i]) for y in (x, z)):
                fail(what, 'is not what was given')
            continue
        plain_data(x, what)
        want(x, mags[i] * base_factor(e, s['def']), 1e-11, what=what)
        if j < n and s['declare'][j]:
            want_unit(z, e, 'result of ' + what)
            want(mag(z), mags[i], 1e-10, what='result of ' + what)
        else:
            plain_data(z, 'undeclared result')
            want(z, mags[i] * base_factor(e, s['def']), 1e-11, what=what)
    ev.tag('%d positional' % min(len(pos), 3), '%d keywords' % min(len(kws), 3), s['def'], 'short %d' % s['short'])
    ev.nt(sum(bool(e and merge(e)) for e in units) > 1)


SUBS = [
    Sub('many', check_many, many, quick=1200),
    Sub('calls', check_calls, calls, quick=2400),
]
