"""User-defined and compound units convert according to their definitions"""
import copy
import pickle

from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case defines up to six units, each from a number times an expression of predefined,
compound, constant and previously defined units (as product, text, unit, plain number or Quantity;
of all unit classes; with symbols and aliases), then converts expressions of them to partially or
fully expanded ones, through text, objects and arithmetic, under random default units. A second
kind builds compound units and combines and converts them, a third new base units and units defined from them. Oracle: the SI factor implied by the
chain of definitions. Non-trivial: a conversion which involves a defined or compound unit."""

ASSUMPTIONS = ['definitions are scalar and positive or negative, not zero']

X = st.one_of(st.sampled_from([1, 2, 3, 12, 0.5, 1e3, 1e-3, 2.54, 60, -1, -2.5]),
              st.integers(1, 999).map(lambda i: i / 8))


@st.composite
def towers(draw):
    k = draw(st.integers(1, 6))
    defs = []
    for i in range(k):
        names = [gen.unit_name, gen.unit_name]
        if i:
            u = st.integers(0, i - 1).map(lambda j: 'U%d' % j)
            names += [u, u, u]
        x = draw(X)
        e = draw(gen.expr(min_units=0, names=st.one_of(names),
                          exps=st.sampled_from([1, 1, 1, -1, 2, -2, 0.5] if x > 0 else [1, -1])))
        defs.append({'x': x, 'e': e, 'how': draw(st.sampled_from(
            ['product', 'product', 'text', 'quantity', 'dim', 'unit', 'uncertain', 'int'])),
            'kind': draw(st.sampled_from(['UnitQuantity', 'UnitQuantity', 'UnitQuantity', 'UnitConstant',
                                          'own'])),
            'symbol': draw(st.sampled_from([False, False, True, True, 'shared', 'shared', 'like'])),
            'aliases': draw(st.integers(0, 2)),
            'unicode': draw(st.booleans())})
    uses = []
    for _ in range(draw(st.integers(1, 4))):
        n = st.one_of(st.integers(0, k - 1).map(lambda j: 'U%d' % j),
                      st.integers(0, k - 1).map(lambda j: 'U%d' % j), gen.unit_name)
        e = draw(gen.expr(min_units=1, names=n, exps=st.sampled_from([1, 1, 1, -1, 2, -2, 3])))
        uses.append({'e': e, 'expand': draw(st.lists(st.integers(0, 5), max_size=6)),
                     'base': draw(st.integers(0, 2)) == 0,
                     'a': draw(gen.array(dtypes=['f8', 'f8', 'f4', 'i8'], specials=False)),
                     'label': draw(st.integers(0, 3)), 'how': draw(st.sampled_from(
                         ['dim', 'text', 'product'])),
                     'to': draw(st.sampled_from(['dim', 'text', 'quantity'])),
                     'back': draw(st.booleans())})
    return {'d': defs, 'u': uses, 'def': draw(st.sampled_from(
        [None, None, 'cgs', {'length': 'ft', 'mass': 'lb'}, {'time': 'h', 'current': 'mA'}])),
        'default_user': draw(st.booleans())}


OWN = {}
for _c, _n in (('UnitMass', 'kg'), ('UnitLength', 'm'), ('UnitTime', 's'), ('UnitCurrent', 'A'),
               ('UnitLuminousIntensity', 'cd'), ('UnitSubstance', 'mol'),
               ('UnitTemperature', 'K'), ('UnitInformation', 'bit')):
    OWN[((_n, frac(1)),)] = _c


def rename(e, names):
    return [[names.get(n, n), x] for n, x in e]


def define(d, names, i):
    """Returns False where the numbers are beyond what floats can do"""
    e = rename(d['e'], names)
    f, dims = si_factor(e) * d['x'], si_dims(e)
    if isinstance(f, complex) or not 1e-30 < abs(f) < 1e30:
        return False
    x, how = d['x'], d['how']
    if how == 'int' and not isinstance(x, int):
        how = 'product'
    if not e and how in ('product', 'int'):
        q = x
    elif how == 'unit' and len(e) == 1 and e[0][1] == 1:
        q, f = unit(e[0][0]), f / x
    elif how == 'text':
        q = Quantity(x, spell_labels(e))
    elif how == 'dim':
        q = Quantity(x, Dimensionality({unit(n): k for n, k in merge(e).items()}))
    elif how == 'uncertain':
        q = UQ(x, unit_quantity(e).dimensionality, 0.1)
    elif how == 'quantity':
        q = Quantity(x, unit_quantity(e))
    else:
        q = x * unit_quantity(e)
    n = fresh()
    kind = d['kind']
    symbol = fresh('sy') if d['symbol'] else None
    if kind == 'UnitConstant' and symbol and d['symbol'] is not True:
        # constants are not registered for text, they may share a symbol
        symbol = 'Y0' if d['symbol'] == 'shared' else unit(e[0][0]).symbol if e else 'm'
    aliases = [fresh('al') for _ in range(d['aliases'])]
    if kind == 'own':
        kind = OWN.get(dims_key(dims), 'UnitQuantity')
    kw = {'u_symbol': ('Y' if d['symbol'] == 'shared' else symbol) + 'µ'} if d['unicode'] and symbol else {}
    u = getattr(pq, kind)(n, q, symbol=symbol, aliases=aliases, **kw)
    EXTRA[n] = (f, dims, u)
    names['U%d' % i] = n
    LABELS[n] = [n] + ([symbol] if symbol else []) + aliases if kind != 'UnitConstant' else []
    if u.name != n or (symbol and u.symbol != symbol):
        fail('the unit is called', u.name, u.symbol)
    want(mag((1.0 * u).simplified.rescale(base_of(dims))), f, 1e-9, what='a new unit')
    want(mag((1.0 * u.definition).rescale(base_of(dims))), f, 1e-9, what='definition')
    return True


LABELS = {}


def spell_labels(e, i=0):
    out = []
    for n, k in e:
        ls = LABELS.get(n) or [label(n)]
        s = ls[i % len(ls)]
        if not s.isidentifier():
            s = n
        out.append('%s**%s' % (s, fmt_exp(k)) if k != 1 else s)
    return '*'.join(out) or 'dimensionless'


def base_of(dims):
    return dimensionality([[BASE_OF[k], float(v)] for k, v in dims.items()])


def text_ok(e):
    return all(n in GOLD or LABELS.get(n) for n, _ in e)


def check_tower(s, ev):
    try:
        _tower(s, ev)
    finally:
        EXTRA.clear()
        LABELS.clear()


def definition(d, names):
    """[factor, expression] of what a unit was defined from"""
    e = rename(d['e'], names)
    if d['how'] == 'unit' and len(e) == 1 and e[0][1] == 1:
        return 1.0, e
    return d['x'], e


def _tower(s, ev):
    names = {}
    for i, d in enumerate(s['d']):
        if d['how'] == 'text' and not text_ok(rename(d['e'], names)):
            d = {**d, 'how': 'product'}
        if not define(d, names, i):
            return
    if s['default_user']:
        # a user-defined base unit as the default
        for n, (f, dims, u) in EXTRA.items():
            if type(u).__name__ in OWN.values() and f > 0:
                type(u).set_default_unit(u)
    elif s['def']:
        raises(lambda: pq.set_default_units(s['def']) if isinstance(s['def'], str)
               else pq.set_default_units(**s['def']))
    for use in s['u']:
        e = [list(x) for x in merge(rename(use['e'], names)).items()]
        to = e
        for j in use['expand']:
            # replace a defined unit by its definition
            n = names.get('U%d' % (j % len(s['d'])))
            k = dict(map(tuple, to)).get(n)
            if k:
                _, de = definition(s['d'][j % len(s['d'])], names)
                to = [list(x) for x in merge([x for x in to if x[0] != n] +
                                             [[m, y * k] for m, y in de]).items()]
        if use['base']:
            to = [[BASE_OF[k], float(v)] for k, v in si_dims(e).items()]
        f = si_factor(e)
        t = si_factor(to)
        if isinstance(f, complex) or isinstance(t, complex) or \
                not (1e-60 < abs(f) < 1e60 and 1e-60 < abs(t) < 1e60):
            continue
        a = arr(use['a'])
        if use['how'] == 'text' and text_ok(e):
            q = Quantity(a, spell_labels(e, use['label']))
        elif use['how'] == 'product':
            q = a * unit_quantity(e)
        else:
            q = Quantity(a, dimensionality(e))
        want_unit(q, e, 'a quantity')
        want(mag(q), a, 0, what='data')
        if use['to'] == 'text' and text_ok(to):
            target = spell_labels(to, use['label'])
        elif use['to'] == 'quantity':
            target = unit_quantity(to)
        else:
            target = dimensionality(to)
        g = f / t
        if a.dtype == 'f4' and not 1e-20 < abs(g) < 1e20:
            continue
        r = q.rescale(target)
        want_unit(r, to, 'conversion')
        want(mag(r), a * g, tol(a.dtype) * 10, what='conversion of %s to %s' % (e, to))
        # sums, comparisons and simplification use the same factor
        a8 = a.astype('f8')
        q8 = Quantity(a8, dimensionality(e))
        x = q8.simplified
        if not set(unit_of(x)) <= {c.get_default_unit().name for c in BASE_CLASSES
                                   if c.get_default_unit() is not None}:
            fail('simplified to', x.dimensionality)
        want(mag(x.rescale(base_of(si_dims(e)))), a8 * f, 1e-9, what='simplified')
        z = q8 + Quantity(a8, dimensionality(to))
        want_unit(z, e, 'sum')
        want(mag(z), a8 + a8 / g, 1e-9, atol=1e-12 * float(np.abs(a8).max() if a8.size else 0), what='sum')
        z = q8 * q8
        want_unit(z, power(e, 2), 'square')
        z = 1 / Quantity(np.ones(3), dimensionality(e))
        want_unit(z, power(e, -1), 'inverse')
        z.units = dimensionality(power(to, -1))
        want(mag(z), np.ones(3) / g, 1e-9, what='the inverse in place')
        if use['back']:
            want(mag(r.rescale(q.units)), a, tol(a.dtype) * 20, what='and back')
            v = pickle.loads(pickle.dumps(q))
            want(mag(v.rescale(target)), a * g, tol(a.dtype) * 10, what='conversion of a pickle')
            want_unit(copy.deepcopy(q), e, 'copy')
        # a unit of another dimension does not fit
        must_raise('conversion to another dimension', q.rescale,
                   dimensionality(to + [['mole' if 'mole' not in dict(map(tuple, to)) else 'candela', 1]]))
        ev.tag('depth %d' % len(s['d']))
        ev.nt(e != to)


# ---------------------------------------------------------------- compound units

@st.composite
def compounds(draw):
    cs = []
    for _ in range(draw(st.integers(1, 3))):
        cs.append({'e': draw(gen.expr(min_units=1, names=gen.unit_name,
                                      exps=st.sampled_from([1, 1, -1, 2, -2, 3, 0.5]))),
                   'div': draw(st.sampled_from([False, True, 'nested']))})
    e = [['C%d' % draw(st.integers(0, len(cs) - 1)), draw(st.sampled_from([1, 1, 2, -1, -2, 0.5]))]
         for _ in range(draw(st.integers(1, 3)))]
    e += draw(gen.expr(max_units=2))
    return {'c': cs, 'e': e, 'a': draw(gen.array(dtypes=['f8', 'f8', 'f4', 'i8'], specials=False)),
            'b': draw(gen.array(dtypes=['f8'], shapes=[(), (3,)], nonzero=True, specials=False)),
            'expand': draw(st.lists(st.booleans(), min_size=3, max_size=3)),
            'on_top': draw(st.booleans()), 'order': draw(st.permutations(range(6))),
            'defaults': draw(st.sampled_from([None, 'cgs', {'length': 'ft', 'time': 'h'}]))}


def divided(e):
    pos = [x for x in e if x[1] > 0]
    neg = [[n, -k] for n, k in e if k < 0]
    return '/'.join([expr_text(pos) if pos else '1'] + [expr_text([x]) for x in neg])


def check_compound(s, ev):
    try:
        _compound(s, ev)
    finally:
        EXTRA.clear()


def _compound(s, ev):
    names = {}
    inner = {}
    for i, c in enumerate(s['c']):
        e = [list(x) for x in merge(c['e']).items()]
        if not 1e-60 < abs(si_factor(e)) < 1e60:
            return
        t = expr_text(e)
        if c['div'] == 'nested' and len(e) > 1:
            # the first one, divided by the inverse of the others
            t = '%s/(%s)' % (expr_text(e[:1]), divided([[n, -k] for n, k in e[1:]]))
        elif c['div']:
            t = divided(e)
        u = pq.CompoundUnit(t)
        if u.name != '(%s)' % t:
            fail('the compound unit', t, 'is called', u.name)
        n = u.name
        EXTRA[n] = (si_factor(e), si_dims(e), u)
        names['C%d' % i] = n
        inner[n] = e
        v = pq.CompoundUnit(t)
        if (1 * u).dimensionality != (1 * v).dimensionality or hash(u) != hash(v):
            fail('two compound units of', t, 'differ')
        want_unit(u * v, [[n, 2]], 'the product of two')
        want(mag((1.0 * u).rescale(dimensionality(e))), 1.0, 1e-12, what='compound')
        want(mag(Quantity(1.0, dimensionality(e)).rescale(u)), 1.0, 1e-12, what='compound')
        if s['on_top']:
            w = pq.UnitQuantity(fresh(), 3 * u)
            want(mag((2.0 * w).rescale(dimensionality(e))), 6.0, 1e-12, what='defined from a compound unit')
    e = [list(x) for x in merge(rename(s['e'], names)).items()]
    f = si_factor(e)
    if not 1e-60 < abs(f) < 1e60:
        return
    d = s['defaults']
    if d:
        pq.set_default_units(d) if isinstance(d, str) else pq.set_default_units(**d)
    # arithmetic in any order keeps the symbols
    a, b = arr(s['a']), arr(s['b'])
    q = a
    for i in s['order']:
        if i < len(e):
            n, k = e[i]
            q = q * unit(n) ** (int(k) if float(k).is_integer() else k)
    for n, k in e[6:]:
        q = q * unit(n) ** k
    if not e:
        q = q * pq.dimensionless
    want_unit(q, e, 'the product')
    to = []
    for (n, k), x in zip(e, s['expand'] + [True] * 9):
        to += power(inner[n], k) if n in inner and x else [[n, k]]
    to = [list(x) for x in merge(to).items()]
    if a.dtype == 'f4' and not 1e-20 < abs(f / si_factor(to)) < 1e20:
        return
    r = q.rescale(dimensionality(to))
    want_unit(r, to, 'conversion')
    want(mag(r), a * (f / si_factor(to)), tol(a.dtype) * 10, what='conversion')
    back = r.rescale(dimensionality(e))
    want_unit(back, e, 'and back')
    want(mag(back), a, tol(a.dtype) * 10, what='and back')
    x = Quantity(a.astype('f8'), dimensionality(e)).simplified
    want(mag(x.rescale(base_of(si_dims(e)))), a.astype('f8') * f, 1e-9, what='simplified')
    # compared and added like the expression
    p = Quantity(b, dimensionality(e))
    y = Quantity(b, dimensionality(to))
    z = p + y
    want_unit(z, e, 'sum')
    want(mag(z), b + b * si_factor(to) / f, 1e-9, atol=1e-9 * float(np.abs(b).max()), what='sum')
    z = p / y
    want_unit(z, times(e, to, -1), 'quotient')
    want(mag(z.simplified), np.ones(b.shape) * f / si_factor(to), 1e-9, what='quotient')
    t = str(p.dimensionality)
    for n, k in e:
        if n in inner and n not in t:
            fail(n, 'does not appear in', t)
    v = pickle.loads(pickle.dumps(p))
    want_unit(v, e, 'pickle')
    want(mag(v.rescale(dimensionality(to))), b * f / si_factor(to), 1e-9, what='a pickle')
    ev.nt(any(n in inner for n, _ in e))
    ev.tag('expanded' if to != e else 'kept')


# ---------------------------------------------------------------- new base units

@st.composite
def bases(draw):
    k = draw(st.integers(1, 3))
    b = [{'symbol': draw(st.booleans()), 'alias': draw(st.booleans()), 'unicode': draw(st.booleans())}
         for _ in range(k)]
    name = st.one_of(st.integers(0, k - 1).map(lambda j: 'B%d' % j), st.integers(0, k - 1).map(lambda j: 'B%d' % j),
                     gen.unit_name)
    d = []
    for i in range(draw(st.integers(0, 3))):
        names = [name] + [st.integers(0, i - 1).map(lambda j: 'U%d' % j)] * bool(i)
        d.append({'x': draw(X.filter(lambda x: x > 0)), 'text': draw(st.booleans()),
                  'e': draw(gen.expr(min_units=1, names=st.one_of(names), exps=st.sampled_from([1, 1, 1, -1, 2, -2, 0.5])))})
    names = st.one_of([name] + [st.integers(0, len(d) - 1).map(lambda j: 'U%d' % j)] * bool(d))
    return {'b': b, 'd': d, 'e': draw(gen.expr(min_units=1, names=names, exps=st.sampled_from([1, 1, 1, -1, 2, -2, 3, 0.5]))),
            'expand': draw(st.booleans()), 'text': draw(st.booleans()),
            'a': draw(gen.array(dtypes=['f8', 'f8', 'f4', 'i8'], specials=False)),
            'def': draw(st.sampled_from([None, None, 'cgs', {'length': 'ft', 'mass': 'lb'}]))}


def check_bases(s, ev):
    try:
        _bases(s, ev)
    finally:
        EXTRA.clear()
        LABELS.clear()


def _bases(s, ev):
    names, expand = {}, {}
    for i, b in enumerate(s['b']):
        n = fresh('base')
        symbol, aliases = (fresh('bs') if b['symbol'] else None), ([fresh('ba')] if b['alias'] else [])
        kw = {'u_symbol': symbol + 'µ'} if symbol and b['unicode'] else {}
        u = pq.UnitQuantity(n, symbol=symbol, aliases=aliases, **kw)
        names['B%d' % i] = n
        EXTRA[n] = (1.0, {n: frac(1)}, u)
        LABELS[n] = [n] + [symbol] * bool(symbol) + aliases
        if u.definition is not u or u.name != n or (symbol and u.symbol != symbol):
            fail('the new base unit', repr(u), 'is defined as', u.definition)
        x = u.simplified
        if unit_of(x) != {n: 1.0} or mag(x) != 1 or isinstance(x, pq.UnitQuantity):
            fail('the base unit', u, 'is simplified to', repr(x))
        x *= 3
        if mag(u.simplified) != 1 or mag(1 * u) != 1:
            fail('changing the simplified form changed the unit', u)
    for i, d in enumerate(s['d']):
        e = rename(d['e'], names)
        f = si_factor(e) * d['x']
        if not 1e-30 < f < 1e30:
            return
        n = fresh('der')
        u = pq.UnitQuantity(n, Quantity(d['x'], spell_labels(e)) if d['text'] else d['x'] * unit_quantity(e))
        names['U%d' % i] = n
        expand[n] = e
        EXTRA[n] = (f, si_dims(e), u)
        LABELS[n] = [n]
    e = [list(x) for x in merge(rename(s['e'], names)).items()]
    f = si_factor(e)
    if not 1e-60 < f < 1e60:
        return
    to = e
    for _ in range(4):
        if s['expand']:
            to = [list(x) for x in merge([[m, y * (k if n in expand else 1)] for n, k in to
                                          for m, y in expand.get(n, [[n, k]])]).items()]
    dims = si_dims(e)
    base = [[n if n in EXTRA else BASE_OF[n], float(k)] for n, k in dims.items()]
    if s['def']:
        pq.set_default_units(s['def']) if isinstance(s['def'], str) else pq.set_default_units(**s['def'])
    a = arr(s['a'])
    q = Quantity(a, spell_labels(e, 1) if s['text'] else dimensionality(e))
    want_unit(q, e, 'a quantity')
    for target in (to, base):
        t = si_factor(target)
        if not 1e-60 < t < 1e60 or a.dtype == 'f4' and not 1e-20 < f / t < 1e20:
            continue
        r = q.rescale(spell_labels(target) if s['text'] else dimensionality(target))
        want_unit(r, target, 'conversion')
        want(mag(r), a * (f / t), tol(a.dtype) * 10, what='conversion of %s to %s' % (e, target))
        z = Quantity(a.astype('f8'), dimensionality(e)) + Quantity(a.astype('f8'), dimensionality(target))
        want_unit(z, e, 'sum')
        want(mag(z), a.astype('f8') * (1 + t / f), 1e-9, what='sum')
    x = Quantity(a.astype('f8'), dimensionality(e)).simplified
    allowed = {c.get_default_unit().name for c in BASE_CLASSES if c.get_default_unit() is not None} | set(names.values())
    got = unit_of(x)
    if not set(got) <= allowed or {n: k for n, k in got.items() if n in EXTRA} != \
            {n: float(k) for n, k in dims.items() if n in EXTRA}:
        fail(e, 'is simplified to', x.dimensionality)
    want(mag(x.rescale(dimensionality(base))), a.astype('f8') * f, 1e-9, what='simplified')
    # nothing but the units defined from it is convertible to a base unit
    other = fresh('base')
    others = [pq.UnitQuantity(other), pq.m, pq.dimensionless, 3.0]
    b0 = EXTRA[names['B0']][2]
    for o in others:
        for op in ('+', '-', '<', '>=') if isinstance(o, Quantity) else '+-':
            must_raise('%s of a new base unit and %s' % (op, o), OPS[op], 2.0 * b0, o * np.ones(2))
        if np.any(2.0 * b0 == o * np.ones(2)):
            fail('the base unit', b0, 'equals', o)
    for o in others[:3]:
        must_raise('conversion to another base unit', (2.0 * b0).rescale, o)
        must_raise('conversion to a new base unit', (2.0 * o).rescale, b0)
    no_units((3.0 * b0) / b0, 'the ratio')
    v = pickle.loads(pickle.dumps(q))
    want_unit(v, e, 'pickle')
    want_unit(copy.deepcopy(q), e, 'copy')
    if v.dimensionality != q.dimensionality or (v * q).dimensionality != q.dimensionality ** 2:
        fail('the unit of the pickle differs', v.dimensionality)
    ev.tag('%d bases' % len(s['b']), '%d defined' % len(s['d']))
    ev.nt(any(n in EXTRA for n, _ in e))


SUBS = [
    Sub('new base units', check_bases, bases, quick=900),
    Sub('towers', check_tower, towers, quick=1800),
    Sub('compounds', check_compound, compounds, quick=1500),
]
