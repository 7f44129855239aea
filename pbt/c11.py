"""Dimension expressions form an abelian group with equality and hashing"""
import copy

from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is a set of unit expressions (up to six units, exponents integer, dyadic
or zero after cancellation, as read from quantities, units, plain dicts and results of
arithmetic) with laws to check, a pair of almost equal expressions, or a history of plain
and in-place operations on a pool of expressions and the quantities they come from, or two expressions to put in order.
Oracle: dicts of unit names and exact exponents. Non-trivial: at least one unit."""

EXPS = st.sampled_from([1, 1, 1, 2, 3, -1, -1, -2, -3, 0.5, -0.5, 1.5, 0.25, -1.5, 10, 4, 7, -10,
                        -0.4375, 0.0625, -1.96875, 1 + 2.0 ** -9, -1 - 2.0 ** -9])


def exprs(min_units=0, max_units=4):
    return gen.expr(min_units=min_units, max_units=max_units, exps=EXPS)


MADE = ['dict', 'dict', 'quantity', 'ops', 'units', 'unit', 'text', 'array', 'copy', 'reversed',
        'uncertain', 'npint', 'power']


def make(e, how):
    """A Dimensionality for the expression, made in one of many ways"""
    e = [list(x) for x in merge(e).items()]
    if how == 'quantity':
        return Quantity(2.5, dimensionality(e)).dimensionality
    if how == 'ops':
        return (unit_quantity(e) * 3).dimensionality
    if how == 'units':
        return Quantity(1.0, dimensionality(e)).units.dimensionality
    if how == 'unit' and len(e) == 1 and e[0][1] == 1:
        return unit(e[0][0]).dimensionality
    if how == 'text':
        return Quantity(1.0, expr_text(e)).dimensionality
    if how == 'array':
        return (np.ones((2, 2)) * unit_quantity(e))[0].dimensionality
    if how == 'copy':
        return copy.copy(dimensionality(e))
    if how == 'reversed':
        return dimensionality(e[::-1])
    if how == 'uncertain':
        return UQ(1.0, dimensionality(e), 0.1).dimensionality
    if how == 'npint':
        return Dimensionality({unit(n): np.float64(x) for n, x in e})
    if how == 'power':
        return dimensionality(power(e, 2)) ** 0.5
    return dimensionality(e)


made = st.sampled_from(MADE)


def want_dim(d, e, what):
    if type(d) is not Dimensionality:
        fail(what, 'is a', type(d))
    w = {n: float(x) for n, x in merge(e).items()}
    got = names_of(d)
    if got != w:
        fail(what, 'is', got, 'instead of', w)


def want_same(d, e, what):
    """equal and hashed alike"""
    if not (d == e) or d != e or not (e == d) or hash(d) != hash(e):
        fail(what, d, 'and', e, 'are not equal')
    if {d: 1}.get(e) != 1 or len({d, e}) != 1:
        fail(what, 'not interchangeable as keys')


@st.composite
def laws(draw):
    return {'e': [draw(exprs()) for _ in range(3)], 'h': [draw(made) for _ in range(3)],
            'p': [draw(st.sampled_from([0, 1, -1, 2, 3, -2, 0.5, -0.5, 4, 1.5]))
                  for _ in range(2)], 'np': draw(st.booleans())}


def check_laws(s, ev):
    ea, eb, ec = s['e']
    a, b, c = [make(e, h) for e, h in zip(s['e'], s['h'])]
    p, r = s['p']
    if s['np']:
        p, r = np.float64(p), np.float64(r)
    before = [snap(x) for x in (a, b, c)]
    one = Dimensionality()

    def both(x, y, e, what):
        want_dim(x, e, what)
        want_dim(y, e, what)
        want_same(x, y, what)

    both(a * b, b * a, times(ea, eb), 'a*b')
    both((a * b) * c, a * (b * c), times(times(ea, eb), ec), 'a*b*c')
    both(a * b / b, a, ea, 'a*b/b')
    both(a / b, a * b ** -1, times(ea, eb, -1), 'a/b')
    both(a / b / c, a / (b * c), times(times(ea, eb, -1), ec, -1), 'a/b/c')
    both(a / a, one, [], 'a/a')
    both(a * one, a, ea, 'a*1')
    both(one / a, a ** -1, power(ea, -1), '1/a')
    both(a ** 1, a, ea, 'a**1')
    both(a ** 0, one, [], 'a**0')
    both((a * b) ** p, a ** p * b ** p, power(times(ea, eb), p), '(ab)**p')
    both((a ** p) ** r, a ** (p * r), power(ea, p * r), '(a**p)**r')
    both(a ** p * a ** r, a ** (p + r), power(ea, p + r), 'a**p*a**r')
    both(a + a, a, ea, 'a+a')
    both(a - a, a, ea, 'a-a')
    both(a.copy(), a, ea, 'copy')
    want_dim(a.simplified, [[BASE_OF[k], v] for k, v in si_dims(ea).items()], 'simplified')
    # results are new expressions
    for r_ in (a * b, a / b, a ** 1, a + a, a - a, a.copy(), a * one, a.simplified,
               copy.copy(a)):
        if r_ is a or r_ is one:
            fail('an operation returned its operand')
        r_.clear()
    for x, old in zip((a, b, c), before):
        if snap(x) != old:
            fail('an operand was changed')
    ev.tag(*s['h'])
    ev.nt(merge(ea) and merge(eb))


@st.composite
def near(draw):
    e = draw(exprs(min_units=1))
    how = draw(st.sampled_from(['same', 'same', 'exp', 'sign', 'unit', 'less', 'more', 'swap',
                                'shift', 'independent', 'invert', 'multiple']))
    f = [list(x) for x in e]
    i = draw(st.integers(0, len(f) - 1))
    if how == 'exp':
        f[i][1] = draw(EXPS)
    elif how == 'sign':
        f[i][1] = -f[i][1]
    elif how == 'unit':
        f[i][0] = draw(st.sampled_from(lib_class(f[i][0])))
    elif how == 'less':
        f.pop(i)
    elif how == 'more':
        f.append([draw(gen.unit_name), draw(EXPS)])
    elif how == 'swap':
        j = draw(st.integers(0, len(f) - 1))
        f[i][1], f[j][1] = f[j][1], f[i][1]
    elif how == 'shift':
        f[i][1] += draw(st.sampled_from([1, -1, 0.5, 2.0 ** -20, 2.0 ** -40]))
    elif how == 'independent':
        f = draw(exprs())
    elif how == 'invert':
        f = power(f, -1)
    elif how == 'multiple':
        f = power(f, 2)
    f = draw(st.permutations(f))
    return {'a': e, 'b': [list(x) for x in f], 'h': [draw(made), draw(made)]}


def lib_class(n):
    return CLASS.get(dims_key(dim(n)), [n])


def check_near(s, ev):
    ma, mb = merge(s['a']), merge(s['b'])
    if any(not x for x in list(ma.values()) + list(mb.values())):
        return
    h = [x if all(abs(y) < 100 for _, y in s[k]) else 'dict' for x, k in zip(s['h'], 'ab')]
    small = any(abs(y) % 0.25 for k in 'ab' for _, y in s[k])
    if small:
        h = ['dict' if x == 'text' else x for x in h]
    a, b = make(s['a'], h[0]), make(s['b'], h[1])
    want_dim(a, s['a'], 'a')
    want_dim(b, s['b'], 'b')
    if ma == mb:
        want_same(a, b, 'the same')
        a2 = a + b
        want_dim(a2, s['a'], 'a+b')
        want_dim(b - a, s['a'], 'b-a')
        for op in ('+=', '-='):
            c = a.copy()
            c = OPS[op](c, b)
            want_dim(c, s['a'], op)
    else:
        if a == b or not (a != b) or b == a or len({a, b}) != 2:
            fail(a, 'and', b, 'are equal')
        before = snap(a), snap(b)
        for op in '+', '-', '+=', '-=':
            must_raise(op, OPS[op], a, b)
            must_raise(op, OPS[op], b, a)
        if (snap(a), snap(b)) != before:
            fail('a rejected operation changed an operand')
    ev.tag('equal' if ma == mb else 'different',
           'same dimension' if compatible(s['a'], s['b']) else 'other dimension')
    ev.nt(ma)


@st.composite
def history(draw):
    n = draw(st.integers(2, 4))
    src = [draw(st.sampled_from(['quantity', 'array', 'units', 'unit', 'uncertain', 'own']))
           for _ in range(n)]
    e = [draw(exprs(min_units=1, max_units=3)) for _ in range(n)]
    e = [[[x[0][0], 1]] if h == 'unit' else x for x, h in zip(e, src)]
    steps = []
    for _ in range(draw(st.integers(1, 10))):
        steps.append({
            'o': draw(st.sampled_from(['*', '/', '**', '*=', '/=', '**=', '*=', '/=', '+', '-',
                                       '+=', '-=', 'copy', 'simplified', 'read', 'alias', 'quantity',
                                       'bad'])),
            'i': draw(st.integers(0, n - 1)), 'j': draw(st.integers(0, n - 1)),
            'k': draw(st.integers(0, n - 1)),
            'p': draw(st.sampled_from([0, 1, 2, -1, 0.5, -2]))})
    return {'e': e, 's': src, 'steps': steps}


def check_history(s, ev):
    sources = []
    for e, h in zip(s['e'], s['s']):
        d = dimensionality(e)
        sources.append({
            'quantity': lambda: Quantity(2.0, d), 'array': lambda: Quantity([1.0, 2.0], d),
            'units': lambda: Quantity(2.0, d).units, 'unit': lambda: unit(e[0][0]),
            'uncertain': lambda: UQ([1.0], d, [0.5]), 'own': lambda: 1 * unit_quantity(e)}[h]())
    before = [snap(q) for q in sources]
    pool = [q.dimensionality for q in sources]
    model = [merge(e) for e in s['e']]
    changed = False

    def look(step):
        for d, m in zip(pool, model):
            want_dim(d, list(m.items()), 'after %s' % step)
        for q, b in zip(sources, before):
            if snap(q) != b:
                fail('step', step, 'changed a quantity')

    for st_ in s['steps']:
        o, i, j, k, p = (st_[x] for x in 'oijkp')
        mi, mj = list(model[i].items()), list(model[j].items())
        if o in '*/' or o in ('*=', '/='):
            r = OPS[o](pool[i], pool[j])
            m = merge(times(mi, mj, 1 if o[0] == '*' else -1))
        elif o in ('**', '**='):
            if max([abs(x) for _, x in mi] or [0]) > 50:
                continue
            r = OPS[o](pool[i], p)
            m = merge(power(mi, p))
        elif o in ('+', '-', '+=', '-='):
            if model[i] != model[j]:
                must_raise(o, OPS[o], pool[i], pool[j])
                look(o)
                continue
            r = OPS[o](pool[i], pool[j])
            m = model[i]
        elif o == 'copy':
            r, m = pool[i].copy(), model[i]
        elif o == 'simplified':
            r = pool[i].simplified
            m = {BASE_OF[x]: y for x, y in si_dims(mi).items() if y}
        elif o == 'read':
            r, m = sources[i].dimensionality, merge(s['e'][i])
        elif o == 'alias':
            pool[k], model[k] = pool[i], model[i]
            # from here on they are one object
            continue
        elif o == 'quantity':
            # a quantity made from the expression is not tied to it
            r = Quantity([1.0], pool[i])
            held = pool[i].copy()
            if r.dimensionality != held:
                fail('Quantity(x, dimensionality) has the unit', r.dimensionality)
            pool[i] *= pool[i]
            if r.dimensionality != held:
                fail('the quantity follows a changed expression')
            for t in range(len(pool)):
                if pool[t] is pool[i]:
                    model[t] = merge(power(mi, 2))
            look(o)
            continue
        else:
            for bad in (lambda: pool[i] * 2, lambda: pool[i] + 1, lambda: pool[i] ** [1, 2],
                        lambda: pool[i] / pq.m, lambda: pool[i] - 's'):
                must_raise('a wrong operand', bad)
            look(o)
            continue
        if o.endswith('='):
            if r is not pool[i]:
                fail(o, 'is not in place')
            for t in range(len(pool)):
                if pool[t] is r:
                    model[t] = m
            changed = True
        else:
            if any(r is d for d in pool):
                fail(o, 'returned an operand')
            pool[k], model[k] = r, m
        look(o)
    ev.tag(*set(x['o'] for x in s['steps']))
    ev.nt(changed or len(s['steps']) > 2)


@st.composite
def quantities_of(draw):
    e = draw(exprs(min_units=1))
    return {'q': {'a': draw(gen.array(dtypes=['f8'], specials=False)), 'u': e},
            'b': draw(exprs(min_units=1)), 'p': draw(st.sampled_from([2, -1, 0.5, 0, 3])),
            'op': draw(st.sampled_from(['*=', '/=', '**=', 'clear', 'pop', 'set', 'update']))}


def check_source(s, ev):
    """Changing an expression read from a quantity never changes the quantity"""
    q = qty(s['q'])
    others = [q.copy(), q[...], q.view(), q.units, q * 1, -q, q.rescale(q.units)]
    before = [snap(x) for x in [q] + others]
    u = unit(s['q']['u'][0][0])
    ub = snap(u)
    for x in [q] + others + [u]:
        d = x.dimensionality
        b = dimensionality(s['b'])
        if s['op'] in ('*=', '/='):
            OPS[s['op']](d, b)
        elif s['op'] == '**=':
            d **= s['p']
        elif s['op'] == 'clear':
            d.clear()
        elif s['op'] == 'pop':
            d.popitem()
        elif s['op'] == 'set':
            d[pq.m] = 17
        else:
            d.update(b)
    if [snap(x) for x in [q] + others] != before or snap(u) != ub:
        fail('changing the expression changed the quantity')
    ev.nt(merge(s['q']['u']))
    ev.tag(s['op'])


@st.composite
def namesakes(draw):
    return {'k': draw(st.sampled_from(['UnitQuantity', 'UnitMass', 'UnitLength', 'UnitTime'])),
            'f': [draw(st.sampled_from([2.0, 2.0, 3.0])) for _ in 'ab'],
            'e': draw(exprs(max_units=2)), 'x': draw(EXPS)}


def check_namesakes(s, ev):
    """a unit and a constant (which is not registered) of the same name"""
    name = fresh('nsk')
    base = {'UnitLength': pq.m, 'UnitTime': pq.s}.get(s['k'], pq.kg)
    a = pq.UnitConstant(name, s['f'][0] * base)
    b = getattr(pq, s['k'])(name, s['f'][1] * base)
    if not s['x']:
        return
    e = dimensionality(s['e'])
    da, db = Dimensionality({a: s['x']}) * e, Dimensionality({b: s['x']}) * e
    if da == db or not da != db or len({da, db}) != 2:
        fail('a constant and a', s['k'], 'of the same name are the same in expressions')
    must_raise('sum', OPS['+'], da, db)
    if not da / db or da / da:
        fail('quotients', da / db, da / da)
    ev.tag(s['k'])
    ev.nt()


@st.composite
def ordered(draw):
    a = draw(exprs())
    b = draw(st.one_of(exprs(), gen.compatible_expr(a), st.just(power(a, -1))))
    return {'e': [a, b], 'h': [draw(made), draw(made)], 'def': draw(st.sampled_from(['SI', 'cgs', 'km']))}


def check_ordered(s, ev):
    a, b = [make(e, h) for e, h in zip(s['e'], s['h'])]
    if s['def'] == 'km':
        pq.set_default_units(length='km', time='hour')
    else:
        pq.set_default_units(s['def'])
    x, y = [sum(abs(v) for v in si_dims(e).values()) for e in s['e']]
    before = snap(a), snap(b)
    for d, n in ((a, x), (b, y)):
        if abs(d.ndims - n) > 1e-9:
            fail('the number of base dimensions is', d.ndims, 'instead of', n)
    for o in ('<', '<=', '>', '>='):
        r = OPS[o](a, b)
        if type(r) not in (bool, np.bool_) or r != OPS[o](x, y):
            fail(a, o, b, 'is', r)
    if (snap(a), snap(b)) != before:
        fail('comparing changed the expressions')
    ev.tag(s['def'], 'equal' if x == y else 'different')
    ev.nt(merge(s['e'][0]) or merge(s['e'][1]))


@st.composite
def notations(draw):
    parts = draw(st.lists(st.tuples(st.sampled_from(
        ['m**2/s', 'km/hour', 'kg*m**2', 'um/ms', 'J/(kg*K)', 'pc/cm**3', 'm**-3', '']), st.sampled_from([1, -1, 2, 0.5, 3])),
        max_size=3, unique_by=lambda x: x[0]))
    return {'c': parts, 'e': draw(exprs(min_units=0, max_units=2)), 'first': draw(st.booleans()),
            'same': draw(st.booleans())}


def check_notations(s, ev):
    """expressions with compound units, looked at under either notation"""
    pq.markup.config.use_unicode = s['first']

    def build(order):
        # compound units of one text are equal
        units = {n: float(x) for n, x in merge(s['e']).items()}
        out = [(pq.CompoundUnit(t), x) for t, x in s['c'] if t] + [(unit(n), x) for n, x in units.items()]
        return Dimensionality(out[::-1] if order else out)
    d = build(0)
    table = {d: 1}
    h = hash(d)
    q = Quantity(np.ones(2), d)
    pq.markup.config.use_unicode = not s['first']
    e = build(1)
    want_same(d, e, 'under both notations')
    if hash(d) != h or table.get(e) != 1 or table.get(d) != 1:
        fail('the hash depends on the notation')
    if not (q == Quantity(np.ones(2), e)).all() or unit_of(q + Quantity(np.ones(2), e)) != unit_of(q):
        fail('quantities under both notations')
    if len(d / e) or len(d * e ** -1) or len(q.dimensionality / d):
        fail('units do not cancel', d / e)
    pq.markup.config.use_unicode = s['first']
    if hash(d) != h or table.get(e) != 1:
        fail('the hash depends on the notation')
    pq.markup.config.use_unicode = False
    ev.tag('%d compound' % len(s['c']))
    ev.nt(s['c'])


SUBS = [
    Sub('notations', check_notations, notations, quick=300),
    Sub('laws', check_laws, laws, quick=2400),
    Sub('equality', check_near, near, quick=3600),
    Sub('namesakes', check_namesakes, namesakes, quick=200),
    Sub('order', check_ordered, ordered, quick=900),
    Sub('history', check_history, history, quick=2400),
    Sub('source', check_source, quantities_of, quick=900),
]
