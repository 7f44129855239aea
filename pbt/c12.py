"""Unit formatting is unambiguous and re-readable"""
import re

from hypothesis import strategies as st

from . import gen
from .c11 import MADE, make
from .core import KnownFinding, Sub
from .lib import *

RULE = """A case is a unit expression (simple units, compound units, user-defined units,
constants; exponents negative, fractional, multi-digit) built in several ways and orders,
or a quantity, formatted in every notation under both Unicode settings. Oracle: the text
is parsed back by the library; the Unicode, LaTeX and HTML forms are read by a small
decoder of these notations and compared as {symbol: exponent}. Non-trivial: a unit with an
exponent other than one, or several units."""

ASSUMPTIONS = ['symbols of the units are those of the golden table']

EXPS = st.one_of(
    st.sampled_from([1, 1, 2, 3, -1, -1, -2, -3, 0.5, -0.5, 1.5, -1.5, 0.25, 2.0, -1.0]),
    st.sampled_from([10, 20, 12, -10, 100, 0.1, -0.2, 2.5, 10.5, -100, 101, 30, 1.05, 0.05,
                     -20.02, 1e-5, 1.25e-7, 3e-9, 123456789, 1 + 1e-10, 1 - 1e-9, -1.000001, 2 + 1e-8, 0.1 + 0.2]),
    st.integers(-40, 40).filter(bool),
    st.integers(-60, 60).filter(bool).map(lambda i: i / 12.0),
    st.floats(-50, 50, allow_nan=False).filter(lambda x: abs(x) > 1e-3),
)
SIMPLE = [n for n in gen.ALL if n != 'statampere']


def exprs(min_units=0, max_units=4, names=None):
    return gen.expr(min_units=min_units, max_units=max_units, exps=EXPS,
                    names=names or gen.unit_name.filter(lambda n: n != 'statampere'))


# --------------------------------------------------------------------------
# decoders

_SUP = {c: str(i) for i, c in enumerate('⁰¹²³⁴⁵⁶⁷⁸⁹')}
_SUP['⁻'] = '-'
_SUP['⋅'] = '.'
_EXP = re.compile(r'[-+]?\d+(\.\d*)?(e[-+]?\d+)?')


def from_unicode(t):
    t = re.sub('[%s]+' % ''.join(_SUP), lambda m: '**' + ''.join(_SUP[c] for c in m.group()), t)
    return t.replace('^', '**').replace('·', '*')


def from_html(t, mult='&sdot;'):
    if '*' in t:
        fail('a product sign in', repr(t), 'is not replaced')
    return re.sub(r'<sup>([^<]*)</sup>', r'**\1', t).replace(mult, '*')


def from_latex(t, font='mathrm', mult=r'{\cdot}'):
    head = '$\\' + font + '{'
    if not (t.startswith(head) and t.endswith('}$')):
        fail('not a LaTeX form:', t)
    t = t[len(head):-2]
    if '*' in t:
        fail('a product sign in', repr(t), 'is not replaced')
    t = t.replace(r'\left(', '(').replace(r'\right)', ')')
    t = t.replace(mult, '*')
    t = re.sub(r'\^\{([^{}]*)\}', r'**\1', t)
    t = re.sub(r'\\frac\{([^{}]*)\}\{([^{}]*)\}', r'(\1)/(\2)', t)
    if '{' in t or '\\' in t:
        fail('cannot read the LaTeX form', t)
    return t


def read(text):
    """{symbol: exponent} of symbols, '*', '/', '**number', '1' and parentheses"""
    pos = 0

    def factor():
        nonlocal pos
        if text[pos:pos + 1] == '(':
            pos += 1
            r = product()
            if text[pos:pos + 1] != ')':
                fail('unbalanced', text)
            pos += 1
        else:
            m = re.compile(r'[^*/()]+').match(text, pos)
            if not m:
                fail('cannot read', repr(text), 'at', pos)
            pos = m.end()
            r = {} if m.group() in ('1', 'dimensionless') else {m.group(): 1.0}
        if text[pos:pos + 2] == '**':
            m = _EXP.match(text, pos + 2)
            if not m:
                fail('cannot read the exponent in', repr(text))
            pos = m.end()
            r = {k: v * float(m.group()) for k, v in r.items()}
        return r

    def product():
        nonlocal pos
        out = dict(factor())
        while text[pos:pos + 1] in ('*', '/') and pos < len(text):
            sign = 1 if text[pos] == '*' else -1
            pos += 1
            for k, v in factor().items():
                out[k] = out.get(k, 0) + sign * v
        return out

    out = product()
    if pos != len(text):
        fail('cannot read', repr(text), 'at', pos)
    return {k: v for k, v in out.items() if abs(v) > 1e-12}


def symbols(e, unicode_):
    """what the expression has to show"""
    out = {}
    for n, x in merge(e).items():
        if n in EXTRA:
            u = EXTRA[n][2]
            s = {(u.u_symbol if unicode_ else u.symbol): 1}
        else:
            s = GOLD[n]['u_symbol' if unicode_ else 'symbol']
            s = read(s) if s[0] == '(' else {s: 1}
        for k, v in s.items():
            out[k] = out.get(k, 0) + v * x
    return {k: float(v) for k, v in out.items() if v}


def compare(got, want_, what, text):
    if set(got) != set(want_) or any(
            abs(got[k] - want_[k]) > 1e-9 * abs(want_[k]) for k in got):
        fail(what, repr(text), 'shows', got, 'instead of', want_)


# --------------------------------------------------------------------------

@st.composite
def texts(draw):
    return {'e': draw(exprs(8, 14) if draw(st.integers(0, 9)) == 0 else exprs()), 'how': draw(st.sampled_from(MADE)),
            'user': draw(st.integers(0, 2)), 'ux': draw(st.lists(EXPS, min_size=2, max_size=2)),
            'sym': draw(st.booleans())}


def user_units(s, e):
    e = list(e)
    for i in range(s['user']):
        n = fresh('fmt')
        sym = fresh('fs') if s['sym'] else None
        d = e[0][0] if e else 'meter'
        u = pq.UnitQuantity(n, 3.5 * unit(d), symbol=sym, u_symbol='☃%d' % i if s['sym'] else None)
        EXTRA[n] = (3.5 * fac(d), dim(d), u)
        e.append([n, s['ux'][i]])
    return e


def check_text(s, ev):
    try:
        e = user_units(s, s['e'])
        how = s['how'] if s['how'] not in ('text', 'power') else 'dict'
        d = make(e, how)
        w = {n: float(x) for n, x in merge(e).items()}
        q = Quantity(2.0, d)
        forms = {'str': str(d), 'string': d.string, 'units': str(q.units.dimensionality),
                 'repr': repr(q).split(' * ', 1)[1], 'qstr': str(q).split(' ', 1)[1],
                 'format': format(q, '.2f').split(' ', 1)[1]}
        for k, t in forms.items():
            back = Quantity(1.0, t)
            if unit_of(back) != w or back.dimensionality != d:
                fail(k, repr(t), 'reads as', unit_of(back), 'instead of', w)
            # and as a target
            if unit_of(q.rescale(t)) != w or mag(q.rescale(t)) != 2.0:
                fail('rescale to', repr(t))
        ev.tag('n=%d' % len(w), *['frac' if x % 1 else 'int' for x in w.values()])
        ev.tag(*['negative' for x in w.values() if x < 0])
        ev.nt(len(w) > 1 or any(x != 1 for x in w.values()))
    finally:
        EXTRA.clear()


@st.composite
def forms(draw):
    names = st.one_of(gen.unit_name, gen.unit_name, st.sampled_from(COMPOUND + ['statampere'])) \
        if draw(st.booleans()) else None
    many = draw(st.integers(0, 5)) == 0
    return {'e': draw(exprs(8, 16) if many else exprs(names=names)), 'how': draw(st.sampled_from(MADE)),
            'user': draw(st.sampled_from([0, 0, 1])), 'sym': draw(st.booleans()),
            'ux': draw(st.lists(EXPS, min_size=2, max_size=2)), 'uni': draw(st.booleans())}


def has_compound(e):
    return any(n in COMPOUND or n == 'statampere' for n in merge(e))


def check_notations(d, e, uni, what=''):
    """The four notations under one setting"""
    pq.markup.config.use_unicode = uni
    w = symbols(e, uni)
    t = d.string
    compare(read(t.replace('·', '*') if not uni else from_unicode(t)), w, what + 'string', t)
    t = d.unicode
    if '*' in t:
        fail('a product sign in', repr(t), 'is not replaced')
    compare(read(from_unicode(t)), w, what + 'unicode', t)
    t = str(d)
    compare(read(from_unicode(t)), w, what + 'str', t)
    if not uni and t != d.string or uni and t != d.unicode:
        fail('str is neither', repr(t))
    # the names of compound units have superscripts under the unicode setting
    fix = from_unicode if uni else (lambda x: x)
    t = d.html
    compare(read(fix(from_html(t))), w, what + 'html', t)
    t = d.latex
    compare(read(fix(from_latex(t))), w, what + 'latex', t)
    t = pq.markup.format_units_html(d, paren=True, font='<b>%s</b>', mult='@')
    compare(read(fix(from_html(t[3:-4], '@'))), w, what + 'html options', t)
    t = pq.markup.format_units_latex(d, paren=True, font='mathit', mult='@')
    compare(read(fix(from_latex(t, 'mathit', '{@}'))), w, what + 'latex options', t)


def check_forms(s, ev):
    try:
        e = user_units(s, s['e'])
        how = s['how'] if s['how'] not in ('text', 'power') else 'dict'
        if has_compound(e) and how == 'unit':
            how = 'dict'
        pq.markup.config.use_unicode = s['uni']
        d = make(e, how)
        for uni in (s['uni'], not s['uni']):
            check_notations(d, e, uni)
        if not merge(e) and (d.string, d.unicode) != ('dimensionless', 'dimensionless'):
            fail('the empty expression is', d.string)
        m = merge(e)
        ev.tag('n=%d' % len(m), 'compound' if has_compound(e) else 'simple')
        ev.nt(len(m) > 1 or any(x != 1 for x in m.values()))
    finally:
        EXTRA.clear()


def every_unit():
    for n in NAMES + COMPOUND:
        for x in (1, -1, 2, -2, 0.5, -1.5, 10, 12):
            yield {'n': n, 'x': x}


def check_every(s, ev):
    e = [[s['n'], s['x']]]
    d = dimensionality(e)
    ev.nt()
    for uni in (True, False):
        check_notations(d, e, uni)
    for f in (repr, str, format, lambda x: '%s' % x):
        for uni in (True, False):
            pq.markup.config.use_unicode = uni
            t = f(unit(s['n']))
            sym = GOLD[s['n']]['u_symbol' if uni else 'symbol']
            if s['n'] in COMPOUND:
                continue
            if s['n'] not in t and sym not in t:
                fail(repr(t), 'does not show', s['n'])
            if f is not repr and set(re.split(r'[ ()]+', t)) - {'', '1', '1.0'} not in ({sym, s['n']}, {sym}) and \
                    not set(sym + s['n']) & set(' ()'):
                fail(repr(t), 'does not show', sym)
            if f is repr:
                check_repr(t, s['n'], unit(s['n']))
    pq.markup.config.use_unicode = False
    if s['n'] in NAMES:
        back = unit_of(Quantity(1.0, d.string))
        if back != {n: float(x) for n, x in merge(e).items()}:
            if s['n'] == 'statampere' and si_equal(back, e):
                raise KnownFinding('statampere')
            fail(repr(d.string), 'reads as', back)


def check_repr(t, name, u):
    """the name, the symbol, and a definition which can be read"""
    if repr(name) not in t:
        fail(repr(t), 'does not show', name)
    if u.symbol != name and repr(u.symbol) not in t:
        fail(repr(t), 'does not show', u.symbol)
    m = re.match(r"\w+\('[^']*', ([-+0-9.einfna]+) \* ([^,]+?)(, '.*)?\)$", t)
    if m and not set(m.group(2)) & set('()') and not pq.markup.config.use_unicode and name in GOLD:
        d = Quantity(float(m.group(1)), m.group(2))
        want(mag((1 * u).rescale(d.units)), mag(d), 1e-9, what='the definition in ' + t)


@st.composite
def named(draw):
    return {'f': draw(st.sampled_from([2.5, 1.0, 3e-7, 1e20, 12, 0.1, -4.0])), 'e': draw(exprs(1, 3)),
            'sym': draw(st.booleans()), 'us': draw(st.booleans()), 'uni': draw(st.booleans()),
            'cls': draw(st.sampled_from(['UnitQuantity', 'UnitConstant', 'UnitLength', 'UnitMass']))}


def check_named(s, ev):
    """The text of a unit shows its name, its symbol and its definition"""
    n = fresh('nam')
    sym, us = (n + 'y' if s['sym'] else None), ('\u2603' + n if s['us'] else None)
    d = Quantity(float(s['f']), dimensionality(s['e']))
    u = getattr(pq, s['cls'])(n, d, symbol=sym, u_symbol=us)
    pq.markup.config.use_unicode = s['uni']
    shown = us if s['uni'] and us else sym or n
    if u.symbol != (sym or n) or u.u_symbol != (us or sym or n) or u.name != n:
        fail('the symbols of', n, 'are', u.symbol, u.u_symbol)
    for f in (str, format, lambda x: '%s' % x, '{}'.format):
        words = [x for x in re.split(r'[ ()]+', f(u)) if x]
        if float(words[0]) != 1 or words[1:] not in ([shown, n], [shown]):
            fail('the text of the unit', shown, 'is', f(u))
    t = repr(u)
    check_repr(t, n, u)
    m = re.match(r"\w+\('[^']*', ([-+0-9.einfna]+) \* ([^,]+?)(, '.*)?\)$", t)
    if m and not s['uni']:
        back = Quantity(float(m.group(1)), m.group(2))
        if unit_of(back) != {k: float(x) for k, x in merge(s['e']).items()} or mag(back) != s['f']:
            fail('the definition in', t)
    for q, e in ((3.0 * u, 1), (3.0 * u ** -2, -2), (Quantity([1.0, 2.0], u), 1)):
        if not str(q).endswith(' ' + (q.dimensionality.unicode if s['uni'] else q.dimensionality.string)):
            fail('str', str(q))
        if read(from_unicode(q.dimensionality.unicode)) != {shown: float(e)}:
            fail('unicode', q.dimensionality.unicode)
        if read(q.dimensionality.string) != {shown: float(e)}:
            fail('string', q.dimensionality.string)
    ev.tag(*[k for k in ('sym', 'us', 'uni') if s[k]])
    ev.nt()


def si_equal(units, e):
    b = list(units.items())
    return compatible(b, e) and abs(ratio(b, e) - 1) < 1e-9


def every_constant():
    for n in sorted(set(k for k in dir(pq.constants)
                        if isinstance(getattr(pq.constants, k), pq.UnitQuantity))):
        yield n


def check_constant(n, ev):
    """Formatting of constants, as units, shows their symbol"""
    c = getattr(pq.constants, n)
    ev.nt()
    for uni in (True, False):
        pq.markup.config.use_unicode = uni
        sym = c.u_symbol if uni else c.symbol
        for q in (2.5 * c, 2.5 / c, c * c * pq.m, pq.UncertainQuantity(1.0, c, 0.1)):
            for t in (str(q), format(q), q.dimensionality.string, q.dimensionality.unicode,
                      q.dimensionality.html, q.dimensionality.latex):
                if sym and sym not in t and pq.markup.superscript(sym) not in t and \
                        not set(sym) & set('*/'):
                    fail(repr(t), 'does not show', sym)
        for f in (repr, str, format):
            f(c)


# --------------------------------------------------------------------------
# independence of the construction

@st.composite
def orders(draw):
    e = draw(exprs(min_units=2, max_units=4))
    return {'e': e, 'p': draw(st.permutations(list(range(len(e))))),
            'h': [draw(st.sampled_from(MADE)) for _ in range(2)],
            'uni': draw(st.booleans()), 'split': draw(st.booleans())}


def check_orders(s, ev):
    e = s['e']
    f = [e[i] for i in s['p']]
    # the exponents have to be the same to the last bit
    h = [x if x not in ('text', 'power') else 'ops' for x in s['h']]
    a = make(e, h[0])
    if s['split'] and all(x % 0.25 == 0 and abs(x) < 1000 for _, x in e):
        # built up by multiplying and dividing
        b = Dimensionality()
        for n, x in f:
            b = b * (dimensionality([[n, x * 2]]) / dimensionality([[n, x]]))
        for n, x in e:
            b = b * Dimensionality({unit(n): 3}) / Dimensionality({unit(n): 3})
    else:
        b = make(f, h[1])
    pq.markup.config.use_unicode = s['uni']
    for k in ('string', 'unicode', 'latex', 'html', '__str__'):
        x, y = getattr(a, k), getattr(b, k)
        if callable(x):
            x, y = x(), y()
        if x != y:
            fail(k, 'is', repr(x), 'or', repr(y), 'depending on how it was built')
    for f_ in (str, repr, format):
        if f_(Quantity(1.5, a)) != f_(Quantity(1.5, b)):
            fail(f_, 'depends on how the unit was built')
    ev.nt(merge(e))


# --------------------------------------------------------------------------
# quantities

@st.composite
def quantities_(draw):
    return {'q': {'a': draw(gen.array(dtypes=gen.EVERY + ['b1'],
                                      shapes=gen.SHAPES + [(1200,)])), 'u': draw(exprs())},
            'uq': draw(st.integers(0, 4)) == 0,
            'spec': draw(st.sampled_from(['', '.3f', 'g', '10.2e', '+.1f', '012.4f', '<20', 'd'])),
            'back': draw(gen.compatible_expr([['meter', 1]]))}


def ends(text, unit_text, what):
    if not text.endswith(' ' + unit_text):
        fail(what, repr(text[-200:]), 'does not end with the unit', repr(unit_text))


def check_quantity(s, ev):
    q, a, e = qty(s['q']), arr(s['q']['a']), s['q']['u']
    if s['uq'] and a.dtype == 'f8':
        sigma = np.asarray(np.abs(a) / 8)
        q = UQ(a, dimensionality(e), sigma)
    before = snap(q)
    d = q.dimensionality
    for uni in (False, True, False):
        pq.markup.config.use_unicode = uni
        shown = d.unicode if uni else d.string
        t = str(q)
        r = repr(q)
        if isinstance(q, UQ):
            first = t.split('\n+' if not uni else '\n±')[0]
            if t == first:
                fail('no uncertainty in', t)
            ends(first, shown, 'str')
            if not first.startswith(str(a)):
                fail('str', t)
            if str(sigma) not in t:
                fail('the uncertainty is not in', t)
            for part in (repr(a), repr(sigma), ', ' + d.string + ', '):
                if part not in r:
                    fail(part, 'is not in', r)
        else:
            ends(t, shown, 'str')
            if t != '%s %s' % (a, shown):
                fail('str is', repr(t))
            m, _, u = r.rpartition(' * ')
            if m != repr(a):
                fail('repr', repr(r))
            compare(read(from_unicode(u)), symbols(e, uni), 'repr', r)
            if a.ndim == 0:
                try:
                    w = format(a[()], s['spec'])
                except (ValueError, TypeError):
                    w = None
                if w is not None:
                    t = format(q, s['spec'])
                    if t != '%s %s' % (w, shown):
                        fail('format is', repr(t))
                    if ('{:%s}' % s['spec']).format(q) != t:
                        fail('str.format')
            else:
                if format(q) != str(q):
                    fail('format is', format(q))
        # the setting has no influence on values
        if snap(q) != before:
            fail('formatting changed the quantity')
        x = Quantity(3.0, 'km') + Quantity(1.0, 'm')
        if mag(x) != 3.001 or unit_of(x) != {'kilometer': 1.0}:
            fail('3 km + 1 m is', x)
        y = Quantity(3.0, 'm')
        want(mag(y.rescale(dimensionality(s['back']))), 3.0 * ratio([['meter', 1]], s['back']))
        if d != q.dimensionality or q.dimensionality != make(e, 'reversed'):
            fail('the unit depends on the setting')
    ev.tag(a.dtype.str[1:], 'ndim%d' % a.ndim, type(q).__name__)
    ev.nt(merge(e))


@st.composite
def settings_(draw):
    """compound units and pickles keep their meaning when the setting changes"""
    return {'e': draw(gen.expr(max_units=2)), 'c': draw(st.sampled_from(
        ['m/s', 'kg*m**2', '1/cm**3', 'pc/cm**3', 'J/(kg*K)'])),
        'seq': draw(st.lists(st.booleans(), min_size=2, max_size=4))}


def check_settings(s, ev):
    cu = pq.CompoundUnit(s['c'])
    q = Quantity([1.0, 2.0], Dimensionality({cu: 1})) * unit_quantity(s['e'])
    ref = Quantity([1.0, 2.0], s['c']) * unit_quantity(s['e'])
    d = q.dimensionality
    h = hash(d)
    for uni in s['seq']:
        pq.markup.config.use_unicode = uni
        if hash(q.dimensionality) != h or q.dimensionality != d:
            fail('the unit changed with the setting')
        r = q.rescale(ref.units)
        if unit_of(r) != unit_of(ref):
            fail('unit', r.dimensionality)
        want(mag(r), mag(ref), 1e-9)
        cu2 = pq.CompoundUnit(s['c'])
        r = Quantity([1.0, 2.0], Dimensionality({cu2: 1})) - Quantity([1.0, 2.0], Dimensionality({cu: 1}))
        want(mag(r), [0.0, 0.0])
        if len(r.dimensionality) != 1:
            fail('the unit of the difference', r.dimensionality)
        x = pq.markup.config.use_unicode
        if x is not uni:
            fail('use_unicode is', x)
    ev.nt(len(set(s['seq'])) > 1)


SUBS = [
    Sub('text', check_text, texts, quick=3000),
    Sub('forms', check_forms, forms, quick=2400),
    Sub('orders', check_orders, orders, quick=900),
    Sub('quantities', check_quantity, quantities_, quick=1500),
    Sub('settings', check_settings, settings_, quick=300),
    Sub('units of the user', check_named, named, quick=500),
    Sub('every unit', check_every, cases=every_unit),
    Sub('every constant', check_constant, cases=every_constant),
]
