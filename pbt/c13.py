"""Unit strings are parsed correctly and never run code"""
import ast
import builtins
import re

from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is a unit expression tree (names, symbols, aliases; products, quotients,
powers, parentheses, '1') rendered in a random notation, or a damaged or hostile string:
token soup, code fragments (calls, attributes, subscripts, lambdas, comprehensions,
f-strings, walrus), unknown names, characters. Oracle: the exponents of the tree; for
arbitrary strings an independent evaluator of the grammar, which says whether the string
has to be rejected or which unit it denotes; nothing may be called, and every name keeps
its meaning. Non-trivial: at least two tokens."""

ASSUMPTIONS = ['no generated string makes Python compute an astronomically large number']

# every text which names a unit -> unit
LABELS = {}
for _n, _e in GOLD.items():
    for _l in _e['labels']:
        if _l.isidentifier() or _l == '%':
            LABELS[_l] = _n
for _n in NAMES:
    if GOLD[_n]['labels']:
        assert _n in LABELS or _n == 'dimensionless', _n
ALL_LABELS = sorted(LABELS)
BY_UNIT = {}
for _l, _n in LABELS.items():
    BY_UNIT.setdefault(_n, []).append(_l)

names_ = st.one_of(
    st.sampled_from(ALL_LABELS),
    st.sampled_from(['m', 's', 'kg', 'in', 'as', '%', 'K', 'e', 'J', 'min', 'h', 'meter', 'inch',
                     'degC', 'psi', 'l', 'L', 'g', 'A', 'percent', 'dimensionless', 'cc']).filter(
        lambda x: x in LABELS))

EXPS = st.sampled_from([2, 3, -1, -2, 0.5, 1.5, -0.5, 1, -3, 10, 12, 0.25, 0, 2.0, -1.0])


# --------------------------------------------------------------------------
# trees: ['u', label] | ['1'] | ['*', a, b, notation] | ['/', a, b, sp] | ['^', a, exp, notation]

def trees(labels=names_):
    leaf = st.one_of(labels.map(lambda n: ['u', n]), labels.map(lambda n: ['u', n]),
                     labels.map(lambda n: ['u', n]), st.just(['1']))
    return st.recursive(leaf, lambda sub: st.one_of(
        st.tuples(st.just('*'), sub, sub,
                  st.sampled_from(['*', '*', '·', ' * ', '.', '* ', ' ·', ' · '])).map(list),
        st.tuples(st.just('/'), sub, sub, st.sampled_from(['/', '/', ' / ', '/ '])).map(list),
        st.tuples(st.just('^'), sub, EXPS, st.sampled_from(
            ['**', '^', ' ** ', '**()', '^()', ' ^ ', '**float', '**+', '**frac'])).map(list),
        st.tuples(st.just('('), sub, st.sampled_from(['()', '( )'])).map(list),
    ), max_leaves=6)


PREC = {'*': 1, '/': 1, '^': 2, 'u': 3, '1': 3, '(': 3}


def render(t):
    k = t[0]
    if k == 'u':
        return t[1]
    if k == '1':
        return '1'
    if k == '(':
        s = render(t[1])
        return '(%s)' % s if t[2] == '()' else '( %s )' % s
    if k == '^':
        b = render(t[1])
        if PREC[t[1][0]] < 3:
            b = '(%s)' % b
        x, n = t[2], t[3]
        xs = repr(int(x)) if float(x).is_integer() else repr(float(x))
        if n.endswith('()'):
            return b + n[:-2] + '(' + xs + ')'
        if n == '**float':
            return b + '**' + repr(float(x))
        if n == '**+' and x > 0:
            return b + '**+' + xs
        if n == '**frac':
            return b + '**(%d/4)' % round(x * 4)
        return b + (n if '+' not in n and 'f' not in n else '**') + xs
    a, b = render(t[1]), render(t[2])
    if PREC[t[2][0]] == 1:
        b = '(%s)' % b
    op = t[3]
    if op == '.' and not (a[-1:].isalpha() and a[-1:].isascii() and
                          b[:1].isalpha() and b[:1].isascii()):
        op = '*'
    return a + op + b


def meaning(t):
    """{unit: exponent} of the tree"""
    k = t[0]
    if k == 'u':
        n = LABELS[t[1]]
        return {} if n == 'dimensionless' else {n: 1.0}
    if k == '1':
        return {}
    if k == '(':
        return meaning(t[1])
    if k == '^':
        return {n: x * t[2] for n, x in meaning(t[1]).items() if x * t[2]}
    out = dict(meaning(t[1]))
    for n, x in meaning(t[2]).items():
        out[n] = out.get(n, 0) + (x if k == '*' else -x)
    return {n: x for n, x in out.items() if x}


def has_unit(t):
    return t[0] == 'u' or any(has_unit(x) for x in t[1:3] if isinstance(x, list))


def fits(w):
    """the conversion factor of the expression is a moderate number"""
    try:
        return all(abs(x) < 50 for x in w.values()) and 1e-250 < si_factor(w.items()) < 1e250
    except (OverflowError, ZeroDivisionError):
        return False


@st.composite
def grammar(draw):
    return {'t': draw(trees().filter(has_unit)), 'end': draw(st.sampled_from(['', '', ' ', '\n'])),
            'entry': draw(st.sampled_from(['new', 'new', 'rescale', 'set', 'uncertain', 'compound',
                                           'registry', 'list', 'unit']))}


def overflow_free(t):
    """no subexpression with wild exponents"""
    if t[0] == '^':
        if any(abs(x * t[2]) > 300 for x in meaning(t[1]).values()):
            return False
    return all(overflow_free(x) for x in t[1:3] if isinstance(x, list))


def check_grammar(s, ev):
    t = s['t']
    if not overflow_free(t):
        return
    text = render(t) + s['end']
    w = {n: float(x) for n, x in meaning(t).items()}
    k = s['entry']
    e = [list(x) for x in w.items()]
    if k in ('rescale', 'set', 'compound') and not fits(w):
        k = 'new'
    if k == 'new':
        q = Quantity([1.0, 2.0], text)
    elif k == 'list':
        q = Quantity([[3]], units=text)
    elif k == 'rescale':
        q = Quantity(2.0, dimensionality(e)).rescale(text)
        if mag(q) != 2.0:
            fail('rescale', repr(text), q)
    elif k == 'set':
        q = Quantity(2.0, dimensionality(e))
        q.units = text
    elif k == 'uncertain':
        q = UQ(1.0, text, 0.5)
        if unit_of(q.uncertainty) != w:
            fail('uncertainty of', repr(text), q.uncertainty.dimensionality)
    elif k == 'compound':
        c = pq.CompoundUnit(text)
        q = c.definition
        if len(c.dimensionality) != 1 or names_differ(c):
            fail('compound unit', c)
        want((1 * c).rescale(dimensionality(e)).magnitude, 1.0, 1e-9, what='compound %r' % text)
    elif k == 'registry':
        q = unit_registry[text]
        if not isinstance(q, Quantity):
            q = Quantity(q)
        if mag(q) != 1:
            fail('registry', repr(text), q)
    else:
        q = UQuser(text)
    if unit_of(q) != w:
        fail(repr(text), 'denotes', unit_of(q), 'instead of', w)
    # the notation does not matter
    plain_text = render(normal(t))
    q2 = Quantity(1.0, plain_text)
    if unit_of(q2) != w:
        fail(repr(plain_text), 'denotes', unit_of(q2), 'instead of', w)
    ev.tag(k, *[x for x in ('.', '·', '^', '**', '(', '%', ' ', '1/') if x in text])
    ev.nt(len(re.findall(r'\w+', text)) > 1)


def UQuser(text):
    """a unit which is defined with the text"""
    u = pq.UnitQuantity(fresh('prs'), Quantity(1.0, text))
    return u.definition


def names_differ(c):
    return not c.name.startswith('(')


def normal(t):
    """the same tree in the plain notation"""
    if t[0] in 'u1':
        return t
    if t[0] == '(':
        return normal(t[1])
    if t[0] == '^':
        return ['^', normal(t[1]), t[2], '**']
    return [t[0], normal(t[1]), normal(t[2]), t[0]]


# --------------------------------------------------------------------------
# arbitrary strings

class Reject(Exception):
    """the string has to be rejected"""


class Multiple(Reject):
    """a multiple of a unit, which is no unit but can define one"""


class Unsure(Exception):
    """the string may be rejected"""


def evaluate(text):
    """(number, {unit: exponent}) of a string; an independent evaluator"""
    t = text.replace('^', '**').replace('·', '*')
    t = re.sub(r'(?<=[A-Za-z])\.(?=[A-Za-z])', '*', t)
    if t == '':
        return 1.0, {}
    t = t.replace('%', 'percent')
    if t.lower() == 'in':
        return 1.0, {'inch': 1.0}
    t = re.sub(r'\bin\b', 'inch', t)
    t = re.sub(r'\bas\b', 'attosecond', t)
    try:
        tree = ast.parse(t, mode='eval')
    except (SyntaxError, ValueError):
        raise Reject
    for n in ast.walk(tree):
        if not isinstance(n, (ast.Expression, ast.Name, ast.Load, ast.Constant, ast.BinOp,
                              ast.UnaryOp, ast.operator, ast.unaryop)):
            raise Reject
        if isinstance(n, ast.Name) and n.id not in LABELS:
            if n.id in ('UnitQuantity', 'CompoundUnit') or unit_known(n.id):
                raise Unsure
            raise Reject

    def go(n):
        if isinstance(n, ast.Expression):
            return go(n.body)
        if isinstance(n, ast.Name):
            u = LABELS[n.id]
            return 1.0, ({} if u == 'dimensionless' else {u: 1.0}), True
        if isinstance(n, ast.Constant):
            if type(n.value) in (bool, complex):
                raise Unsure        # a kind of number
            if type(n.value) not in (int, float):
                raise Reject
            return float(n.value), {}, False
        if isinstance(n, ast.UnaryOp):
            x, d, q = go(n.operand)
            if isinstance(n.op, ast.USub):
                return -x, d, q
            raise Unsure
        if not isinstance(n, ast.BinOp):
            raise Unsure
        (x, d, q), (y, f, r) = go(n.left), go(n.right)
        try:
            if isinstance(n.op, ast.Mult):
                return x * y, merge(list(d.items()) + list(f.items())), q or r
            if isinstance(n.op, ast.Div):
                return x / y, merge(list(d.items()) + [(k, -v) for k, v in f.items()]), q or r
            if isinstance(n.op, ast.Pow):
                if f:
                    raise Reject
                return x ** y, merge([(k, v * y) for k, v in d.items()]), q or r
        except (ZeroDivisionError, OverflowError):
            raise Unsure
        if isinstance(n.op, (ast.Add, ast.Sub)) and (d or f) and d != f and \
                not compatible(d.items(), f.items()):
            raise Reject
        raise Unsure

    x, d, q = go(tree)
    if isinstance(x, complex) or not q:
        raise Unsure
    if abs(x - 1) > 1e-9:
        raise Multiple
    if x != 1:
        raise Unsure
    return x, d


def unit_known(name):
    # names which are registered by other cases of this process
    return name.startswith(('vfy', 'prs'))


BUILTINS = set(dir(builtins))
HITS = []


def _hit(*a, **k):
    HITS.append(a)
    return pq.m


SNIPPETS = [
    '__import__("os")', 'open("/tmp/vfy_x", "w")', 'exec("1")', 'eval("m")', 'print(1)', 'vfy_hit()',
    'vfy_hit(m)', 'm.vfy()', '(lambda: vfy_hit())()', '[vfy_hit() for x in [1]]', 'm.__class__',
    '().__class__.__bases__', 'm .units', '(m).fill(2)', '(m).itemset(2)', '(m).__imul__(2)',
    'm[0]', 'm[()]', 'm[vfy_hit()]', 'f"{vfy_hit()}"', '(x:=m)', '{m}', '{m: s}', '[m]', '(m,)',
    'm, s', 'm if s else kg', 'm and s', 'm or vfy_hit()', 'm < s', 'm == m', 'lambda: m', '*m',
    'UnitQuantity("vfy_new", m)', 'CompoundUnit("m")', 'UnitQuantity', 'CompoundUnit',
    'UnitQuantity("m", 2*s)', '__builtins__', '__builtins__["open"]', '__name__', 'vfy_hit', 'm=s',
    'm;s', 'import os', 'm\nimport os', 'del m', 'm.real', 'm.T', 'm .T', '(m) .T', 'await m',
    'yield m', '"".join(m)', '"m"', "'m'", 'b"m"', 'None', 'True', '...', '1j*m', 'm@s', '~m',
    'not m', 'm << 1', 'm | s', 'm + m', 'm - m', '-m', '+m', '2*m', 'm*2', '0*m', 'm/2', 'm//s',
    '(m', 'm)', 'm*', '*m', 'm**', 'm***s', 'm//', 'm/*s', 'm*/s', 'm s', 'm  s', '2m', 'm2', 'm 2',
    'm_', '', ' ', ' m', '\tm', '\x00', 'm\x00', 'm\r', 'm # s', '#', '\\', 'm\\', '"', "'", '`m`',
    '$m', 'm?', 'm!', 'm,', '{}', '[]', '()', 'm**s', 'm**m', 's**(m/m)', 'm**(m)', 'm**percent',
    'm**"2"', 'm**None', 'm**1j', '(m*s', 'meterr', 'Meterr', 'kkg', 'µm', 'metre s', 'xyzzy',
    'm/xyzzy', 'xyzzy*m', 'm**xyzzy', 'm.xyzzy', 'm·xyzzy', '1', '1.0', '2', '1/1', '0', '-1',
    'nan', 'inf', 'pi', 'e', 'None*m', 'm*None', 'm/0', '0/m', '1/0', 'm%s', '%%', '%m', 'm%',
    '%s', '%(m)s', 'm^', '^2', 'm^^2', '·m', 'm·', 'm··s', '.m', 'm.', 'm..s', 'm.2', '2.m', 'in in',
    'as as', 'm as s', 'm in s', 'm is s', 'import', 'lambda', 'def', 'in.m', 'm.in', 'as.as',
    'unit_registry', 'numpy', 'np', 'pq', 'q', 'self', 'string', 'tree', 'item', 'm' * 300,
    'm*' * 60 + 'm', '(' * 30 + 'm' + ')' * 30, 'm**2**3', 'm**-2', 'm**+2', 'm**--2', 'm^-2',
]

TOKENS = ['m', 's', 'kg', 'in', 'as', '%', 'meter', 'xyzzy', '*', '/', '**', '^', '.', '·', '(', ')',
          '1', '2', '0.5', '-', '+', ' ', '//', '%', 'UnitQuantity', 'vfy_hit', '(', ')', ',', '[',
          ']', '"', '=', ':', '@', '~', '<', 'if', 'for', 'lambda', '\n', '{', '}', '1e0', '_', 'K',
          '0', '\\', '#', '*', '/', '*', '**', 'dimensionless', 'None', 'not', '()', 'percent']


def safe(text):
    """evaluating the string costs nothing, even in Python"""
    t = text.replace('^', '**').replace('·', '*').replace('%', 'percent')
    if t.count('**') > 2 or '<<' in t or len(t) > 2000:
        return False
    return not re.search(r'\d{3}|\d[eE_]\d*[1-9]', t)


@st.composite
def hostile(draw):
    k = draw(st.sampled_from(['snippet', 'tokens', 'tokens', 'mutated', 'mutated', 'mutated', 'mix',
                              'text', 'chars', 'insert']))
    if k == 'snippet':
        t = draw(st.sampled_from(SNIPPETS))
    elif k == 'tokens':
        t = ''.join(draw(st.lists(st.sampled_from(TOKENS), min_size=1, max_size=8)))
    elif k == 'mix':
        a, b = draw(st.sampled_from(SNIPPETS)), draw(st.sampled_from(SNIPPETS))
        t = draw(st.sampled_from(['%s*%s', '%s/(%s)', '(%s)*%s', '%s%s', '%s**%s', '%s.%s'])) % (a, b)
    elif k == 'text':
        t = draw(st.text(max_size=6))
    elif k == 'chars':
        t = draw(st.text(alphabet='ms*/().^% 12gk·in_as\n', max_size=9))
    else:
        t = render(draw(trees().filter(has_unit)))
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, len(t)))
            j = draw(st.integers(i, min(len(t), i + 3)))
            if k == 'insert':
                t = t[:i] + draw(st.sampled_from(SNIPPETS)) + t[i:]
            else:
                t = t[:i] + draw(st.sampled_from(TOKENS + ['', '', '', 'x', '.'])) + t[j:]
    return {'t': t, 'entry': draw(st.sampled_from(['new', 'new', 'new', 'rescale', 'compound', 'set',
                                                  'uncertain', 'define', 'default']))}


PROBES = ['m', 's', 'kg', 'meter', 'in', 'inch', '%', 'percent', 'as', 'K', 'J', 'dimensionless', 'g',
          'e', 'UnitQuantity', 'CompoundUnit']
BEFORE = {n: unit_registry[n] for n in PROBES}
UNKNOWN = ['xyzzy', 'x', 'vfy_hit', 'vfy_new', 'open', 'np', 'self']


def registry_intact(what):
    for n, u in BEFORE.items():
        if unit_registry[n] is not u:
            fail(repr(what), 'changed the meaning of', n)
    for n in UNKNOWN:
        must_raise('%s after %r' % (n, what), lambda: unit_registry[n])
    for n in ('m', 's', 'kg', 'in'):
        if float(unit(LABELS[n]).magnitude) != 1.0:
            fail(repr(what), 'changed the unit', n)


def check_hostile(s, ev):
    text = s['t']
    if not safe(text):
        return
    try:
        try:
            x, w = evaluate(text)
            verdict = 'unit'
            w = {n: float(v) for n, v in w.items()}
        except Reject as e:
            verdict, w = 'reject', None
            if isinstance(e, Multiple) and s['entry'] == 'compound':
                verdict = 'either'
        except (Unsure, RecursionError, MemoryError):
            verdict, w = 'either', None
    except (ValueError, OverflowError):
        verdict, w = 'either', None
    del HITS[:]
    builtins.vfy_hit = _hit
    before = defaults_now()
    try:
        try:
            q = None
            k = s['entry']
            if k in ('rescale', 'set', 'compound', 'default') and (w is None or not fits(w)):
                k = 'new' if verdict != 'reject' else k
            if k == 'new':
                q = Quantity([1.0, 2.0], text)
            elif k == 'rescale':
                q = Quantity(1.0, dimensionality(list((w if w is not None else {'meter': 1}).items()))).rescale(text)
            elif k == 'set':
                q = Quantity(1.0, dimensionality(list((w if w is not None else {'meter': 1}).items())))
                q.units = text
            elif k == 'uncertain':
                q = UQ([1.0], text, [0.5])
            elif k == 'compound':
                q = pq.CompoundUnit(text).definition
            elif k == 'define':
                q = pq.UnitQuantity(fresh('prs'), Quantity(1.0, text)).definition
            else:
                if verdict == 'reject':
                    pq.set_default_units(length=text)
                    q = Quantity(1.0, pq.m)
                else:
                    q = Quantity(1.0, text)
        except Exception as e:
            if verdict == 'unit':
                fail(repr(text), 'raises', repr(e))
            if isinstance(e, (SystemExit, MemoryError)):
                raise
        else:
            if verdict == 'reject':
                fail(repr(text), 'is accepted as', repr(q), 'by', k)
            if verdict == 'unit':
                if unit_of(q) != w:
                    fail(repr(text), 'denotes', unit_of(q), 'instead of', w)
            else:
                m = mag(q)
                if k == 'new' and not np.array_equal(m, [1.0, 2.0]):
                    fail(repr(text), 'gives', repr(q))
    finally:
        if getattr(builtins, 'vfy_hit', None) is not _hit:
            fail(repr(text), 'rebound a builtin')
        del builtins.vfy_hit
    if HITS:
        fail(repr(text), 'ran code')
    if set(dir(builtins)) - BUILTINS:
        fail(repr(text), 'added builtins')
    if defaults_now() != before:
        fail(repr(text), 'changed the default units')
    registry_intact(text)
    ev.tag(verdict, s['entry'])
    ev.nt(len(text) > 1)


def snippets():
    for t in SNIPPETS:
        for entry in ('new', 'rescale', 'compound', 'define', 'uncertain', 'set', 'default'):
            yield {'t': t, 'entry': entry}


def labels():
    for l in ALL_LABELS:
        yield l


def check_label(l, ev):
    """Every label on its own and in every notation"""
    n = LABELS[l]
    base = {} if n == 'dimensionless' else {n: 1.0}
    ev.nt()
    other = 'K' if n != 'Kelvin' else 's'
    on = LABELS[other]
    tails = [(l, 1, 0), ('(%s)' % l, 1, 0), (l + '**2', 2, 0), (l + '^2', 2, 0), ('1/' + l, -1, 0),
             (l + '*' + other, 1, 1), (l + '·' + other, 1, 1), (other + '/' + l, -1, 1),
             (other + ' / ' + l + ' ** 2', -2, 1), ('(%s*%s)**-1' % (other, l), -1, -1),
             ('%s*%s' % (l, l), 2, 0), ('%s/%s' % (l, l), 0, 0), (l + '**0.5', 0.5, 0),
             (l + '**-1*' + other, -1, 1), ('%s / %s' % (l, other), 1, -1)]
    if l[-1].isascii() and l[-1].isalpha():
        tails.append((l + '.' + other, 1, 1))
    if l[0].isascii() and l[0].isalpha():
        tails.append((other + '.' + l, 1, 1))
    for t, x, y in tails:
        w = {k: float(v * x) for k, v in base.items() if x}
        if y:
            w[on] = float(y)
        got = unit_of(Quantity(1.0, t))
        if got != w:
            fail(repr(t), 'denotes', got, 'instead of', w)


def inches():
    for l in ('in', 'In', 'iN', 'IN'):
        for entry in ('new', 'rescale', 'set', 'uncertain', 'define', 'default'):
            yield {'t': l, 'entry': entry}


SUBS = [
    Sub('grammar', check_grammar, grammar, quick=3600),
    Sub('hostile', check_hostile, hostile, quick=4500),
    Sub('snippets', check_hostile, cases=snippets),
    Sub('inches', check_hostile, cases=inches),
    Sub('labels', check_label, cases=labels),
]
