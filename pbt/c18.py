"""Units are immutable and names are never rebound"""
import copy
import operator
import pickle

from hypothesis import strategies as st

from . import gen, lib
from .core import Sub
from .lib import *

RULE = """Complete enumeration: about sixty ways to change a unit in place, on every predefined
unit, on constants, on compound units and on freshly defined units. Generated: histories of up
to fourteen steps of definitions (new, repeated, conflicting in the name, the symbol or an alias),
direct registrations, attempts to change units, their definitions or the quantities they were
defined from, arithmetic, parsing, changes of the defaults, copies and pickles, against a
dictionary of what every label denotes. Non-trivial: an attempt is made on a unit, or a label
which is taken is used again."""

ASSUMPTIONS = [
    'changes of the memory layout (shape, dtype, strides, flags) by the caller are not looked at',
    'a label may be registered again for a unit of exactly the same value']


def i_(op, *vs):
    return [(op, lambda u, v=v, f=OPS[op]: f(u, v(u) if callable(v) else v)) for v in vs]


class _V(list):
    pass


U = lambda u: u                                            # noqa: E731
ATTEMPTS = []
for _op in ('+=', '-='):
    ATTEMPTS += i_(_op, U, lambda u: 0 * u, lambda u: np.array([1.0, 2.0]) * u, 0, 1.0)
for _op in ('*=', '/=', '//=', '%='):
    ATTEMPTS += i_(_op, U, 1, 2.0, lambda u: pq.dimensionless, lambda u: np.array([1.0, 2.0]),
                   lambda u: pq.inch)
ATTEMPTS += i_('**=', 1, 2, 0, -1, 0.5, lambda u: 2 * pq.dimensionless)
ATTEMPTS += [
    ('u[()] = 2', lambda u: u.__setitem__((), 2)),
    ('u[...] = 2 u', lambda u: u.__setitem__(Ellipsis, 2 * u)),
    ('u[...] = u', lambda u: u.__setitem__(Ellipsis, u)),
    ('u[True] = 3', lambda u: u.__setitem__(True, 3 * u)),
    ('fill', lambda u: u.fill(2)), ('fill u', lambda u: u.fill(2 * u)),
    ('put', lambda u: u.put(0, 2)), ('put u', lambda u: u.put([0], 2 * u)),
    ('units = kg', lambda u: setattr(u, 'units', 'kg')),
    ('units = self', lambda u: setattr(u, 'units', u)),
    ('units = km', lambda u: setattr(u, 'units', pq.km)),
    ('units = dimensionality', lambda u: setattr(u, 'units', (1 * u).dimensionality)),
    ('real', lambda u: setattr(u, 'real', 3)), ('imag', lambda u: setattr(u, 'imag', 3)),
    ('magnitude[()]', lambda u: u.magnitude.__setitem__((), 3)),
    ('view', lambda u: u.view(np.ndarray).__setitem__((), 3)),
    ('asarray', lambda u: np.asarray(u).__setitem__((), 3)),
    ('reshape', lambda u: u.reshape(1).__setitem__(0, 3)),
    ('ravel', lambda u: u.ravel().__setitem__(0, 3)),
    ('newaxis', lambda u: u[np.newaxis].__setitem__(0, 3)),
    ('ellipsis', lambda u: u[...].__setitem__((), 3)),
    ('T', lambda u: u.T.__setitem__((), 3)),
    ('add out', lambda u: np.add(1, 2, out=u)),
    ('add u out', lambda u: np.add(u, u, out=u)),
    ('multiply out', lambda u: np.multiply(pq.m, pq.s, out=u)),
    ('sqrt out', lambda u: np.sqrt(pq.m, out=u)),
    ('negative out', lambda u: np.negative(u, out=u)),
    ('sum out', lambda u: np.array([1.0, 2.0]).sum(out=u)),
    ('sum q out', lambda u: (np.array([1.0, 2.0]) * u).sum(out=u)),
    ('mean out', lambda u: (np.array([1.0, 2.0]) * u).mean(out=u)),
    ('clip out', lambda u: (2.0 * u).clip(0 * u, 1 * u, out=u)),
    ('round out', lambda u: (2.0 * u).round(out=u)),
    ('copyto', lambda u: np.copyto(u, 3)), ('place', lambda u: np.place(u, [True], [3])),
    ('putmask', lambda u: np.putmask(u, [True], [3])),
    ('nan_to_num', lambda u: np.nan_to_num(u, copy=False)),
    ('name', lambda u: setattr(u, 'name', 'x')), ('symbol', lambda u: setattr(u, 'symbol', 'x')),
    ('u_symbol', lambda u: setattr(u, 'u_symbol', 'x')),
    ('definition', lambda u: setattr(u, 'definition', pq.m)),
    ('dimensionality', lambda u: setattr(u, 'dimensionality', pq.m.dimensionality)),
]
# these return something, and what they return is another thing than the unit
HARMLESS = [
    ('dimensionality[m]', lambda u: u.dimensionality.__setitem__(pq.m, 5)),
    ('dimensionality.update', lambda u: u.dimensionality.update({pq.m: 3})),
    ('dimensionality *=', lambda u: operator.imul(u.dimensionality, pq.m.dimensionality)),
    ('rescale', lambda u: u.rescale(u).fill(3)),
    ('simplified', lambda u: u.simplified.__imul__(3)),
    ('simplified fill', lambda u: u.simplified.fill(3)),
    ('definition *=', lambda u: operator.imul(u.definition, 3)),
    ('definition fill', lambda u: u.definition.fill(3)),
    ('definition +=', lambda u: operator.iadd(u.definition, u.definition)),
    ('definition units', lambda u: setattr(u.definition, 'units', 'mm')),
    ('definition set', lambda u: u.definition.__setitem__((), 7)),
    ('product', lambda u: operator.imul(1 * u, 3)),
    ('product units', lambda u: setattr(u * 1, 'units', u.simplified.units)),
    ('product set', lambda u: (1.0 * u).fill(5)),
    ('power', lambda u: operator.imul(u ** 1, 3)),
    ('quotient', lambda u: operator.iadd(u / u, 3)),
    ('abs', lambda u: abs(u).fill(2)), ('neg', lambda u: operator.imul(-u, 2)),
    ('Quantity', lambda u: pq.Quantity(u).fill(2)),
    ('Quantity units', lambda u: pq.Quantity(2.0, u).fill(3)),
    ('units of', lambda u: operator.imul((2.0 * u).units, 3)),
    ('dim of', lambda u: (2.0 * u).dimensionality.clear()),
    ('UQ', lambda u: operator.imul(UQ(2.0, u, 0.5), 3)),
    ('copy', lambda u: copy.copy(u).fill(3)), ('deepcopy', lambda u: copy.deepcopy(u).fill(3)),
    ('pickle', lambda u: pickle.loads(pickle.dumps(u)).fill(3)),
    ('copy *', lambda u: operator.imul(copy.copy(u), 3)),
    ('max', lambda u: operator.imul(u.max(), 3)), ('sum', lambda u: operator.imul(u.sum(), 3)),
    ('sqrt', lambda u: operator.imul(np.sqrt(u), 3)),
    ('str', lambda u: (str(u), repr(u), '%s' % u, format(1 * u))),
    ('sort', lambda u: u.sort()), ('partition', lambda u: u.partition(0)),
    ('byteswap', lambda u: u.byteswap(True)), ('resize', lambda u: u.resize(2)),
]


def state(u):
    """What anyone can see of a unit"""
    d = u.definition
    s = u.simplified
    return (type(u).__name__, u.shape, str(u.dtype), np.asarray(u).tobytes(), u.name, u.symbol,
            u.u_symbol, unit_of(1 * u), np.asarray(d).tobytes(), unit_of(1 * d), repr(u),
            np.asarray(s).tobytes(), unit_of(s), u.flags.writeable, hash(u))


def subject(s):
    kind, n = s
    if kind == 'unit':
        return unit(n)
    if kind == 'constant':
        return getattr(pq.constants, n)
    if kind == 'compound':
        return pq.CompoundUnit(n)
    if kind == 'user':
        return pq.UnitQuantity(fresh(), eval(n, {'pq': pq}))
    return getattr(pq, kind)(fresh(), eval(n, {'pq': pq}))


def subjects():
    for n in GOLD:
        yield ['unit', n]
    from .c17 import PUBLISHED
    for n in PUBLISHED[::9]:
        yield ['constant', n]
    for n in ('m*s', 'ft**2', 'kg*m**2/s', '1/cm', 'mV/ms', 'm'):
        yield ['compound', n]
    for n in ('3*pq.m', 'pq.ft', '2.5*pq.J/pq.s**0.5', '7', '1.5*pq.constants.h', '1*pq.dimensionless',
              "pq.UncertainQuantity(3, 'm', 0.1)", "pq.Quantity(4, 'kg*m')", 'None'):
        yield ['user', n]
    for k, n in (('UnitMass', '3*pq.kg'), ('UnitLength', '2*pq.ft'), ('UnitTime', 'pq.s'),
                 ('UnitCurrency', 'None'), ('UnitTemperature', '3*pq.K'), ('UnitInformation', '9*pq.bit'),
                 ('UnitSubstance', '1e3*pq.mol'), ('UnitCurrent', '2*pq.A'),
                 ('UnitLuminousIntensity', '4*pq.cd'), ('UnitConstant', '2*pq.ft')):
        yield [k, n]


def check_subject(s, ev):
    u = subject(s)
    before = state(u)
    others = [state(pq.m), state(pq.inch), state(pq.dimensionless), state(pq.J)]
    for n, f in ATTEMPTS:
        e = raises(f, u)
        if e is None:
            fail('no error from', n, 'on', s)
        if state(u) != before:
            fail(n, 'changed', s, 'from', before, 'to', state(u))
    for n, f in HARMLESS:
        raises(f, u)
        if state(u) != before:
            fail(n, 'changed', s, 'from', before, 'to', state(u))
    if [state(pq.m), state(pq.inch), state(pq.dimensionless), state(pq.J)] != others:
        fail('attempts on', s, 'changed another unit')
    if s[0] in ('UnitMass', 'UnitLength', 'UnitTime', 'UnitTemperature', 'UnitInformation',
                'UnitSubstance', 'UnitCurrent', 'UnitLuminousIntensity'):
        want_default = {c.__name__: d for c, d in lib.DEFAULTS}[s[0]]
        if getattr(pq, s[0]).get_default_unit() is not want_default:
            fail('defining a unit changed the default unit')
    ev.tag(s[0])
    ev.nt()


# ---------------------------------------------------------------- histories

LABELS = [(l, n) for n, e in GOLD.items() for l in e['labels'] if l.isidentifier()
          and l not in ('in', 'as') and n not in COMPOUND]
KINDS = ['UnitQuantity', 'UnitQuantity', 'UnitQuantity', 'UnitLength', 'UnitConstant', 'UnitMass']


@st.composite
def histories(draw):
    steps = []
    n = draw(st.integers(2, 14))
    for _ in range(n):
        k = draw(st.sampled_from(
            ['define', 'define', 'define', 'again', 'conflict', 'conflict', 'conflict', 'direct',
             'attempt', 'attempt', 'harmless', 'source', 'default', 'parse', 'compound', 'pickle',
             'garbage', 'copy']))
        s = {'k': k, 'i': draw(st.integers(0, 999))}
        if k in ('define', 'conflict', 'source'):
            s['x'] = draw(st.sampled_from([1, 2, 0.5, 12, 3.25, 1000, 1e-3]))
            s['u'] = draw(gen.expr(max_units=2, exps=st.sampled_from([1, 1, -1, 2, 0.5])))
            s['symbol'] = draw(st.booleans())
            s['aliases'] = draw(st.integers(0, 2))
            s['kind'] = draw(st.sampled_from(KINDS))
            s['early'] = draw(st.sampled_from([None, None, '%s', '%s', '%s**2', '3*%s', 'm/%s']))
            s['on'] = draw(st.integers(0, 999)) if draw(st.booleans()) else None
        if k == 'conflict':
            s['where'] = draw(st.sampled_from(['name', 'symbol', 'alias', 'last alias']))
        if k in ('conflict', 'direct'):
            s['label'] = list(draw(st.sampled_from(LABELS))) if draw(st.booleans()) else None
        if k == 'direct':
            s['u'] = draw(gen.expr(min_units=1, max_units=1, exps=st.just(1)))
        if k in ('attempt', 'harmless'):
            s['unit'] = draw(st.sampled_from(gen.ALL)) if draw(st.booleans()) else None
            s['j'] = draw(st.integers(0, 999))
        if k == 'default':
            s['d'] = draw(st.sampled_from(['SI', 'cgs', {'length': 'ft'}, {'mass': 'lb'},
                                           {'length': 'kg'}, {'time': 'h', 'length': 'nonsense'}]))
        if k == 'parse':
            s['t'] = draw(st.sampled_from(['m*', 'ft', 'm**2', 'nonsense', 'x=1', '__import__("os")',
                                           'm.real', '3', 'm+s', 'm if s else kg', '(m:=3)', 'm^2']))
        steps.append(s)
    return {'s': steps, 'look': [list(x) for x in draw(st.lists(st.sampled_from(LABELS), max_size=8))]}


class World:
    def __init__(self):
        self.units = {}       # name -> [factor, dims, object, labels]
        self.taken = {}       # label -> name
        self.touched = {}     # predefined label -> name

    def pick(self, i):
        ns = list(self.units)
        return self.units[ns[i % len(ns)]] if ns else None

    def verify(self, what):
        for label, n in self.taken.items():
            f, d, u = self.units[n][:3]
            self.denotes(label, u, f, d, what)
        for label, n in self.touched.items():
            self.denotes(label, unit(n), FACTOR[n], DIMS[n], what)

    @staticmethod
    def denotes(label, u, f, d, what):
        q = Quantity(2.0, label)
        if unit_of(q) != ({} if isinstance(u, type(pq.dimensionless)) else {u.name: 1.0}):
            fail('after', what, 'the label', label, 'denotes', unit_of(q), 'instead of', u.name)
        base = [[BASE_OF[k], float(v)] for k, v in d.items()]
        r = q.rescale(dimensionality(base))
        want(mag(r), 2 * f, 1e-9, what='after %s %s' % (what, label))


def build(s, name, symbol, aliases, w):
    """A definition and its SI value"""
    f, d = si_factor(s['u']) * s['x'], si_dims(s['u'])
    q = s['x'] * unit_quantity(s['u'])
    o = w.pick(s['on']) if s['on'] is not None else None
    if o is not None:
        q = q * o[2]
        f *= o[0]
        for k, v in o[1].items():
            d[k] = d.get(k, 0) + v
        d = {k: v for k, v in d.items() if v}
    return f, d, q


def define(s, name, symbol, aliases, q):
    cls = getattr(pq, s['kind'])
    if s['kind'] in ('UnitMass', 'UnitLength') and \
            raises(q.rescale, pq.kg if s['kind'] == 'UnitMass' else pq.m):
        cls = pq.UnitQuantity
    return cls(name, q, symbol=symbol, aliases=aliases)


def registered(s, cls_name):
    return cls_name != 'UnitConstant'


def check_history(s, ev):
    w = World()
    for label, n in s['look']:
        w.touched[label] = n
    tried = False
    for step in s['s']:
        k = step['k']
        defaults = defaults_now()
        if k in ('define', 'source'):
            name = fresh()
            symbol = fresh('sy') if step['symbol'] else None
            aliases = [fresh('al') for _ in range(step['aliases'])]
            f, d, q = build(step, name, symbol, aliases, w)
            if not 1e-100 < f < 1e100:
                continue
            labels = [name] + ([symbol] if symbol else []) + aliases
            if step['early']:
                # somebody asks for it too early
                for l in labels:
                    must_raise('the text %s before it is defined' % l, Quantity, 1.0, step['early'] % l)
            u = define(step, name, symbol, aliases, q)
            w.units[name] = [f, d, u, labels, step, q]
            if registered(step, step['kind']):
                for l in labels:
                    w.taken[l] = name
            if k == 'source' and type(q) is Quantity:
                # the quantity of the definition belongs to the caller
                before = state(u)
                q *= 3
                if state(u) != before:
                    fail('changing the quantity changed the unit', before, state(u))
        elif k == 'again':
            o = w.pick(step['i'])
            if o is None:
                continue
            f, d, u, labels, st_ = o[:5]
            symbol = labels[1] if st_['symbol'] else None
            f2, d2, q2 = build({**st_, 'on': None}, None, None, None, w)
            if st_['on'] is None:
                v = define(st_, u.name, symbol, labels[2 if symbol else 1:], q2)
                if v.name != u.name:
                    fail('name', v.name)
                tried = True
        elif k == 'conflict':
            o = w.pick(step['i'])
            if step['label'] is None and (o is None or not registered(step, o[4]['kind'])):
                continue
            if step['label'] is not None:
                label, n = step['label']
                taken_f, taken_d, taken_n = FACTOR[n], DIMS[n], n
                w.touched[label] = n
            else:
                label = o[3][step['i'] % len(o[3])]
                taken_f, taken_d, taken_n = o[0], o[1], o[2].name
            f, d, q = build(step, None, None, None, w)
            if d == taken_d and abs(f / taken_f - 1) < 1e-6 or not 1e-100 < f < 1e100 \
                    or step['kind'] == 'UnitConstant':
                continue
            new = [fresh(), fresh('sy'), fresh('al'), fresh('am')]
            i = {'name': 0, 'symbol': 1, 'alias': 2, 'last alias': 3}[step['where']]
            new[i] = label
            must_raise('defining %s again' % label, define, step, new[0], new[1], new[2:], q)
            for x in new:
                if x != label:
                    must_raise('the text %s after the rejected definition' % x, Quantity, 1.0, x)
            if defaults_now() != defaults:
                fail('a rejected definition changed the default units')
            tried = True
        elif k == 'direct':
            o = w.pick(step['i'])
            if step['label'] is not None:
                label, n = step['label']
                w.touched[label] = n
                f, d = FACTOR[n], DIMS[n]
            elif o is not None and registered(step, o[4]['kind']):
                label, f, d = o[3][0], o[0], o[1]
            else:
                continue
            n = step['u'][0][0]
            if DIMS[n] == d and abs(FACTOR[n] / f - 1) < 1e-6:
                continue
            must_raise('registering %s for %s' % (label, n), unit_registry.__setitem__, label, unit(n))
            tried = True
        elif k in ('attempt', 'harmless'):
            o = w.pick(step['i'])
            u = unit(step['unit'] or 'foot') if step['unit'] or o is None else o[2]
            if step['unit']:
                w.touched[label_of(step['unit'])] = step['unit']
            todo = ATTEMPTS if k == 'attempt' else HARMLESS
            n, f = todo[step['j'] % len(todo)]
            before = state(u)
            e = raises(f, u)
            if k == 'attempt' and e is None:
                fail('no error from', n, 'on', u.name)
            if state(u) != before:
                fail(n, 'changed', before, 'to', state(u))
            tried = True
        elif k == 'default':
            d = step['d']
            raises(lambda: pq.set_default_units(d) if isinstance(d, str) else pq.set_default_units(**d))
        elif k == 'parse':
            raises(Quantity, 1.0, step['t'])
        elif k == 'garbage':
            for bad in (1, None, b'x', ('a',)):
                must_raise('the name %r' % (bad,), pq.UnitQuantity, bad, 2 * pq.m)
            must_raise('the symbol 5', pq.UnitQuantity, fresh(), 2 * pq.m, symbol=5)
        elif k in ('pickle', 'copy', 'compound'):
            o = w.pick(step['i'])
            if o is None:
                continue
            u = o[2]
            if k == 'compound':
                if registered(step, o[4]['kind']):
                    c = pq.CompoundUnit(u.name)
                    raises(operator.imul, c, 3)
                    want(mag((1 * c).rescale(u)), 1.0, what='compound')
            else:
                before = state(u)
                v = pickle.loads(pickle.dumps(u)) if k == 'pickle' else copy.deepcopy([u, copy.copy(u)])[0]
                if state(v)[:-1] != before[:-1] or state(u) != before:
                    fail('a copy of', before, 'is', state(v), 'and the unit', state(u))
        w.verify(k)
    for c, u in lib.DEFAULTS:
        c.set_default_unit(u)
    w.verify('everything')
    for n in NAMES:
        u = unit(n)
        if u.shape != () or np.asarray(u)[()] != 1.0 or (u.name != n and n != 'dimensionless'):
            fail(n, 'is', u.name, np.asarray(u))
    for f, d, u, labels in [x[:4] for x in w.units.values()]:
        if np.asarray(u)[()] != 1.0 or u.name != labels[0]:
            fail(u.name, 'has changed')
        base = [[BASE_OF[k], float(v)] for k, v in d.items()]
        r = (1 * u).rescale(dimensionality(base))
        want(mag(r), f, 1e-9, what=u.name)
        r = (1 * u.definition).rescale(dimensionality(base))
        want(mag(r), f, 1e-9, what='the definition of ' + u.name)
    ev.nt(tried)
    for x in s['s']:
        ev.tag(x['k'])


_LABEL_OF = {}
for _l, _n in LABELS:
    _LABEL_OF.setdefault(_n, _l)


def label_of(n):
    return _LABEL_OF.get(n, n)


SUBS = [
    Sub('attempts', check_subject, cases=subjects, shards=8),
    Sub('histories', check_history, histories, quick=900),
]
