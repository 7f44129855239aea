"""Base-unit simplification is faithful under every choice of default units"""
from hypothesis import strategies as st

from . import gen
from .core import Sub
from .lib import *

RULE = """A case is a history of default-unit selections (systems in any case,
single units by name or object, several at once, through set_default_units or the
class method, including ones that must be rejected) interleaved with simplifying
quantities, units and dimension expressions. A model tracks the selected unit of
each base dimension. Non-trivial: some quantity with a dimension is simplified while
a selection other than the initial one is active, or after a rejected selection."""

KIND = {  # keyword -> (class, base dimension)
    'mass': (uqmod.UnitMass, 'kg'), 'length': (uqmod.UnitLength, 'm'),
    'time': (uqmod.UnitTime, 's'), 'current': (uqmod.UnitCurrent, 'A'),
    'luminous_intensity': (uqmod.UnitLuminousIntensity, 'cd'),
    'substance': (uqmod.UnitSubstance, 'mol'),
    'temperature': (uqmod.UnitTemperature, 'K'),
    'information': (uqmod.UnitInformation, 'bit'),
}
OF_DIM = {d: k for k, (c, d) in KIND.items()}
CHOICES = {k: lib_names for k, lib_names in (
    (k, [n for n in CLASS[dims_key({d: Fraction(1)})]
         if n not in COMPOUND])
    for k, (c, d) in KIND.items())}
INITIAL = {'kg': 'kilogram', 'm': 'meter', 's': 'second', 'A': 'ampere',
           'cd': 'candela', 'mol': 'mole', 'K': 'Kelvin', 'bit': 'bit'}
SYSTEMS = {
    'si': {'A': 'ampere', 'm': 'meter', 'kg': 'kilogram'},
    'cgs': {'m': 'centimeter', 'kg': 'gram'},
}
COMMONSYS = {'cd': 'candela', 'mol': 'mole', 'K': 'Kelvin', 's': 'second'}

kind_name = st.sampled_from(sorted(KIND))


@st.composite
def selection(draw):
    how = draw(st.sampled_from(['system', 'kw', 'kw', 'kw', 'both', 'class',
                                'class', 'badunit', 'badname', 'badsystem', 'multi-bad']))
    op = {'op': how, 'obj': draw(st.booleans())}
    if how in ('system', 'both'):
        op['system'] = draw(st.sampled_from(['SI', 'cgs', 'si', 'CGS', 'Si']))
    if how in ('kw', 'both', 'class', 'multi-bad'):
        ks = draw(st.lists(kind_name, min_size=1,
                           max_size=1 if how == 'class' else 3, unique=True))
        op['kw'] = [[k, draw(st.sampled_from(CHOICES[k]))] for k in ks]
        # a unit of the user instead, defined with another one
        op['own'] = draw(st.one_of(st.none(), st.none(), st.sampled_from(['plain', 'class', 'alias'])))
        op['x'] = draw(st.sampled_from([3, 2.5, 1000.0, 0.04, 1]))
    if how in ('badunit', 'badname', 'multi-bad') and draw(st.booleans()):
        op['system'] = draw(st.sampled_from(['SI', 'cgs', 'CGS']))
    if how in ('badunit', 'multi-bad'):
        k = draw(kind_name)
        others = [n for n in gen.ALL if dims_key(DIMS[n]) != dims_key(DIMS[CHOICES[k][0]])]
        op['bad'] = [k, draw(st.sampled_from(others))]
    if how == 'badname':
        op['bad'] = [draw(kind_name), draw(st.sampled_from(['nosuchunit_xyz', 'm//', '2*m', '']))]
    if how == 'badsystem':
        op['system'] = draw(st.sampled_from(['mks', 'S.I.', '', 'imperial', 'cgsm', 'SI2', 's', 'cg', 'cgs SI', 'isc', 'sicgs', 'none']))
    return op


@st.composite
def history(draw):
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        if draw(st.integers(0, 2)):
            ops.append({'op': 'simplify',
                        'q': draw(gen.quantity(bare_units=True, big=True, dtypes=gen.ANY)),
                        'to': None})
            ops[-1]['to'] = draw(gen.compatible_expr(q_expr(ops[-1]['q'])))
        else:
            ops.append(draw(selection()))
    return {'ops': ops}


def apply_selection(op, model):
    """Returns whether the selection was applied"""
    how = op['op']

    def arg(n):
        return unit(n) if op['obj'] else label(n, 1)
    if op.get('own'):
        own = []
        for k, n in op['kw']:
            m = fresh()
            cls = KIND[k][0] if op['own'] == 'class' else pq.UnitQuantity
            u = cls(m, op['x'] * unit(n), symbol=m + 's' if op['own'] == 'alias' else None)
            EXTRA[m] = (op['x'] * fac(n), dim(n), u)
            own.append([k, m])
        op = dict(op, kw=own)
    if how in ('system', 'kw', 'both'):
        kw = {k: arg(n) for k, n in op.get('kw', [])}
        if 'system' in op:
            kw['system'] = op['system']
            model.update(COMMONSYS)
            model.update(SYSTEMS[op['system'].lower()])
        for k, n in op.get('kw', []):
            model[KIND[k][1]] = n
        pq.set_default_units(**kw)
        return True
    if how == 'class':
        (k, n), = op['kw']
        KIND[k][0].set_default_unit(arg(n))
        model[KIND[k][1]] = n
        return True
    if how == 'badsystem':
        must_raise('system %r' % op['system'], pq.set_default_units, system=op['system'])
    else:
        k, n = op['bad']
        bad = n if how == 'badname' else arg(n)
        kw = {kk: arg(nn) for kk, nn in op.get('kw', []) if kk != k}
        kw[k] = bad
        if 'system' in op:
            kw['system'] = op['system']
        must_raise('set_default_units(%r)' % (kw,), pq.set_default_units, **kw)
        if how == 'badunit':
            must_raise('set_default_unit', KIND[k][0].set_default_unit, bad)
    return False


def default_expr(dims, model):
    return [[model[k], float(v)] for k, v in dims.items()]


def check_simplify(q, a, e, to, model, ev):
    want_e = default_expr(si_dims(e), model)
    r = ratio(e, want_e)
    if not 1e-200 < r < 1e200:
        return
    before = snap(q)
    s = q.simplified
    want_unit(s, want_e, 'simplified')
    with np.errstate(all='ignore'):
        want(mag(s), a.astype('c16' if a.dtype.kind == 'c' else 'f8') * r,
             tol(a.dtype), what='simplified magnitude')
    s2 = s.simplified
    want_unit(s2, want_e, 'simplified twice')
    want(mag(s2), mag(s), 1e-11, what='simplified twice')
    got = names_of(q.dimensionality.simplified)
    if got != {n: float(x) for n, x in merge(want_e).items()}:
        fail('Dimensionality.simplified is', got, 'instead of', want_e)
    # conversions do not depend on the defaults
    r = ratio(e, to)
    if 1e-200 < r < 1e200 and a.dtype.str[1:] in ('f8', 'i8', 'c16'):
        target = spell(to, 'dim' if any(n in COMPOUND for n, _ in to) else 'string')
        c = q.rescale(target)
        want_unit(c, to)
        with np.errstate(all='ignore'):
            want(mag(c), a * r, 1e-10, what='conversion under other defaults')
            if si_dims(e):
                want(mag(s.rescale(target)), a * r, 1e-10,
                     what='conversion of the simplified quantity')
    if snap(q) != before:
        fail('simplifying changed the quantity')


def check_history(s, ev):
    try:
        _check_history(s, ev)
    finally:
        EXTRA.clear()


def _check_history(s, ev):
    model = dict(INITIAL)
    kept = []
    changed = False
    for op in s['ops']:
        if op['op'] == 'simplify':
            a, e = q_arr(op['q']), q_expr(op['q'])
            if a.dtype.itemsize < 8:
                a = a.astype('f8')
                q = Quantity(a, dimensionality(e))
            else:
                q = qty(op['q'])
            kept.append((q, a, e, op['to']))
            check_simplify(q, a, e, op['to'], model, ev)
            ev.nt(changed and si_dims(e))
            ev.tag('changed' if changed else 'initial', a.dtype.str[1:])
        else:
            apply_selection(op, model)
            if op.get('own'):
                ev.tag('own ' + op['own'])
            changed = changed or model != INITIAL or 'bad' in op
            ev.tag(op['op'])
    for k, (cls, d) in KIND.items():
        if cls.get_default_unit().name != model[d]:
            fail('default', k, 'is', cls.get_default_unit().name, 'not', model[d])
    for x in kept:      # quantities made before the later selections
        check_simplify(*x, model, ev)


def all_units():
    for n in gen.ALL + COMPOUND + ['dimensionless']:
        for sysname in ('SI', 'cgs'):
            yield {'n': n, 'system': sysname}


def check_unit(s, ev):
    model = dict(INITIAL)
    apply_selection({'op': 'system', 'system': s['system'], 'obj': True}, model)
    u = unit(s['n'])
    check_simplify(u, np.array(1.0), [[s['n'], 1]], [[s['n'], 1]], model, ev)
    check_simplify(3.0 * u, np.array(3.0), [[s['n'], 1]], [[s['n'], 1]], model, ev)
    ev.nt(s['n'] not in model.values())


SUBS = [
    Sub('history', check_history, history, quick=1500),
    Sub('every_unit', check_unit, cases=all_units),
]
