"""Physical constants match the bundled reference data and each other"""
import math
import os
import re

from hypothesis import strategies as st

import quantities.constants as C
from quantities.constants._codata import physical_constants as TABLE

from . import gen
from .core import Sub
from .lib import *

RULE = """Complete enumeration: every line of the reference data file, every named constant,
every symbol, and the physical relations which follow from the names (mass and mass energy,
ratios, x-y relationships and their inverses, quantities in other units, values over 2 pi)
or are listed by hand. Generated: multiples, products and powers of constants with units
converted to and fro under random default units. Non-trivial: every line, constant and
relation; for generated cases, those which convert between different units."""

ASSUMPTIONS = ['the bundled NIST file is the reference',
               'the entry in units of C_90 has no unit in the package and is not built']

FILE = os.path.join(os.path.dirname(C.__file__), 'NIST_codata.txt')


def read():
    """An independent reading of the reference file"""
    with open(FILE, encoding='utf-8') as f:
        text = f.read().splitlines()
    start = [i for i, l in enumerate(text) if l.startswith('-----')][0] + 1
    out = {}
    for l in text[start:]:
        if not l.strip():
            continue
        name, v, p, u = l[:55].strip(), l[55:77].strip(), l[77:99].strip(), l[99:].strip()
        for a, b in (('mom.', 'moment'), ('mag.', 'magnetic')):
            name = name.replace(a, b)
        x = float(v.replace(' ', '').replace('...', ''))
        s = 0.0 if p == '(exact)' else float(p.replace(' ', ''))
        out[name] = (x, s, u, '...' in v)
    return out


REF = read()
MOLAR = 'C_90 mol^-1'
UNIT_WORD = {'A': 'ampere', 'C': 'coulomb', 'E_h': 'hartree', 'F': 'farad', 'Hz': 'hertz',
             'J': 'joule', 'K': 'Kelvin', 'N': 'newton', 'Pa': 'pascal', 'S': 'siemens',
             'T': 'tesla', 'V': 'volt', 'W': 'watt', 'Wb': 'weber', 'c': 'speed_of_light',
             'eV': 'electron_volt', 'MeV': 'MeV', 'GeV': 'GeV', 'MHz': 'megahertz',
             'fm': 'femtometer', 'kg': 'kilogram', 'm': 'meter', 'mol': 'mole', 'ohm': 'ohm',
             's': 'second', 'sr': 'steradian', 'u': 'atomic_mass_unit'}


def ref_expr(u):
    """The unit column as an expression"""
    out = []

    def add(text, k):
        for w in text.split():
            for i, part in enumerate(w.split('/')):
                n, _, e = part.partition('^')
                out.append([UNIT_WORD[n], int(e or 1) * k * (-1 if i else 1)])
    m = re.fullmatch(r'\((.*)\)\^(-?\d+)', u)
    if m:
        add(m.group(1), int(m.group(2)))
    else:
        add(u, 1)
    return [list(x) for x in merge(out).items()]


# named constants which are not called like their entry
KEY = {
    'silicon_220_lattice_spacing': '{220} lattice spacing of silicon',
    'Loschmidt_constant': 'Loschmidt constant (273.15 K, 101.325 kPa)',
    'molar_volume_of_ideal_gas_ST_100kPa': 'molar volume of ideal gas (273.15 K, 100 kPa)',
    'molar_volume_of_ideal_gas_STP': 'molar volume of ideal gas (273.15 K, 101.325 kPa)',
    'Sackur_Tetrode_constant_ST_100kPa': 'Sackur-Tetrode constant (1 K, 100 kPa)',
    'Sackur_Tetrode_constant_STP': 'Sackur-Tetrode constant (1 K, 101.325 kPa)',
}
KEY.update({re.sub(r'\W+', '_', k.replace('/', '_per_')): k for k in REF})

# the short names
SHORT = {a: k for k, v in {
    'alpha particle mass': 'm_alpha', 'Newtonian constant of gravitation': 'G',
    'atomic mass constant': 'amu', 'atomic unit of action': 'hbar',
    'Bohr radius': 'a_0', 'electron mass': 'm_e', 'Hartree energy': 'E_h',
    'unified atomic mass unit': 'u', 'deuteron rms charge radius': 'R_d', 'deuteron mass': 'm_d',
    'deuteron g factor': 'g_d', 'deuteron magnetic moment': 'mu_d',
    'characteristic impedance of vacuum': 'Z_0 impedence_of_free_space',
    'electric constant': 'epsilon_0 vacuum_permittivity', 'magnetic constant': 'mu_0',
    'elementary charge': 'e', 'classical electron radius': 'r_e', 'Compton wavelength': 'lambda_C',
    'electron g factor': 'g_e', 'electron gyromagnetic ratio': 'gamma_e',
    'electron magnetic moment': 'mu_e', 'electron magnetic moment anomaly': 'a_e',
    'electron volt': 'eV', 'Thomson cross section': 'sigma_e', 'Bohr magneton': 'mu_B',
    'helion mass': 'm_h', 'shielded helion gyromagnetic ratio': 'gamma_prime_h',
    'shielded helion magnetic moment': 'mu_prime_h', 'muon mass': 'm_mu',
    'muon Compton wavelength': 'lambda_C_mu', 'muon g factor': 'g_mu',
    'muon magnetic moment': 'mu_mu', 'muon magnetic moment anomaly': 'a_mu',
    'neutron mass': 'm_n', 'neutron Compton wavelength': 'lambda_C_n', 'neutron g factor': 'g_n',
    'neutron gyromagnetic ratio': 'gamma_n', 'neutron magnetic moment': 'mu_n',
    'proton mass': 'm_p', 'proton Compton wavelength': 'lambda_C_p',
    'proton rms charge radius': 'R_p', 'proton g factor': 'g_p',
    'proton gyromagnetic ratio': 'gamma_p', 'proton magnetic moment': 'mu_p',
    'proton magnetic shielding correction': 'sigma_prime_p',
    'shielded proton gyromagnetic ratio': 'gamma_prime_p',
    'shielded proton magnetic moment': 'mu_prime_p', 'nuclear magneton': 'mu_N',
    'Planck constant': 'h', 'Planck length': 'l_P', 'Planck mass': 'm_P',
    'Planck temperature': 'T_P', 'Planck time': 't_P', 'Rydberg constant': 'R_infinity',
    'conductance quantum': 'G_0', 'conventional value of Josephson constant': 'K_J90',
    'conventional value of von Klitzing constant': 'R_K90', 'fine-structure constant': 'alpha',
    'first radiation constant': 'c_1',
    'first radiation constant for spectral radiance': 'c_1L', 'Josephson constant': 'K_J',
    'magnetic flux quantum': 'Phi_0', 'second radiation constant': 'c_2',
    'Stefan-Boltzmann constant': 'sigma', 'von Klitzing constant': 'R_K',
    'Wien frequency displacement law constant': 'b_prime',
    'Wien wavelength displacement law constant': 'b', 'Avogadro constant': 'N_A L',
    'Loschmidt constant (273.15 K, 101.325 kPa)': 'n_0', 'molar gas constant': 'R',
    'Boltzmann constant': 'k', 'molar mass constant': 'M_u', 'tau mass': 'm_tau',
    'tau Compton wavelength': 'lambda_C_tau', 'triton mass': 'm_t', 'triton g factor': 'g_t',
    'triton magnetic moment': 'mu_t', '{220} lattice spacing of silicon': 'd_220 a_Si_220',
    'lattice parameter of silicon': 'a a_Si_100',
}.items() for a in v.split()}

ATTR = {a for a in dir(C) if isinstance(getattr(C, a), pq.UnitConstant)}
# what the named constants were when this check was written
with open(os.path.join(HERE, 'constants.txt'), encoding='utf-8') as _f:
    PUBLISHED = _f.read().split()


# ---------------------------------------------------------------- the file

def lines():
    yield from REF


def check_line(k, ev):
    x, s, u, _ = REF[k]
    if k not in TABLE:
        fail('no entry', k)
    e = TABLE[k]
    if e['value'] != x or e['precision'] != s:
        fail(k, 'is', e, 'instead of', x, '+-', s)
    ev.nt()
    if u == MOLAR:
        return
    q = Quantity(e['value'], e['units'])
    want_unit(q, ref_expr(u), k)
    q = UQ(e['value'], e['units'], e['precision'])
    consistent(q, x, s, ref_expr(u), k)
    n = [a for a, b in KEY.items() if b == k and a in ATTR]
    ev.tag('named' if n else 'table only')
    if set(TABLE) - set(REF):
        fail('entries which the reference data does not have', set(TABLE) - set(REF))


def consistent(q, x, s, expr, what):
    want_unit(q, expr, what)
    same_exact(float(mag(q)), x, what)
    same_exact(float(mag(q.uncertainty)), s, what + ' uncertainty')


# ---------------------------------------------------------------- named constants

def published():
    yield from PUBLISHED


EXTRA_VALUE = {'pi': math.pi, 'golden': (1 + math.sqrt(5)) / 2,
               'golden_ratio': (1 + math.sqrt(5)) / 2}
AU = ('au', 'astronomical_unit')


def check_named(a, ev):
    c = getattr(C, a)
    if not isinstance(c, pq.UnitConstant):
        fail(a, 'is a', type(c))
    ev.nt()
    key = KEY.get(a) or SHORT.get(a)
    if a in AU:
        x, expr = 149597870700.0, [['meter', 1]]
    elif a in EXTRA_VALUE:
        x, expr = EXTRA_VALUE[a], []
    else:
        if key is None:
            fail('unknown constant', a)
        x, s, u, _ = REF[key]
        expr = ref_expr(u)
    d = c.definition
    want_unit(d, expr, a)
    same_exact(float(mag(d)), x, a)
    if float(mag(c)) != 1 or c.shape != ():
        fail('magnitude', c.magnitude)
    if key and a not in SHORT and c.name != a:
        fail('the name of', a, 'is', c.name)
    if a in SHORT and KEY[c.name] != key and (a, c.name) not in (
            ('hbar', 'Planck_constant_over_2_pi'), ('a_0', 'atomic_unit_of_length')):
        fail(a, 'is', c.name)
    # conversion to the units of the entry, and to base units
    r = (1 * c).rescale(dimensionality(expr))
    want(mag(r), x, 1e-13, what=a)
    want_unit(r, expr, a)
    base = [[BASE_OF[k], float(v)] for k, v in si_dims(expr).items()]
    for r in (Quantity(2.0, c).rescale(dimensionality(base)), (2.0 * c).simplified,
              2.0 * c.simplified):
        want(mag(r), 2 * x * si_factor(expr), 1e-11, what=a)
        want_unit(r, base, a)
    back = Quantity(x, dimensionality(expr)).rescale(c)
    want(mag(back), 1.0, 1e-13, what=a)
    if back.dimensionality != (1 * c).dimensionality:
        fail('converted to', back.dimensionality)
    ev.tag(type(c).__name__)


# ---------------------------------------------------------------- symbols

SUBST = [('α', 'alpha'), ('ₑ', '_e'), ('₀', '_0'), ('·', '*'), ('ħ', 'hbar'), ('ε', 'epsilon'),
         ('μ', 'mu'), ('Φ', 'Phi'), ('ƛ', 'lambdabar'), ('λ', 'lambda'), ('γ', 'gamma'),
         ('′', 'prime'), ('σ', 'sigma'), ('π', 'pi'), ('ᵤ', '_u'), ('∞', 'infinity'),
         ('τ', 'tau'), ('₁', '_1'), ('₂', '_2'), ('⁻¹', '**-1'), ('²', '**2'), ('³', '**3'),
         ('⁴', '**4')]


def ascii_form(s):
    for a, b in SUBST:
        s = s.replace(a, b)
    return s.replace('_', '')


def constants():
    seen = set()
    for a in sorted(ATTR):
        c = getattr(C, a)
        if id(c) not in seen:
            seen.add(id(c))
            yield c


def value_of(c):
    """SI value and relative uncertainty"""
    key = KEY.get(c.name)
    f = float(mag(c.simplified))
    if key is None:
        return f, 0.0
    x, s, u, cut = REF[key]
    return f, abs(s / x) + (1e-11 if cut else 0)


def symbols():
    for c in constants():
        yield c.name


def check_symbol(n, ev):
    c = getattr(C, n)
    s, u = c.symbol, c.u_symbol
    if c.symbol == c.name:
        return
    ev.nt()
    if u != c.symbol and n not in ('Planck_constant_over_2_pi', 'golden_ratio', 'pi',
                                   'molar_mass_of_carbon_12', 'silicon_220_lattice_spacing',
                                   'Angstrom_star'):
        if ascii_form(u) != ascii_form(s):
            fail('the symbols of', n, 'disagree:', s, u)
    # a symbol which is an expression is the expression of the constants
    names = {}
    for o in constants():
        if o.symbol.isidentifier():
            names.setdefault(o.symbol, []).append(o)
    value, rel = value_of(c)
    if s.isidentifier():
        for o in names[s]:
            v, r = value_of(o)
            if DIM(o) != DIM(c) or abs(v - value) > 3 * (r + rel) * abs(value) + 1e-12 * abs(value):
                fail(n, 'and', o.name, 'share the symbol', s)
        ev.tag('simple')
        return
    if not re.fullmatch(r'[\w*/() .-]+', s) or s in ('A*',):
        return
    if not (s.startswith('(') and s.endswith(')')) and re.search(r'[*/]', s):
        fail('the symbol', s, 'is an expression without parentheses')
    env, rels = {'c': 299792458.0, 'pi': math.pi, '__builtins__': {}}, rel
    for w in set(re.findall(r'[A-Za-z_]\w*', s)) - {'c', 'pi'}:
        if w == 'gammaprime_h':
            pass
        if w not in names:
            if w in ('G_F', 'M_C12'):
                return
            fail('the symbol', s, 'has the unknown part', w)
        v, r = value_of(names[w][0])
        env[w] = v
        rels += 4 * r
    v = eval(s, env)
    if s == '(G_F/(hbar*c)**3)':
        return
    if abs(v - value) > (3 * rels + 1e-8) * abs(value):
        fail(n, 'is', value, 'but its symbol', s, 'is', v)
    ev.tag('expression')


def DIM(c):
    return {k.symbol: frac(x) for k, x in c.simplified.dimensionality.items()}


# ---------------------------------------------------------------- physical laws

class V:
    """A value with a bound on its relative error"""

    def __init__(self, x, r=0.0):
        self.x, self.r = x, r

    def __mul__(self, o):
        o = o if isinstance(o, V) else V(o)
        return V(self.x * o.x, self.r + o.r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = o if isinstance(o, V) else V(o)
        return V(self.x / o.x, self.r + o.r)

    def __rtruediv__(self, o):
        return V(o) / self

    def __pow__(self, k):
        return V(self.x ** k, abs(k) * self.r)

    def __neg__(self):
        return V(-self.x, self.r)


def raw(key):
    """The number of the constant, as the package has it, in the unit of its entry"""
    x, s, u, cut = REF[key]
    n = re.sub(r'\W+', '_', key.replace('/', '_per_'))
    n = [a for a, k in KEY.items() if k == key and a in ATTR]
    v = float(mag(getattr(C, n[0]).definition)) if n else TABLE[key]['value']
    return V(v, abs(s / x) + (1e-10 if cut else 0))


def laws():
    """name: left, right"""
    R = raw
    c = V(299792458.0)
    h, k, e = R('Planck constant'), R('Boltzmann constant'), R('elementary charge')
    hb = R('Planck constant over 2 pi')
    amu, eh = R('atomic mass constant'), R('Hartree energy')
    me, NA = R('electron mass'), R('Avogadro constant')
    a0, al = R('Bohr radius'), R('fine-structure constant')
    mu0, e0 = R('magnetic constant'), R('electric constant')
    pi = math.pi
    muB, muN, mp = R('Bohr magneton'), R('nuclear magneton'), R('proton mass')
    energy = {'joule': V(1.0), 'kilogram': c ** 2, 'inverse meter': h * c, 'hertz': h,
              'kelvin': k, 'electron volt': e, 'atomic mass unit': amu * c ** 2, 'hartree': eh}
    out = {}
    for key in REF:
        m = re.fullmatch(r'(.*) relationship', key)
        if m:
            for a in energy:
                for b in energy:
                    if m.group(1) == a + '-' + b:
                        out[key] = R(key), energy[a] / energy[b]
                        inv = '%s-%s relationship' % (b, a)
                        if inv in REF:
                            out[key + ' and back'] = R(key) * R(inv), V(1.0)
            if key not in out:
                fail('no relation for', key)
        m = re.fullmatch(r'(.*) mass energy equivalent', key)
        if m:
            p = m.group(1)
            out[key] = R(key), R(p + ' mass') * c ** 2
        m = re.fullmatch(r'(.*) mass energy equivalent in MeV', key)
        if m:
            out[key] = R(key), R(m.group(1) + ' mass') * c ** 2 / e * 1e-6
        m = re.fullmatch(r'(.*) mass in u', key)
        if m:
            out[key] = R(key), R(m.group(1) + ' mass') / amu
        m = re.fullmatch(r'(.*) molar mass', key)
        if m:
            out[key] = R(key), R(m.group(1) + ' mass') * NA
        m = re.fullmatch(r'(.*?)(?:-| to )(.*) mass ratio', key)
        if m:
            a, b = m.groups()
            out[key] = R(key), R(a + ' mass') / R(b + ' mass')
        m = re.fullmatch(r'(.*)-(.*) magnetic moment ratio', key) or \
            re.fullmatch(r'(.*) to (.*) magnetic moment ratio', key)
        if m:
            a, b = (x + ' magnetic moment' for x in m.groups())
            out[key] = R(key), R(a) / R(b)
        m = re.fullmatch(r'(.*) magnetic moment to (Bohr|nuclear) magneton ratio', key)
        if m:
            out[key] = R(key), R(m.group(1) + ' magnetic moment') / (muB if m.group(2) == 'Bohr' else muN)
        m = re.fullmatch(r'(.*) over 2 pi', key)
        if m and m.group(1) in REF:
            x = R(m.group(1)) / (2 * pi)
            out[key] = R(key), x * 1e-6 if 'gyromagnetic' in key else x
        m = re.fullmatch(r'(Bohr magneton|nuclear magneton) in (.*)', key)
        if m:
            f = {'eV/T': e, 'Hz/T': h, 'MHz/T': h * 1e6, 'K/T': k,
                 'inverse meters per tesla': h * c}[m.group(2)]
            out[key] = R(key), R(m.group(1)) / f
        m = re.fullmatch(r'Boltzmann constant in (.*)', key)
        if m:
            f = {'eV/K': e, 'Hz/K': h, 'inverse meters per kelvin': h * c}[m.group(1)]
            out[key] = R(key), k / f
        m = re.fullmatch(r'(.*) Compton wavelength', key)
        if m and m.group(1) + ' mass' in REF:
            out[key] = R(key), h / (R(m.group(1) + ' mass') * c)
        m = re.fullmatch(r'(.*) gyromagnetic ratio', key)
        if m:
            p = m.group(1)
            out[key] = R(key), 2 * V(abs(R(p + ' magnetic moment').x), R(p + ' magnetic moment').r) / hb
    hand = {
        'hbar': (hb, h / (2 * pi)), 'hbar atomic': (R('atomic unit of action'), hb),
        'hbar natural': (R('natural unit of action'), hb),
        'hbar in eV s': (R('Planck constant over 2 pi in eV s'), hb / e),
        'natural in eV s': (R('natural unit of action in eV s'), hb / e),
        'h in eV s': (R('Planck constant in eV s'), h / e),
        'hbar c': (R('Planck constant over 2 pi times c in MeV fm'), hb * c / e * 1e9),
        'alpha': (al, e ** 2 * mu0 * c / (2 * h)),
        'inverse alpha': (R('inverse fine-structure constant'), 1.0 / al),
        'epsilon_0': (e0, 1.0 / (mu0 * c ** 2)), 'mu_0': (mu0, V(4e-7 * pi)),
        'Z_0': (R('characteristic impedance of vacuum'), mu0 * c),
        'a_0': (a0, al / (4 * pi * R('Rydberg constant'))),
        'atomic length': (R('atomic unit of length'), a0),
        'Rydberg': (R('Rydberg constant'), al ** 2 * me * c / (2 * h)),
        'Rydberg Hz': (R('Rydberg constant times c in Hz'), R('Rydberg constant') * c),
        'Rydberg J': (R('Rydberg constant times hc in J'), R('Rydberg constant') * h * c),
        'Rydberg eV': (R('Rydberg constant times hc in eV'), R('Rydberg constant') * h * c / e),
        'hartree': (eh, 2.0 * R('Rydberg constant') * h * c),
        'hartree in eV': (R('Hartree energy in eV'), eh / e),
        'atomic energy': (R('atomic unit of energy'), eh),
        'atomic mass': (R('atomic unit of mass'), me),
        'atomic charge': (R('atomic unit of charge'), e),
        'eV': (R('electron volt'), e), 'u': (R('unified atomic mass unit'), amu),
        'atomic charge density': (R('atomic unit of charge density'), e / a0 ** 3),
        'atomic current': (R('atomic unit of current'), e * eh / hb),
        'atomic dipole': (R('atomic unit of electric dipole moment'), e * a0),
        'atomic field': (R('atomic unit of electric field'), eh / (e * a0)),
        'atomic gradient': (R('atomic unit of electric field gradient'), eh / (e * a0 ** 2)),
        'atomic polarizability': (R('atomic unit of electric polarizability'), e ** 2 * a0 ** 2 / eh),
        'atomic potential': (R('atomic unit of electric potential'), eh / e),
        'atomic quadrupole': (R('atomic unit of electric quadrupole moment'), e * a0 ** 2),
        'atomic force': (R('atomic unit of force'), eh / a0),
        'atomic magnetic dipole': (R('atomic unit of magnetic dipole moment'), 2 * muB),
        'atomic flux density': (R('atomic unit of magnetic flux density'), hb / (e * a0 ** 2)),
        'atomic magnetizability': (R('atomic unit of magnetizability'), e ** 2 * a0 ** 2 / me),
        'atomic momentum': (R('atomic unit of momentum'), hb / a0),
        'atomic permittivity': (R('atomic unit of permittivity'), e ** 2 / (a0 * eh)),
        'atomic time': (R('atomic unit of time'), hb / eh),
        'atomic velocity': (R('atomic unit of velocity'), a0 * eh / hb),
        '1st hyperpolarizability': (R('atomic unit of 1st hyperpolarizability'), e ** 3 * a0 ** 3 / eh ** 2),
        '2nd hyperpolarizability': (R('atomic unit of 2nd hyperpolarizability'), e ** 4 * a0 ** 4 / eh ** 3),
        'natural velocity': (R('natural unit of velocity'), c),
        'natural mass': (R('natural unit of mass'), me),
        'natural energy': (R('natural unit of energy'), me * c ** 2),
        'natural energy MeV': (R('natural unit of energy in MeV'), me * c ** 2 / e * 1e-6),
        'natural momentum': (R('natural unit of momentum'), me * c),
        'natural momentum MeV': (R('natural unit of momentum in MeV/c'), me * c ** 2 / e * 1e-6),
        'natural length': (R('natural unit of length'), hb / (me * c)),
        'natural time': (R('natural unit of time'), hb / (me * c ** 2)),
        'Compton': (R('Compton wavelength'), h / (me * c)),
        'r_e': (R('classical electron radius'), al ** 2 * a0),
        'Thomson': (R('Thomson cross section'), 8 * pi / 3 * R('classical electron radius') ** 2),
        'mu_B': (muB, e * hb / (2 * me)), 'mu_N': (muN, e * hb / (2 * mp)),
        'e/h': (R('elementary charge over h'), e / h), 'F': (R('Faraday constant'), e * NA),
        'e/m': (R('electron charge to mass quotient'), -e / me),
        'p e/m': (R('proton charge to mass quotient'), e / mp),
        'K_J': (R('Josephson constant'), 2 * e / h), 'R_K': (R('von Klitzing constant'), h / e ** 2),
        'Phi_0': (R('magnetic flux quantum'), h / (2 * e)),
        'G_0': (R('conductance quantum'), 2 * e ** 2 / h),
        '1/G_0': (R('inverse of conductance quantum'), h / (2 * e ** 2)),
        'R': (R('molar gas constant'), k * NA), 'molar h': (R('molar Planck constant'), h * NA),
        'molar hc': (R('molar Planck constant times c'), h * NA * c),
        'circulation': (R('quantum of circulation'), h / (2 * me)),
        'circulation 2': (R('quantum of circulation times 2'), h / me),
        'c_1': (R('first radiation constant'), 2 * pi * h * c ** 2),
        'c_1L': (R('first radiation constant for spectral radiance'), 2 * h * c ** 2),
        'c_2': (R('second radiation constant'), h * c / k),
        'sigma': (R('Stefan-Boltzmann constant'), pi ** 2 / 60 * k ** 4 / (hb ** 3 * c ** 2)),
        'Wien': (R('Wien wavelength displacement law constant'),
                 R('second radiation constant') / 4.965114231744276),
        'Wien frequency': (R('Wien frequency displacement law constant'), 2.821439372122079 * k / h),
        'n_0': (R('Loschmidt constant (273.15 K, 101.325 kPa)'), V(101325.0) / (k * 273.15)),
        'V_m': (R('molar volume of ideal gas (273.15 K, 101.325 kPa)'), NA * k * 273.15 / 101325.0),
        'V_m 100': (R('molar volume of ideal gas (273.15 K, 100 kPa)'), NA * k * 273.15 / 1e5),
        'Sackur-Tetrode': (R('Sackur-Tetrode constant (1 K, 101.325 kPa)') /
                           R('Sackur-Tetrode constant (1 K, 100 kPa)'),
                           (R('Sackur-Tetrode constant (1 K, 100 kPa)').x - math.log(1.01325)) /
                           R('Sackur-Tetrode constant (1 K, 100 kPa)')),
        'Planck mass': (R('Planck mass') ** 2, hb * c / R('Newtonian constant of gravitation')),
        'Planck length': (R('Planck length'), hb / (R('Planck mass') * c)),
        'Planck time': (R('Planck time'), R('Planck length') / c),
        'Planck temperature': (R('Planck temperature'), R('Planck mass') * c ** 2 / k),
        'Planck mass GeV': (R('Planck mass energy equivalent in GeV'), R('Planck mass') * c ** 2 / e * 1e-9),
        'G over hbar c': (R('Newtonian constant of gravitation over h-bar c'),
                          R('Newtonian constant of gravitation') / (hb * c) * (1e9 * e / c ** 2) ** 2),
        'silicon': (R('{220} lattice spacing of silicon'), R('lattice parameter of silicon') / math.sqrt(8)),
        'silicon molar': (R('molar volume of silicon'), NA * R('lattice parameter of silicon') ** 3 / 8),
        'C12': (R('molar mass of carbon-12'), V(12.0) * R('molar mass constant')),
        'M_u': (R('molar mass constant'), NA * amu),
        'g_e': (R('electron g factor'), V(-2 * (1 + R('electron magnetic moment anomaly').x), 1e-12)),
        'g_mu': (R('muon g factor'), V(-2 * (1 + R('muon magnetic moment anomaly').x), 1e-9)),
        'g_p': (R('proton g factor'), 2 * R('proton magnetic moment') / muN),
        'g_n': (R('neutron g factor'), 2 * R('neutron magnetic moment') / muN),
        'g_d': (R('deuteron g factor'), R('deuteron magnetic moment') / muN),
        'g_t': (R('triton g factor'), 2 * R('triton magnetic moment') / muN),
        'mu_e': (R('electron magnetic moment'), R('electron g factor') * muB / 2),
        'amu energy': (R('atomic mass constant energy equivalent'), amu * c ** 2),
        'amu energy MeV': (R('atomic mass constant energy equivalent in MeV'), amu * c ** 2 / e * 1e-6),
        'shielding': (V(1 - R('proton magnetic shielding correction').x,
                        abs(R('proton magnetic shielding correction').x) *
                        R('proton magnetic shielding correction').r + 3e-8),
                      R('shielded proton magnetic moment') / R('proton magnetic moment')),
        'Faraday 90': (R('Faraday constant for conventional electric current'), R('Faraday constant') /
                       (R('conventional value of Josephson constant') *
                        R('conventional value of von Klitzing constant') /
                        (R('Josephson constant') * R('von Klitzing constant')))),
        'pi': (V(float(mag(C.pi.simplified))), V(pi)),
    }
    out.update(hand)
    return out


_laws = {}


def law_names():
    _laws.update(laws())
    yield from _laws


def check_law(n, ev):
    if n not in _laws:
        _laws.update(laws())
    a, b = _laws[n]
    bound = 3 * (a.r + b.r) + 1e-9
    if not abs(a.x - b.x) <= bound * abs(b.x):
        fail(n, ':', a.x, 'and', b.x, 'differ by', a.x / b.x - 1, 'relative, more than', bound)
    ev.nt()


# ---------------------------------------------------------------- conversions

CONST = sorted(a for a in PUBLISHED)


@st.composite
def conversion(draw):
    parts = [[draw(st.sampled_from(CONST)), draw(st.sampled_from([1, 1, 1, -1, 2, -2, 0.5]))]
             for _ in range(draw(st.integers(1, 2)))]
    units = draw(gen.expr(max_units=2)) if draw(st.booleans()) else []
    d = {}
    for n, e in parts:
        for k, v in si_dims(entry(n)[1]).items():
            d[k] = d.get(k, 0) + v * frac(e)
    e = [[BASE_OF[k], float(v) if v.denominator > 1 else int(v)] for k, v in d.items() if v] + units
    e = [list(x) for x in merge(e).items()]
    return {'c': parts, 'u': units, 'to': draw(gen.compatible_expr(e)),
            'a': draw(gen.array(dtypes=['f8', 'i8'], specials=False)),
            'def': draw(st.sampled_from([None, None, 'cgs', 'SI', 'imp'])),
            'how': draw(st.sampled_from(['mul', 'dim', 'text', 'sum']))}


def entry(a):
    if a in AU:
        return 149597870700.0, [['meter', 1]]
    if a in EXTRA_VALUE:
        return EXTRA_VALUE[a], []
    x, s, u, _ = REF[KEY.get(a) or SHORT[a]]
    return x, ref_expr(u)


def check_conversion(s, ev):
    d = s['def']
    if d == 'imp':
        pq.set_default_units(length='ft', mass='lb', time='min')
    elif d:
        pq.set_default_units(d)
    f = si_factor(s['u'])
    for n, e in s['c']:
        x, u = entry(n)
        if x < 0 and e != int(e):
            return
        f *= (x * si_factor(u)) ** e
    if not all(1e-250 < abs(x) < 1e250 for x in (f, si_factor(s['u']), si_factor(s['to']))):
        return
    g = f / si_factor(s['to'])
    if not 1e-250 < abs(g) < 1e250:
        return
    a = arr(s['a'])
    parts = [(getattr(C, n), e) for n, e in s['c']]
    u = unit_quantity(s['u'])
    if s['how'] == 'dim' and len({p[0].name for p in parts} | {n for n, _ in s['u']}) == \
            len(parts) + len(s['u']) and d is None:
        dd = Dimensionality({unit(n): e for n, e in s['u']})
        dd = Dimensionality(dict(list(dd.items()) + [(c, e) for c, e in parts]))
        q = Quantity(a, dd)
    else:
        q = a
        for c, e in parts:
            q = q * (c if e == 1 else c ** e)
        q = q * u
    t = q.rescale(dimensionality(s['to']))
    want_unit(t, s['to'], 'conversion')
    want(mag(t), a * g, 1e-10, what='conversion to %s' % s['to'])
    si = q.simplified.rescale(dimensionality([[BASE_OF[k], float(v)] for k, v in si_dims(s['to']).items()]))
    want(mag(si), a * f, 1e-10, what='simplified')
    back = t.rescale(q.units)
    want(mag(back), a * 1.0, 1e-10, what='and back')
    if s['how'] == 'sum':
        r = Quantity(a, dimensionality(s['to'])) + q
        want(mag(r), a + a * g, 1e-9, what='sum')
        want_unit(r, s['to'], 'sum')
    ev.tag(s['how'])
    ev.nt(s['to'] != s['u'])


SUBS = [
    Sub('reference data', check_line, cases=lines),
    Sub('named', check_named, cases=published),
    Sub('symbols', check_symbol, cases=symbols),
    Sub('laws', check_law, cases=law_names),
    Sub('conversions', check_conversion, conversion, quick=2400),
]
