"""Predefined units have their published values and names"""
import math

from hypothesis import strategies as st

import quantities.units as qunits

from . import gen
from .core import Sub
from .lib import *

RULE = """Complete enumeration: every predefined unit against the golden table of SI values
and dimensions, every label as text and every published attribute, every prefixed unit
against its base, and a hand-written list of published relations. Generated: random
products of random labels, random chains of conversions inside a dimension, under random
default units, with the Unicode setting on and off. Non-trivial: every unit or relation."""

ASSUMPTIONS = ['the golden table was reviewed by hand against the published definitions',
               'units which a later version adds are not looked at']

RTOL = 2e-12

PREFIX = {'yotta': 24, 'zetta': 21, 'exa': 18, 'peta': 15, 'tera': 12, 'giga': 9, 'mega': 6,
          'kilo': 3, 'hecto': 2, 'deka': 1, 'deci': -1, 'centi': -2, 'milli': -3, 'micro': -6,
          'nano': -9, 'pico': -12, 'femto': -15, 'atto': -18, 'zepto': -21, 'yocto': -24}
BINARY = {'kibi': 1, 'mebi': 2, 'gibi': 3, 'tebi': 4, 'pebi': 5, 'exbi': 6, 'zebi': 7, 'yobi': 8}

# one [left] is [number] [right], from the published definitions
RELATIONS = [r.split('=') for r in '''
inch = 2.54 centimeter; foot = 12 inch; yard = 3 foot; mile = 1760 yard; mile = 5280 foot
mil = 0.001 inch; nautical_mile = 1852 meter; chain = 66 US_survey_foot; rod = 16.5 US_survey_foot
furlong = 10 chain; fathom = 6 US_survey_foot; US_survey_foot = 1200/3937 meter; barleycorn = 1/3 inch
US_survey_mile = 5280 US_survey_foot; US_survey_yard = 3 US_survey_foot; light_year = 9460730472580800 meter
pica = 1/6 inch; printers_point = 1/72 inch; micrometer = 10000 angstrom; angstrom = 1e-10 meter
kilometer = 1000 meter; kilogram = 1000 gram; tonne = 1000 kilogram; pound = 0.45359237 kilogram
pound = 16 ounce; ounce = 16 dram; pound = 7000 grain; troy_ounce = 480 grain; troy_pound = 12 troy_ounce
scruple = 20 grain; drachm = 3 scruple; pennyweight = 24 grain; stone = 14 pound; carat = 200 milligram
short_ton = 2000 pound; long_ton = 2240 pound; short_hundredweight = 100 pound; bag = 94 pound
long_hundredweight = 112 pound; minute = 60 second; hour = 60 minute; day = 24 hour; week = 7 day
fortnight = 2 week; Julian_year = 365.25 day; Gregorian_year = 365.2425 day; common_year = 365 day
leap_year = 366 day; month = 1/12 year; millenium = 1000 year; eon = 1e9 year; shake = 10 nanosecond
sidereal_day = 24 sidereal_hour; sidereal_hour = 60 sidereal_minute; sidereal_minute = 60 sidereal_second
work_year = 12 work_month; work_year = 2056 hour
turn = 360 arcdegree; arcdegree = 60 arcminute; arcminute = 60 arcsecond; turn = 400 grad
radian = 1000 milliradian; milliradian = 1000 microradian; degrees_north = 1 arcdegree
degrees_east = 1 arcdegree; degrees_west = 1 arcdegree; degrees_true = 1 arcdegree
hectare = 100 are; acre = 4840 yard**2; acre = 43560 foot**2; US_survey_acre = 43560 US_survey_foot**2
barn = 1e-28 meter**2; are = 100 meter**2; darcy = 9.869233e-13 meter**2; circular_mil = 5.067075e-10 meter**2
liter = 1000 cubic_centimeter; liter = 1000 milliliter; kiloliter = 1 meter**3; stere = 1 meter**3
US_liquid_gallon = 231 inch**3; US_liquid_gallon = 4 US_liquid_quart; US_liquid_quart = 2 US_liquid_pint
US_liquid_pint = 2 cup; cup = 2 US_liquid_gill; cup = 16 tablespoon; tablespoon = 3 teaspoon
US_liquid_gallon = 128 US_fluid_ounce; barrel = 42 US_liquid_gallon; firkin = 1/4 barrel
fluid_dram = 1/8 US_fluid_ounce; UK_liquid_gallon = 4.54609 liter; UK_liquid_gallon = 4 UK_liquid_quart
UK_liquid_quart = 2 UK_liquid_pint; UK_liquid_pint = 20 UK_fluid_ounce; UK_liquid_pint = 4 UK_liquid_gill
UK_liquid_cup = 10 UK_fluid_ounce; US_dry_gallon = 4 US_dry_quart; US_dry_quart = 2 US_dry_pint
peck = 8 US_dry_quart; US_bushel = 4 peck; US_bushel = 2150.42 inch**3; Imperial_bushel = 8 UK_liquid_gallon
acre_foot = 1 acre*foot; board_foot = 144 inch**3; gross_register_ton = 100 foot**3
newton = 1 kilogram*meter/second**2; dyne = 1 gram*centimeter/second**2; newton = 100000 dyne
kilogram_force = 9.80665 newton; gram_force = 0.001 kilogram_force; pond = 1 gram_force
pound_force = 1 pound*standard_gravity; ounce_force = 1/16 pound_force; poundal = 1 pound*foot/second**2
ton_force = 2000 pound_force; kip = 1000 pound_force; joule = 1 newton*meter; erg = 1e-7 joule
joule = 1 watt*second; watt_hour = 3600 joule; kilowatt_hour = 1000 watt_hour
megawatt_hour = 1000 kilowatt_hour; gigawatt_hour = 1000 megawatt_hour
keV = 1000 electron_volt; MeV = 1000 keV; GeV = 1000 MeV; electron_volt = 1000 meV
electron_volt = 1.60217653e-19 joule; thermochemical_calorie = 4.184 joule
international_steam_table_calorie = 4.1868 joule; British_thermal_unit = 1055.05585262 joule
EC_therm = 100000 British_thermal_unit; US_therm = 105480400 joule; ton_TNT = 4.184e9 joule
hartree = 4.35974394e-18 joule; horsepower = 550 foot*pound_force/second; watt = 1 joule/second
electric_horsepower = 746 watt; metric_horsepower = 75 kilogram_force*meter/second
boiler_horsepower = 33475 British_thermal_unit/hour; refrigeration_ton = 12000 British_thermal_unit/hour
water_horsepower = 746.043 watt; pascal = 1 newton/meter**2; bar = 100000 pascal; bar = 1000 millibar
hectopascal = 1 millibar; standard_atmosphere = 101325 pascal; standard_atmosphere = 760 torr
technical_atmosphere = 98066.5 pascal; technical_atmosphere = 1 kilogram_force/centimeter**2
barye = 0.1 pascal; pound_force_per_square_inch = 1 pound_force/inch**2; cmHg = 10 millimeter_Hg
kip_per_square_inch = 1000 pound_force_per_square_inch; millimeter_Hg = 133.322387415 pascal
H2O = 1 gram*standard_gravity/centimeter**3; cmH2O = 1 centimeter*H2O; inHg = 25.4 millimeter_Hg
footH2O = 1 foot*H2O; foot_H2O = 1 foot*H2O; conventional_mercury = 13595.10 kilogram*standard_gravity/meter**3
inch_H2O_39F = 1 inch*water_4C; inch_H2O_60F = 1 inch*water_60F; inch_Hg_60F = 1 inch*mercury_60F
poise = 0.1 pascal*second; poise = 100 centipoise; rhe = 1 poise**-1; stokes = 1 centimeter**2/second
coulomb = 1 ampere*second; volt = 1 joule/coulomb; ohm = 1 volt/ampere; siemens = 1 ohm**-1
farad = 1 coulomb/volt; weber = 1 volt*second; tesla = 1 weber/meter**2; henry = 1 weber/ampere
tesla = 10000 gauss; gamma = 1e-9 tesla; maxwell = 1e-8 weber; abampere = 10 ampere; abvolt = 1e-8 volt
abohm = 1e-9 ohm; abfarad = 1e9 farad; abhenry = 1e-9 henry; abmho = 1e9 siemens
abvolt = 1 abampere*abohm; abmho = 1 abohm**-1; statvolt = 299.7925 volt; statfarad = 1.112650e-12 farad
statohm = 8.987554e11 ohm; stathenry = 8.987554e11 henry; statmho = 1.112650e-12 siemens
statampere = 1 statcoulomb/second; statcoulomb = 1 gram**0.5*centimeter**1.5/second
oersted = 1000 ampere/meter/(4*pi); gilbert = 10 ampere/(4*pi); ampere_turn = 1 ampere
faraday = 96485.3399 coulomb; chemical_faraday = 96495.7 coulomb; physical_faraday = 96521.9 coulomb
unit_pole = 1.256637e-7 weber; elementary_charge = 1.602176487e-19 coulomb
becquerel = 1 second**-1; curie = 3.7e10 becquerel; rutherford = 1e6 becquerel; gray = 1 joule/kilogram
rads = 0.01 gray; rem = 0.01 gray; roentgen = 2.58e-4 coulomb/kilogram; hertz = 1 second**-1
counts_per_second = 1 second**-1; revolutions_per_minute = 1 turn/minute; tex = 1 gram/kilometer
dtex = 0.1 tex; denier = 1 gram/9000/meter; kayser = 1 centimeter**-1; speed_of_light = 299792458 meter/second
nautical_miles_per_hour = 1 nautical_mile/hour; standard_gravity = 9.80665 meter/second**2
molar = 1 mole/liter; molar = 1000 millimolar; millimolar = 1000 micromolar; mole = 1000 millimole
millimole = 1000 micromole; byte = 8 bit; baud = 1 bit/second; Fahrenheit = 5/9 Kelvin
Celsius = 1 Kelvin; Rankine = 5/9 Kelvin; clo = 0.155 Kelvin*meter**2/watt; RSI = 1 Kelvin*meter**2/watt
R_value = 1 foot**2*Fahrenheit*hour/British_thermal_unit; percent = 0.01 dimensionless
slug = 14.5939 kilogram; atomic_mass_unit = 1.660538782e-27 kilogram; parsec = 3.08568025e16 meter
astronomical_unit = 149597870691 meter; magnetic_constant = 4e-7*pi newton/ampere**2
electric_constant = 1 magnetic_constant**-1*speed_of_light**-2
characteristic_impedance_of_vacuum = 1 magnetic_constant*speed_of_light; candela = 1 candela
steradian = 1 dimensionless; radian = 1 dimensionless; count = 1 dimensionless
least_significant_bit = 1 dimensionless; arpentlin = 191.835 foot; year = 31556925.9747 second
sidereal_year = 366.25636042 sidereal_day; synodic_month = 29.530589 day; tropical_month = 27.321582 day
sidereal_month = 27.321661 day
'''.replace('\n', ';').split(';') if r.strip()]
RELATIONS = [(a.strip(), b.strip()) for a, b in RELATIONS]


def units_():
    yield from GOLD


def definition_si(n):
    u = unit(n)
    s = u.simplified
    return float(s.magnitude), {k.symbol: frac(x) for k, x in s.dimensionality.items()}


def close(a, b, tol_=RTOL):
    return abs(a - b) <= tol_ * abs(b)


def check_unit(n, ev):
    u = unit(n)
    if not isinstance(u, pq.UnitQuantity):
        fail(n, 'is a', type(u))
    f, d = definition_si(n)
    if d != DIMS[n]:
        fail(n, 'has the dimension', d, 'instead of', DIMS[n])
    if not close(f, FACTOR[n]):
        fail(n, 'is', repr(f), 'SI units instead of', FACTOR[n])
    if float(u.magnitude) != 1.0 or u.shape != ():
        fail(n, 'has the magnitude', u.magnitude)
    # the same through conversion, in both directions, and through the definition
    base = [[BASE_OF[k], float(v)] for k, v in DIMS[n].items()]
    r = Quantity(1.0, Dimensionality({u: 1}) if n != 'dimensionless' else '').rescale(dimensionality(base))
    if not close(float(mag(r)), FACTOR[n]):
        fail('1', n, 'converts to', r)
    r = Quantity(FACTOR[n], dimensionality(base)).rescale(u)
    if not close(float(mag(r)), 1.0):
        fail(FACTOR[n], base, 'converts to', r)
    ds = u.definition.simplified
    if not close(float(mag(ds)), FACTOR[n]):
        fail('the definition of', n, 'is', u.definition)
    if n not in COMPOUND and n != 'dimensionless' and u.name != n:
        fail('name', u.name)
    ev.tag(GOLD[n]['cls'])
    ev.nt()


def labels():
    for n, e in GOLD.items():
        for l in e['labels']:
            yield [n, 'text', l]
        for a in e['attrs']:
            yield [n, 'attr', a]


def check_label(s, ev):
    n, k, l = s
    w = {} if n == 'dimensionless' else {n: 1.0}
    if k == 'text':
        if l == '(esu/s)':
            # see the known finding of C12: it reads as the expression
            q = Quantity(1.0, l)
            if not close(float(mag(q.simplified)), FACTOR[n]):
                fail(l, 'is', q.simplified)
            return
        for t in (l, ' %s' % l if 0 else l + ' ', '(%s)' % l):
            q = Quantity(3.0, t)
            if unit_of(q) != w:
                fail('the text', repr(t), 'denotes', unit_of(q), 'instead of', n)
        base = [[BASE_OF[x], float(v)] for x, v in DIMS[n].items()]
        r = Quantity(1.0, dimensionality(base)).rescale(l)
        if unit_of(r) != w or not close(float(mag(r)), 1 / FACTOR[n]):
            fail('conversion to', repr(l), 'gives', r)
    else:
        for where in (pq, qunits):
            if where is qunits and not hasattr(qunits, l):
                continue
            u = getattr(where, l)
            if not isinstance(u, Quantity):
                fail(l, 'is a', type(u))
            if unit_of(1 * u) != w and n not in COMPOUND:
                fail('the attribute', l, 'denotes', unit_of(1 * u), 'instead of', n)
            r = float(mag((1.0 * u).simplified))
            if not close(r, FACTOR[n]):
                fail('the attribute', l, 'is', r)
    ev.tag(k)
    ev.nt()


def prefixed():
    for n in NAMES:
        for p, k in list(PREFIX.items()) + list(BINARY.items()):
            if n.startswith(p):
                base = n[len(p):]
                base = {'kelvin': 'Kelvin', 'octet': 'byte', 'amp': 'ampere'}.get(base, base)
                if base in GOLD and base != 'meter' or base == 'meter' and n != 'parameter':
                    if base in GOLD:
                        yield [n, p, base]
    # and every label: kilometre and metre, Ko and o, ...
    all_labels = {l: n for n, e in GOLD.items() for l in e['labels'] + e['attrs']}
    for l, n in sorted(all_labels.items()):
        for p in list(PREFIX) + list(BINARY):
            if l.startswith(p) and l[len(p):] in all_labels and l[len(p):] not in ('a', 's') and \
                    DIMS[n] == DIMS[all_labels[l[len(p):]]]:
                yield [l, p, l[len(p):]]


def as_unit(n):
    if n in GOLD:
        return unit(n)
    return getattr(pq, n) if hasattr(pq, n) else pq.Quantity(1.0, n).units


def check_prefixed(s, ev):
    n, p, base = s
    want_ = 10.0 ** PREFIX[p] if p in PREFIX else 1024.0 ** BINARY[p]
    u, b = as_unit(n), as_unit(base)
    got = float(mag((1.0 * u).rescale(b)))
    if not close(got, want_, 1e-14 * 8):
        fail('one', n, 'is', repr(got), base)
    got = float(mag((1.0 * b).rescale(u)))
    if not close(got, 1 / want_, 1e-14 * 8):
        fail('one', base, 'is', repr(got), n)
    ev.tag(p)
    ev.nt()


def relations():
    for a, b in RELATIONS:
        yield [a, b]


def check_relation(s, ev):
    left, right = s
    env = {n: None for n in ()}
    num, _, text = right.partition(' ')
    x = eval(num, {'pi': math.pi, '__builtins__': {}})
    for n in set(w for w in NAMES if w in text):
        if n.isidentifier():
            env[n] = unit(n)
    env['pi'] = math.pi
    q = x * eval(text, {'__builtins__': {}}, env)
    r = (1.0 * unit(left)).rescale(q.units)
    if not close(float(mag(r)), float(mag(q)), 1e-9):
        fail('one', left, 'is', r, 'instead of', q)
    # definitions that are exact are exact
    if not close(float(mag(r)), float(mag(q)), 5e-12):
        fail('one', left, 'is', repr(float(mag(r))), 'instead of', repr(float(mag(q))))
    ev.nt()


_LAB = [(n, l) for n, e in GOLD.items() for l in e['labels'] if l.isidentifier()
        and l not in ('in', 'as') and n not in COMPOUND]


@st.composite
def products(draw):
    k = draw(st.integers(1, 3))
    parts = [[draw(st.sampled_from(_LAB))[1] if 0 else list(draw(st.sampled_from(_LAB))),
              draw(gen.exponent)] for _ in range(k)]
    return {'p': parts, 'x': draw(gen.positive), 'uni': draw(st.booleans()),
            'def': draw(st.sampled_from([None, 'cgs', {'length': 'ft'}, {'mass': 'lb', 'time': 'h'},
                                         {'temperature': 'degF'}, {'information': 'byte'},
                                         {'current': 'mA', 'length': 'um'}]))}


def check_products(s, ev):
    """The value of a text of labels, whatever the settings"""
    expr = [[n, e] for (n, l), e in s['p']]
    f = si_factor(expr)
    if not 1e-200 < abs(f) < 1e200:
        return
    pq.markup.config.use_unicode = s['uni']
    text = '*'.join('%s**%s' % (l, fmt_exp(e)) for (n, l), e in s['p'])
    q = Quantity(s['x'], text)
    d = s['def']
    if d:
        pq.set_default_units(d) if isinstance(d, str) else pq.set_default_units(**d)
    want_unit(q, expr, text)
    base = [[BASE_OF[k], float(v)] for k, v in si_dims(expr).items()]
    r = q.rescale(dimensionality(base))
    if not close(float(mag(r)), s['x'] * f, 1e-10):
        fail(s['x'], text, 'is', r)
    r = q.simplified.rescale(dimensionality(base))
    if not close(float(mag(r)), s['x'] * f, 1e-10):
        fail(s['x'], text, 'simplifies to', r)
    ev.nt()


@st.composite
def walks(draw):
    n = draw(st.sampled_from(gen.DENSE))
    cls = CLASS[dims_key(DIMS[n])]
    return {'n': [n] + draw(st.lists(st.sampled_from(cls), min_size=1, max_size=6)),
            'x': draw(gen.positive)}


def check_walks(s, ev):
    """Any route through a dimension gives the same number"""
    q = Quantity(s['x'], dimensionality([[s['n'][0], 1]]))
    for n in s['n'][1:]:
        q = q.rescale(unit(n))
        w = s['x'] * FACTOR[s['n'][0]] / FACTOR[n]
        if not close(float(mag(q)), w, 1e-10):
            fail(s['x'], s['n'][0], 'is', q, 'instead of', w)
    ev.nt(len(set(s['n'])) > 1)


def numbers():
    for p in list(PREFIX) + list(BINARY):
        if p != 'yocto':        # there is none
            yield p


def check_number(p, ev):
    """the prefixes are numbers"""
    w = float('1e%d' % PREFIX[p]) if p in PREFIX else 1024 ** BINARY[p]
    for where in (pq, pq.units):
        got = getattr(where, p)
        if isinstance(got, Quantity) or not close(float(got), w, 1e-15):
            fail(p, 'is', repr(got))
    ev.nt()


SUBS = [
    Sub('units', check_unit, cases=units_),
    Sub('labels', check_label, cases=labels),
    Sub('prefixes', check_prefixed, cases=prefixed),
    Sub('numbers', check_number, cases=numbers),
    Sub('relations', check_relation, cases=relations),
    Sub('products', check_products, products, quick=1800),
    Sub('walks', check_walks, walks, quick=1200),
]
