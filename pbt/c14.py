"""Copies and pickles are faithful and independent"""
import base64
import copy
import io
import json
import pickle
import subprocess
import sys

from hypothesis import strategies as st

from . import boot, gen
from .core import Sub
from .lib import *

RULE = """A case is an object graph (quantities of every dtype, shape and memory layout,
uncertain quantities, views, predefined units, compound units, user-defined units defined
through other user-defined units, constants, dimension expressions; alone, in containers,
shared, as attributes) copied by pickle (protocols 0 to 5), copy, deepcopy, the copy
method or numpy, under a Unicode setting and choice of default units; later used in
conversions and arithmetic and modified. A second check loads pickles in a new process.
Oracle: the original. Non-trivial: the object has data and a unit."""

CONSTANTS = sorted(k for k in dir(pq.constants)
                   if isinstance(getattr(pq.constants, k), pq.UnitQuantity) and not k.startswith('__'))
COMPOUND_TEXTS = ['m/s', 'kg*m**2', '1/cm**3', 'pc/cm**3', 'J/(kg*K)', 'm**0.5', 's**-1', 'deg/s',
                  'm*%', 'in*lb']


@st.composite
def obj(draw, depth=2):
    k = draw(st.sampled_from(['q', 'q', 'q', 'uq', 'uq', 'unit', 'compound', 'cq', 'constant', 'kq',
                              'user', 'userq', 'dim', 'view']
                             + (['list', 'dict', 'tuple', 'shared', 'holder'] if depth else [])))
    s = {'k': k}
    if k in ('q', 'view'):
        s['q'] = draw(gen.quantity(big=True, dtypes=gen.EVERY + ['b1'], shapes=gen.SHAPES + [(40,)]))
        if k == 'view':
            s['q']['a'] = draw(gen.array(shape=(3, 2)))
    elif k == 'uq':
        s['q'] = draw(gen.quantity(dtypes=['f8', 'f8', 'f4'], specials=False))
        s['r'] = draw(st.sampled_from([0.0, 0.125, 0.5]))
        s['how'] = draw(st.sampled_from(['new', 'mul', 'index', 'rescale']))
    elif k == 'unit':
        s['n'] = draw(gen.unit_name)
    elif k in ('compound', 'cq'):
        s['t'] = draw(st.sampled_from(COMPOUND_TEXTS))
        s['n'] = draw(gen.unit_name)
    elif k in ('constant', 'kq'):
        s['n'] = draw(st.sampled_from(CONSTANTS))
    elif k in ('user', 'userq'):
        s['d'] = [[draw(st.sampled_from([0.5, 3.0, 1000, 7])), draw(gen.expr(min_units=0, max_units=2))]
                  for _ in range(draw(st.integers(1, 3)))]
        s['cls'] = draw(st.sampled_from(['UnitQuantity', 'UnitQuantity', 'UnitLength', 'UnitMass']))
        s['sym'] = draw(st.booleans())
    elif k == 'dim':
        s['e'] = draw(gen.expr())
    elif k in ('list', 'tuple', 'dict'):
        s['i'] = draw(st.lists(obj(depth=depth - 1), min_size=1, max_size=3))
    elif k in ('shared', 'holder'):
        s['i'] = [draw(obj(depth=0))]
    return s


class Holder:
    """something with a quantity as an attribute"""

    def __init__(self, q):
        self.q = q
        self.same = q


def build_user(s):
    u = None
    for i, (x, e) in enumerate(s['d']):
        n = fresh('cpy')
        d = x * (unit_quantity(e) if u is None else u)
        cls = s['cls'] if i == 0 and s['cls'] != 'UnitQuantity' else None
        if cls:
            d = x * unit({'UnitLength': 'meter', 'UnitMass': 'kilogram'}[cls])
        u = getattr(pq, cls or 'UnitQuantity')(
            n, d, symbol=n + 's' if s['sym'] else None,
            u_symbol='☂' if s['sym'] else None, aliases=[n + 'a'] if s['sym'] else [],
            doc='a unit for the tests')
    return u


def build(s):
    k = s['k']
    if k == 'q':
        return qty(s['q'])
    if k == 'view':
        q = qty(s['q'])
        return q[::2, 0]
    if k == 'uq':
        a = arr(s['q']['a'])
        u = dimensionality(s['q']['u'])
        q = UQ(a, u, np.asarray(np.abs(a) * s['r']))
        if s['how'] == 'mul':
            q = q * 2.0
        elif s['how'] == 'index' and a.ndim and a.shape[0]:
            q = q[:1]
        elif s['how'] == 'rescale':
            q = q.rescale(q.units)
        return q
    if k == 'unit':
        return unit(s['n'])
    if k == 'compound':
        return pq.CompoundUnit(s['t'])
    if k == 'cq':
        return np.array([1.5, 2.5]) * pq.CompoundUnit(s['t']) * unit(s['n'])
    if k == 'constant':
        return getattr(pq.constants, s['n'])
    if k == 'kq':
        return np.array([1.5, 2.5]) * getattr(pq.constants, s['n'])
    if k == 'user':
        return build_user(s)
    if k == 'userq':
        return np.array([1.5, 2.5]) * build_user(s) / pq.s
    if k == 'dim':
        return dimensionality(s['e'])
    xs = [build(i) for i in s['i']]
    if k == 'list':
        return xs
    if k == 'tuple':
        return tuple(xs)
    if k == 'dict':
        return {i: x for i, x in enumerate(xs)}
    if k == 'shared':
        return [xs[0], {'again': xs[0]}]
    return Holder(xs[0])


METHODS = ['pickle0', 'pickle1', 'pickle2', 'pickle3', 'pickle4', 'pickle5', 'copy', 'deepcopy',
           'deepcopy', 'method', 'twice', 'stream']


def duplicate(x, how):
    if how.startswith('pickle'):
        return pickle.loads(pickle.dumps(x, int(how[6:])))
    if how == 'stream':
        f = io.BytesIO()
        p = pickle.Pickler(f, 2)
        p.dump([x, x])
        f.seek(0)
        a, b = pickle.Unpickler(f).load()
        if a is not b:
            fail('one object became two')
        return a
    if how == 'copy':
        return copy.copy(x)
    if how == 'deepcopy':
        return copy.deepcopy(x)
    if how == 'twice':
        return copy.deepcopy(pickle.loads(pickle.dumps(copy.copy(x))))
    if isinstance(x, (list, tuple, Holder)) or type(x) is dict:
        return copy.deepcopy(x)
    return x.copy()


def flat(x):
    if isinstance(x, Holder):
        return [x.q, x.same]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    if isinstance(x, dict) and not isinstance(x, Dimensionality):
        return [z for y in x.values() for z in flat(y)]
    return [x]


def same_kind(c, x, what):
    if type(c) is not type(x):
        fail(what, 'type', type(c), 'instead of', type(x))
    if isinstance(x, Dimensionality):
        if c != x or hash(c) != hash(x) or names_of(c) != names_of(x):
            fail(what, c, 'instead of', x)
        return
    if snap(c) != snap(x):
        fail(what, repr(c), 'instead of', repr(x), snap(c), snap(x))
    if c.dimensionality != x.dimensionality:
        fail(what, 'unit', c.dimensionality, 'instead of', x.dimensionality)
    if isinstance(x, pq.UnitQuantity):
        for k in ('name', 'symbol', 'u_symbol'):
            if getattr(c, k) != getattr(x, k):
                fail(what, k, getattr(c, k), 'instead of', getattr(x, k))
        if c.__doc__ != x.__doc__ or hash(c) != hash(x) or not c == x:
            fail(what, 'the units differ')
        a, b = c.definition, x.definition
        if a is c and b is x:
            return
        if mag(a) != mag(b) or a.dimensionality != b.dimensionality:
            fail(what, 'definition', a, 'instead of', b)


def same_behaviour(c, x, what):
    """conversions and arithmetic of the copy"""
    if isinstance(x, Dimensionality):
        same_kind(c * pq.m.dimensionality, x * pq.m.dimensionality, what)
        return
    with np.errstate(all='ignore'):
        for f in (lambda q: q.simplified, lambda q: q * 2, lambda q: q / pq.s, lambda q: q + q,
                  lambda q: 1.0 / q, lambda q: q.rescale(q.units), lambda q: q * x,
                  lambda q: q - x, lambda q: x + q):
            try:
                a = f(x)
            except Exception as e:
                if raises(f, c) is None:
                    fail(what, 'the copy does not raise', repr(e))
                continue
            b = f(c)
            if type(a) is not type(b) or snap(a) != snap(b):
                fail(what, 'behaves differently:', repr(b), 'instead of', repr(a))
        if not (np.asarray(c == x) == np.asarray(x == x)).all():
            fail(what, 'is not equal to the original')


def modify(q):
    """Change everything which can be changed"""
    if isinstance(q, Dimensionality):
        q.clear()
        q[pq.kg] = 5
        return
    if isinstance(q, pq.UnitQuantity):
        return
    if q.size:
        q[...] = Quantity(17, q.dimensionality)
    if isinstance(q, UQ) and q.size:
        q.uncertainty.magnitude[...] = 3.0
    if q.dtype.kind in 'f' and not isinstance(q.base, Quantity):
        e = [[n, x] for n, x in unit_of(q).items()]
        try:
            q.units = q.simplified.units
        except Exception:
            pass
        q *= 2


@st.composite
def copies(draw):
    return {'o': draw(obj()), 'how': draw(st.sampled_from(METHODS)), 'uni': draw(st.booleans()),
            'def': draw(st.sampled_from([None, None, 'cgs'])), 'both': draw(st.booleans())}


def check_copies(s, ev):
    pq.markup.config.use_unicode = s['uni'] and s['o']['k'] not in ('constant', 'kq')
    x = build(s['o'])
    if s['def']:
        pq.set_default_units(s['def'])
    defaults = defaults_now()
    c = duplicate(x, s['how'])
    if defaults_now() != defaults:
        fail('copying changed the default units')
    if type(c) is not type(x):
        fail(s['how'], 'gives a', type(c))
    xs, cs = flat(x), flat(c)
    if len(xs) != len(cs):
        fail('structure')
    for a, b in zip(cs, xs):
        same_kind(a, b, s['how'])
    for i in range(len(xs)):
        for j in range(i):
            if (xs[i] is xs[j]) != (cs[i] is cs[j]) and not isinstance(xs[i], pq.UnitQuantity):
                fail('sharing of objects changed')
    for a, b in zip(cs, xs):
        same_behaviour(a, b, s['how'])
    if s['how'] == 'copy' and not isinstance(x, (Quantity, Dimensionality)):
        # copies of containers are shallow
        ev.nt()
        return
    # independence, in both directions
    done = set()
    for a, b in zip(cs, xs):
        if id(a) in done or id(b) in done:
            continue
        done.update((id(a), id(b)))
        if s['both']:
            a, b = b, a
        before = [snap(y) for y in flat(x) + flat(c) if y is not a]
        modify(a)
        after = [snap(y) for y in flat(x) + flat(c) if y is not a]
        if before != after:
            # things which shared memory before still may
            if any(isinstance(y, np.ndarray) and y is not b and np.shares_memory(y, a)
                   for y in xs + cs):
                continue
            fail(s['how'], 'the copy is not independent')
        if isinstance(a, np.ndarray) and np.shares_memory(np.asarray(a), np.asarray(b)) and \
                not isinstance(a, pq.UnitQuantity):
            fail(s['how'], 'the copy shares memory')
    ev.tag(s['how'], s['o']['k'], *[type(y).__name__ for y in xs])
    ev.nt(any(isinstance(y, Quantity) and y.size and y.dimensionality for y in xs))


CHILD = r'''
import sys, json, base64, pickle, warnings
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
import numpy as np
data = json.loads(sys.stdin.read())
import quantities as pq
def show(x):
    if isinstance(x, pq.dimensionality.Dimensionality):
        return ['dim', sorted([u.name, float(e)] for u, e in x.items())]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [show(y) for y in x]]
    if isinstance(x, dict):
        return ['dict', [show(y) for y in x.values()]]
    m = np.asarray(x.magnitude)
    with np.errstate(all='ignore'):
        s = x.simplified
        out = [type(x).__name__, str(m.dtype), list(m.shape), m.tobytes().hex(),
               sorted([u.name, float(e)] for u, e in x.dimensionality.items()),
               np.asarray(s.magnitude).tobytes().hex(), str(s.dimensionality),
               str((x * pq.m).dimensionality), (np.asarray((x + x).magnitude)).tobytes().hex()]
    if isinstance(x, pq.UncertainQuantity):
        out.append(show(x.uncertainty))
    if isinstance(x, pq.UnitQuantity):
        out += [x.name, x.symbol, x.u_symbol, x.__doc__, repr(x), str(x)]
        if data['texts']:
            try:
                out.append(str(pq.Quantity(1.0, x.symbol).dimensionality))
                if x.__doc__ == 'a unit for the tests' and x.symbol != x.name:
                    # it has an alias as well
                    out.append(str(pq.Quantity(1.0, x.name + 'a').dimensionality))
            except Exception as e:
                out.append(type(e).__name__)
    return out
out = []
if data['import_after']:
    pass
for b in data['objects']:
    try:
        out.append(show(pickle.loads(base64.b64decode(b))))
    except Exception as e:
        out.append(['error', repr(e)])
sys.stdout.write(json.dumps(out))
'''
_ns = {}


def show_here(x, texts):
    """the same description, made in this process"""
    if 'show' not in _ns:
        src = CHILD[CHILD.index('def show'):CHILD.index('out = []\nif')]
        _ns.update(pq=pq, np=np)
        exec(src, _ns)
    _ns['data'] = {'texts': texts}
    return json.loads(json.dumps(_ns['show'](x)))


@st.composite
def batches(draw):
    return {'o': draw(st.lists(obj(depth=1).filter(lambda s: s['k'] != 'holder'),
                               min_size=4, max_size=14)),
            'p': draw(st.lists(st.integers(0, 5), min_size=14, max_size=14)),
            'texts': draw(st.booleans())}


def no_holder(s):
    return s['k'] != 'holder' and all(no_holder(i) for i in s.get('i', []))


def check_process(s, ev):
    objs = [build(o) for o in s['o'] if no_holder(o)]
    data = {'objects': [base64.b64encode(pickle.dumps(x, p)).decode() for x, p in zip(objs, s['p'])],
            'texts': s['texts'], 'import_after': False}
    expected = [show_here(x, s['texts']) for x in objs]
    r = subprocess.run([sys.executable, '-c', CHILD, boot.REPO], input=json.dumps(data),
                       capture_output=True, text=True, timeout=300)
    if r.returncode:
        fail('the new process failed:', r.stderr[-2000:])
    got = json.loads(r.stdout)
    for x, e, g in zip(objs, expected, got):
        if e != g:
            fail('in a new process', repr(x), 'is', g, 'instead of', e)
    ev.tag(*[o['k'] for o in s['o']])
    ev.nt(len(objs) > 1)


def things():
    for n in NAMES + COMPOUND:
        yield ['unit', n]
    for n in CONSTANTS:
        yield ['constant', n]


def check_thing(s, ev):
    """Every unit and constant, by every protocol"""
    u = unit(s[1]) if s[0] == 'unit' else getattr(pq.constants, s[1])
    before = snap(u), u.format_order
    for how in METHODS:
        c = duplicate(u, how)
        same_kind(c, u, how)
        if how in ('copy', 'deepcopy', 'pickle2', 'method'):
            same_behaviour(c, u, how)
        q = duplicate(Quantity([1.0, 2.0], Dimensionality({u: 2})), how)
        same_kind(q, Quantity([1.0, 2.0], Dimensionality({u: 2})), how)
    if (snap(u), u.format_order) != before:
        fail('copying changed the unit')
    if s[0] == 'unit' and s[1] not in COMPOUND and unit(s[1]) is not u:
        fail('rebound')
    for l in GOLD[s[1]]['labels'] if s[0] == 'unit' else []:
        if l.isidentifier() and unit_registry[l] is not u and unit_registry[l].name != s[1]:
            fail('the label', l, 'denotes another unit')
    ev.nt()


SUBS = [
    Sub('copies', check_copies, copies, quick=3600),
    Sub('new process', check_process, batches, quick=100, thorough=1500),
    Sub('every unit', check_thing, cases=things, shards=8),
]
